// Populations, selection, crossover, generations of evolutionary algorithms: C20.
#include "search.hh"

#include "hnco/algorithms/evolutionary-algorithms/all.hh"
#include "hnco/algorithms/evolutionary-algorithms/random-selection.hh"
#include "hnco/algorithms/evolutionary-algorithms/selection.hh"
#include "hnco/algorithms/evolutionary-algorithms/crossover.hh"

using namespace vf;
using namespace hnco::algorithm;

// Values are integers in a unit that is a power of two, or infinite.
static double U = 1;
static const int VF_INF = 1000000;
static void unit(Rng& rng) { U = rng.coin() ? 1 : std::ldexp(1., rng.in(-70, 40)); }
static double dec(int k) { return k >= VF_INF ? HUGE_VAL : k <= -VF_INF ? -HUGE_VAL : k * U; }
static int enc(double v) { return std::isinf(v) ? (v > 0 ? VF_INF : -VF_INF) : iv(v / U); }

static std::string pair_list(const std::vector<std::pair<int, int>>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += "[" + num(v[i].first) + "," + num(v[i].second) + "]"; }
  return s + "]";
}
static std::vector<std::pair<int, int>> raw_pairs(const Population& p) {
  std::vector<std::pair<int, int>> v;
  for (size_t i = 0; i < p.bvs.size(); i++) v.push_back({(int)bv_index(p.bvs[i]), enc(p.values[i])});
  return v;
}
static std::vector<std::pair<int, int>> best_pairs(Population& p, int m) {
  std::vector<std::pair<int, int>> v;
  for (int i = 0; i < m; i++) v.push_back({(int)bv_index(p.get_best_bv(i)), enc(p.get_best_value(i))});
  return v;
}
static std::vector<int> ints(const std::vector<double>& v) { std::vector<int> r; for (double d : v) r.push_back(enc(d)); return r; }
static std::vector<int> points(const Population& p) { std::vector<int> r; for (auto& b : p.bvs) r.push_back(bv_index(b)); return r; }

// distinct points
static void fill(Population& p, int n, const std::vector<int>& vals, Rng& rng) {
  std::vector<int> xs(1 << n); for (size_t i = 0; i < xs.size(); i++) xs[i] = i;
  for (size_t i = xs.size(); i-- > 1; ) std::swap(xs[i], xs[rng.below(i + 1)]);
  for (int i = 0; i < p.get_size(); i++) { p.bvs[i] = bv_of(xs[i % xs.size()], n); p.values[i] = dec(vals[i]); }
}
// not nec. distinct
static void fill2(Population& p, int n, int lo, int hi, Rng& rng) {
  for (int i = 0; i < p.get_size(); i++) { p.bvs[i] = rng.bv(n); p.values[i] = dec(rng.below(40) == 0 && hi > lo ? (rng.coin() ? VF_INF : -VF_INF) : rng.in(lo, hi)); }
}

static void direct() {
  const int mult = ctx().thorough ? 6 : 1;
  // all value vectors of small populations
  for (int N = 1; N <= (ctx().thorough ? 5 : 4); N++) {
    int total = 1; for (int i = 0; i < N; i++) total *= 3;
    for (int code = 0; code < total; code++) {
      Rng rng(1);
      if (!scenario("sort all", &rng)) continue;
      unit(rng);
      std::vector<int> vals; for (int i = 0, c = code; i < N; i++, c /= 3) vals.push_back(c % 3 - 1);
      Population p(N, 3);
      fill(p, 3, vals, rng);
      for (int rep = 0; rep < 2; rep++) {
        auto emit_rank = [&](int m) {
          Obj("rank").a("vs", ints(p.values)).a("xs", points(p)).a("perm", p.permutation).i("m", m).raw("order", pair_list(best_pairs(p, N))).emit();
        };
        p.sort(); emit_rank(N);
        for (int k = 0; k < N; k++) {
          auto r = p.get_equivalent_bvs(k);
          Obj("class").a("vs", ints(p.values)).a("perm", p.permutation).i("index", k).a("range", std::vector<int>{r.first, r.second}).emit();
          Obj("member").i("x", p.get_best_index(k)).a("xs", std::vector<int>{p.permutation[k]}).emit();
          Obj("member").i("x", bv_index(p.get_worst_bv(k))).a("xs", std::vector<int>{(int)bv_index(p.bvs[p.permutation[N - 1 - k]])}).emit();
        }
        int m = rng.in(1, N);
        p.partial_sort(m); emit_rank(m);
      }
    }
  }
  // larger ones
  for (int rep = 0; rep < 40 * mult; rep++) {
    Rng rng(1);
    if (!scenario("sort large", &rng)) continue;
    unit(rng);
    int N = rep % 8 == 7 ? rng.in(61, 700) : rng.in(5, 60), m = rng.in(1, rng.coin() ? N : std::min(N, 20));
    Population p(N, 6);
    fill2(p, 6, 0, rng.in(0, rng.coin() ? 40 : 5000), rng);
    bool full = rng.coin();
    if (full) { p.sort(); m = N; } else p.partial_sort(m);
    Obj("rank").a("vs", ints(p.values)).a("xs", points(p)).a("perm", p.permutation).i("m", m).raw("order", pair_list(best_pairs(p, N))).emit();
    if (full) for (int k = 0; k < N; k += N > 60 ? N / 7 : 3) {
      auto r = p.get_equivalent_bvs(k);
      Obj("class").a("vs", ints(p.values)).a("perm", p.permutation).i("index", k).a("range", std::vector<int>{r.first, r.second}).emit();
    }
  }
  // ties are broken at random
  for (int N = 2; N <= 5; N++) {
    Rng rng(1);
    if (!scenario("ties", &rng)) continue;
      unit(rng);
    Population p(N, 3);
    fill(p, 3, std::vector<int>(N, 4), rng);
    std::set<int> got, want;
    for (int k = 0; k < N; k++) want.insert(k);
    for (int k = 0; k < 60 * N; k++) { if (k % 2) p.sort(); else p.partial_sort(1); got.insert(p.get_best_index()); }
    Obj("support").a("got", got).a("want", want).emit();
  }
  // replacement
  for (int rep = 0; rep < 300 * mult; rep++) {
    Rng rng(1);
    if (!scenario("replacement", &rng)) continue;
    unit(rng);
    int mu = rng.in(1, 6), lambda = rng.in(1, 8), n = rng.in(1, 4);
    int hi = rng.in(0, 6);
    if (rep % 20 == 19) { mu = rng.in(1, 150); lambda = rng.in(1, 200); n = rng.in(5, 10); hi = rng.in(0, 3000); }
    Population par(mu, n), off(lambda, n);
    bool thrown = false;
    try { CommaSelection c(par, off); } catch (...) { thrown = true; }
    Obj("refused").b("bad", lambda < mu).b("thrown", thrown).emit();
    PlusSelection plus(par, off);
    fill2(par, n, -hi, hi, rng);
    if (rng.coin()) par.sort();
    for (int gen = 0; gen < 4; gen++) {
      fill2(off, n, -hi, hi, rng);
      bool comma = lambda >= mu && rng.coin();
      auto a = raw_pairs(par), b = raw_pairs(off);
      if (comma) { CommaSelection c(par, off); c.select(); } else plus.select();
      Obj(comma ? "comma" : "plus").raw("par", pair_list(a)).raw("off", pair_list(b)).raw("out", pair_list(raw_pairs(par)))
        .raw("best", pair_list(best_pairs(par, mu))).emit();
    }
  }
  for (int rep = 0; rep < 60 * mult; rep++) {
    Rng rng(1);
    if (!scenario("comma replacement", &rng)) continue;
    unit(rng);
    int mu = rng.in(1, 6), lambda = mu + rng.in(0, 5), n = rng.in(1, 4);
    if (rep % 12 == 11) { mu = rng.in(7, 120); lambda = mu + rng.below(2) * rng.in(0, 100); n = 8; }
    Population par(mu, n), off(lambda, n);
    CommaSelection c(par, off);
    fill2(par, n, -3, 3, rng);
    for (int gen = 0; gen < 4; gen++) {
      fill2(off, n, -3, 3, rng);
      auto a = raw_pairs(par), b = raw_pairs(off);
      c.select();
      Obj("comma").raw("par", pair_list(a)).raw("off", pair_list(b)).raw("out", pair_list(raw_pairs(par))).raw("best", pair_list(best_pairs(par, mu))).emit();
    }
  }
  // tournaments
  for (int rep = 0; rep < 120 * mult; rep++) {
    Rng rng(1);
    if (!scenario("tournaments", &rng)) continue;
    unit(rng);
    const bool big = rep % 10 == 9;
    int N = big ? rng.in(13, 130) : rng.in(3, 12), k = rng.in(2, big && rng.coin() ? 5 : N - 1), hi = rng.in(0, big ? 100 : 8);
    Population p(N, big ? 7 + (N > 128) : 4);
    std::vector<int> vals; for (int i = 0; i < N; i++) vals.push_back(rng.below(30) ? rng.in(-hi, hi) : rng.coin() ? VF_INF : -VF_INF);
    fill(p, big ? 7 + (N > 128) : 4, vals, rng);
    TournamentSelection t(p);
    if (k != 2 || rng.coin()) t.set_tournament_size(k);
    for (int again = 0; again < 2; again++) {
      t.init();
      Obj("round").emit();
      for (int d = 0; d < 4 * (N / k) + 1; d++) {
        unsigned long x = bv_index(t.select());
        int w = 0; for (int i = 0; i < N; i++) if (bv_index(p.bvs[i]) == x) w = i + 1;
        Obj("win").a("vs", ints(p.values)).i("k", k).i("w", w).emit();
      }
    }
    if (rep % 4 == 0 && !big) {
      std::set<int> got, want;
      for (int d = 0; d < 1500; d++) got.insert(bv_index(t.select()));
      for (int i = 0; i < N; i++) { int c = 0; for (int j = 0; j < N; j++) c += vals[j] <= vals[i]; if (c >= k) want.insert(bv_index(p.bvs[i])); }
      // ties may always win only if they come first: they do for some permutation
      for (auto x : got) Obj("member").i("x", x).a("xs", want).emit();
      if (N <= 5) Obj("support").a("got", got).a("want", want).emit();
    }
  }
  // other selections
  for (int rep = 0; rep < 16 * mult; rep++) {
    Rng rng(1);
    if (!scenario("proportions", &rng)) continue;
      U = 1;
    int N = rng.in(2, 6);
    Population p(N, 4);
    std::vector<int> vals; for (int i = 0; i < N; i++) vals.push_back(rng.in(1, 6));
    fill(p, 4, vals, rng);
    int kind = rep % 4;
    UniformSelection u(p); FitnessProportionateSelection f(p); BoltzmannSelection b(p);
    std::vector<int> w = vals;
    RandomSelection *s = &f;
    if (kind == 0) { s = &u; w.assign(N, 1); }
    if (kind >= 2) {
      s = &b;
      int sh = rng.in(-500, 500);   // large common offset
      for (int i = 0; i < N; i++) { p.values[i] = vals[i] + sh; w[i] = 1 << (kind == 2 ? vals[i] : 2 * vals[i]); }
      b.set_beta(kind == 2 ? std::log(2.0) : 2 * std::log(2.0));
    }
    s->init();
    std::vector<int> c(N, 0);
    for (int d = 0; d < 4000; d++) {
      unsigned long x = bv_index(s->select());
      int at = -1; for (int i = 0; i < N; i++) if (bv_index(p.bvs[i]) == x) at = i;
      if (at < 0) Obj("member").i("x", x).a("xs", points(p)).emit(); else c[at]++;
    }
    Obj("freq").a("w", w).a("c", c).i("tol", 5).emit();
    // the population changes, and the selection with it
    if (kind == 1) {
      for (int i = 0; i < N; i++) { vals[i] = rng.in(1, 6); p.values[i] = vals[i]; }
      s->init();
      std::fill(c.begin(), c.end(), 0);
      for (int d = 0; d < 4000; d++) { unsigned long x = bv_index(s->select()); for (int i = 0; i < N; i++) if (bv_index(p.bvs[i]) == x) c[i]++; }
      Obj("freq").a("w", vals).a("c", c).i("tol", 5).emit();
    }
  }
  // crossover
  for (int n = 1; n <= 8; n++) for (int rep = 0; rep < 10 * mult; rep++) {
    Rng rng(1);
    if (!scenario("crossover", &rng)) continue;
    if (n == 8) {   // many bits, the offspring of any previous content
      int m = rng.in(9, 140); auto p = rng.bv(m), q = rng.bv(m); UniformCrossover u; BiasedCrossover b; b.set_bias(rng.in(1, 9) / 10.);
      for (int d = 0; d < 4; d++) { auto o = rng.bv(m); if (rng.coin()) u.recombine(p, q, o); else b.recombine(p, q, o); Obj("crossv").a("p", p).a("q", q).a("o", o).emit(); }
    }
    UniformCrossover u; BiasedCrossover b;
    int bias = rng.in(1, 9) * 10;
    bool biased = rng.coin();
    if (biased) b.set_bias(bias / 100.0); else bias = 50;
    auto p = rng.bv(n), q = rng.bv(n); bit_vector_t o = rng.bv(n);
    std::vector<int> c(2, 0);
    for (int d = 0; d < 30; d++) {
      if (rep % 2) u.recombine(p, q, o); else b.recombine(p, q, o);
      Obj("cross").i("n", n).i("p", bv_index(p)).i("q", bv_index(q)).i("o", bv_index(o)).emit();
    }
    bit_vector_t z(n, 0), one(n, 1);
    for (int d = 0; d < 3200 / n; d++) {
      if (rep % 2) u.recombine(z, one, o); else b.recombine(z, one, o);
      for (auto x : o) c[x]++;
    }
    if (rep % 2) bias = 50;
    Obj("freq").a("w", std::vector<int>{100 - bias, bias}).a("c", c).i("tol", 6).emit();
  }
}

static void generations() {
  const int mult = ctx().thorough ? 6 : 1;
  for (auto alg : {"plus", "comma", "ga", "lambda"}) for (int rep = 0; rep < 60 * mult; rep++) {
    Rng rng(1);
    if (!scenario(std::string("generations ") + alg, &rng)) continue;
    std::string name = alg;
    int n = rng.in(3, 6), mu = rng.in(1, 5), lambda = rng.in(1, 6), k = 2, rate = rep % 2, cross = rng.coin() ? 100 : 0;
    int threads = rng.coin() ? 1 : rng.in(2, 4);
    if (name == "comma") lambda = std::max(lambda, mu);
    if (name == "ga") { mu = lambda = rng.in(3, 7); k = rng.in(2, mu - 1); }
    if (name == "lambda") { lambda = rng.in(2, n); threads = 1; }
    int N = rng.in(1, 8);
    // larger populations, more bits, or more generations
    if (rep % 12 == 10 && name != "lambda") { n = 9; mu = rng.in(6, 40); lambda = std::max(name == "plus" ? 1 : mu, rng.in(1, 60)); if (name == "ga") { lambda = mu; k = rng.in(2, mu - 1); } N = rng.in(1, 4); }
    if (rep % 12 == 11) N = rng.in(30, 80);
    if (rep % 12 == 9 && name == "lambda") { n = rng.in(10, 12); lambda = rng.in(2, n); }
    // distinct values, so that ranks decide; any table for the (1+(lambda,lambda)) algorithm
    Table t = make_table(n, name == "lambda" ? rng.below(NUM_TABLE_KINDS + 2) : 8 + rng.below(2), rng);
    auto go = [&](auto& a) {
      a.set_num_iterations(N);
      for (int run = 0; run < 2; run++) {
        Outcome o = run_algorithm(a, t, rng.next() % 1000000007, -1, -1, threads);
        Obj c; c.str("alg", name).i("n", n).i("mu", mu).i("lambda", lambda).i("k", k).i("rate", rate).i("cross", cross);
        Obj("begin").raw("c", c.get()).emit();
        for (auto& e : o.evs) Obj("eval").i("x", e.x).i("v", e.r).emit();
        Obj("final").i("x", o.x).i("v", o.r).emit();
      }
    };
    if (name == "plus") { MuPlusLambdaEa a(n, mu, lambda); a.set_mutation_rate(rate); a.set_allow_no_mutation(true); go(a); }
    if (name == "comma") { MuCommaLambdaEa a(n, mu, lambda); a.set_mutation_rate(rate); a.set_allow_no_mutation(true); go(a); }
    if (name == "ga") { GeneticAlgorithm a(n, mu); a.set_mutation_rate(rate); a.set_allow_no_mutation(true);
      a.set_tournament_size(k); a.set_crossover_probability(cross / 100.0); go(a); }
    if (name == "lambda") { OnePlusLambdaCommaLambdaGa a(n, lambda);
      if (rng.coin()) a.set_mutation_rate(rng.in(1, 9) / 10.0);
      if (rng.coin()) a.set_crossover_bias(rng.in(1, 9) / 10.0);
      go(a); }
  }
}

// How often the genetic algorithm recombines: its first generation of clones on many bits
static void recombination() {
  for (int rep = 0; rep < (ctx().thorough ? 30 : 8); rep++) {
    Rng rng(1);
    if (!scenario("crossover probability", &rng)) continue;
    const int n = rng.in(40, 70), mu = 1500, pc = rng.below(3) == 0 ? 80 : rng.in(1, 9) * 10;
    GeneticAlgorithm a(n, mu); a.set_mutation_rate(0); a.set_allow_no_mutation(true); a.set_num_iterations(1);
    if (pc != 80 || rng.coin()) a.set_crossover_probability(pc / 100.); else a.set_crossover_probability(0.8);
    Table t(n, 0);
    Outcome o = run_algorithm(a, t, rng.next() % 1000000007, -1, -1, 1);
    std::set<int> first; int clones = 0, total = 0;
    for (size_t k = 0; k < o.evs.size(); k++) if ((int)k < mu) first.insert(o.evs[k].x); else { total++; clones += first.count(o.evs[k].x); }
    Obj("freq").a("w", std::vector<int>{pc, 100 - pc}).a("c", std::vector<int>{total - clones, clones}).i("tol", 10).emit();
    Obj("support").a("got", std::vector<int>{total}).a("want", std::vector<int>{mu}).emit();
  }
}

int main(int argc, char *argv[]) {
  init(argc, argv);
  if (ctx().mode != "C20") return 64;
  direct();
  generations();
  recombination();
  return finish();
}
