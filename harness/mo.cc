// Pareto ranking (C24) and NSGA-II (C25).
#include "emit.hh"
#include "search.hh"

#include "hnco/multiobjective/algorithms/nsga2.hh"
#include "hnco/multiobjective/algorithms/pareto-front-computation.hh"
#include "hnco/multiobjective/functions/value.hh"

using namespace vf;
namespace mo = hnco::multiobjective;
using mo::function::value_t;

// ranks of doubles, objective by objective
static std::string rank_lists(const std::vector<value_t>& vs) {
  std::vector<std::map<double, int>> rk(vs[0].size());
  for (size_t k = 0; k < rk.size(); k++) {
    std::set<double> s; for (auto& v : vs) s.insert(v[k]);
    int r = 0; for (double d : s) rk[k][d] = ++r;
  }
  std::vector<std::string> l;
  for (auto& v : vs) { std::vector<int> q; for (size_t k = 0; k < rk.size(); k++) q.push_back(rk[k][v[k]]); l.push_back(arr(q)); }
  return list(l);
}
static double odd_value(Rng& rng) {
  const double inf = std::numeric_limits<double>::infinity();
  switch (rng.below(16)) {
  case 0: return inf;
  case 1: return -inf;
  case 2: return std::numeric_limits<double>::max();
  case 3: return std::numeric_limits<double>::lowest();
  case 4: return std::numeric_limits<double>::denorm_min();
  case 5: return 0.0;
  case 6: return -0.0;
  case 7: return 1.0;
  case 8: return std::nextafter(1.0, 2.0);
  case 9: return 16777216.0;
  case 10: return 16777217.0;
  case 11: return 1e-300;
  case 12: return 2.5;
  case 13: return -3.5;
  case 14: return 4294967296.0;
  default: return 0.1 * rng.in(-3, 3);
  }
}

struct Ranker {
  mo::algorithm::Population pop;
  mo::algorithm::Nsga2ParetoFrontComputation comp;
  Ranker(int N, int m) : pop(N, 1, m), comp(pop) {}
  void rank(const std::vector<value_t>& vs, int junk) {
    while (pop.get_size() > int(vs.size())) pop.shrink(int(vs.size()));
    if (pop.get_size() < int(vs.size())) pop.resize(vs.size(), 1, vs[0].size());
    pop.values = vs;
    std::vector<int> fr(vs.size(), junk);
    comp.compute(fr);
    Obj("rank").raw("vs", rank_lists(vs)).a("fronts", fr).emit();
  }
};

static void c24() {
  const int mult = ctx().thorough ? 8 : 1;
  // domination: all pairs over three values, up to three objectives
  for (int m = 1; m <= 3; m++) {
    Rng rng(1);
    if (!scenario("dominates", &rng)) continue;
    int T = 1; for (int i = 0; i < m; i++) T *= 3;
    for (int a = 0; a < T; a++) for (int b = 0; b < T; b++) {
      value_t va(m), vb(m);
      for (int i = 0, x = a, y = b; i < m; i++, x /= 3, y /= 3) { va[i] = x % 3 - 1; vb[i] = y % 3 - 1; }
      std::vector<int> ia(va.begin(), va.end()), ib(vb.begin(), vb.end());
      Obj("dom").a("a", ia).a("b", ib).b("ab", mo::function::dominates(va, vb)).b("ba", mo::function::dominates(vb, va)).emit();
    }
  }
  // odd numbers
  for (int rep = 0; rep < 150 * mult; rep++) {
    Rng rng(1);
    if (!scenario("odd values", &rng)) continue;
    int m = rng.in(1, 4), N = rng.in(1, 9);
    std::vector<value_t> vs(N, value_t(m));
    for (auto& v : vs) for (auto& d : v) d = odd_value(rng);
    if (N > 1) {
      std::vector<value_t> two{vs[0], vs[1]};
      std::vector<std::map<double, int>> q;
      std::vector<int> ia, ib;
      for (int k = 0; k < m; k++) { ia.push_back(vs[0][k] < vs[1][k] ? 0 : vs[0][k] > vs[1][k] ? 2 : 1); ib.push_back(1); }
      Obj("dom").a("a", ia).a("b", ib).b("ab", mo::function::dominates(vs[0], vs[1])).b("ba", mo::function::dominates(vs[1], vs[0])).emit();
    }
    Ranker r(N, m);
    r.rank(vs, rng.in(-1, 5));
  }
  // every small population, one computation reused
  for (int m = 1; m <= 2; m++) for (int N = 1; N <= (m == 1 ? 4 : ctx().thorough ? 4 : 3); N++) {
    int T = m == 1 ? 4 : 9, total = 1; for (int i = 0; i < N; i++) total *= T;
    const int step = 100;
    for (int lo = 0; lo < total; lo += step) {
      Rng rng(1);
      if (!scenario("every population", &rng)) continue;
      Ranker r(N, m);
      for (int code = lo; code < std::min(total, lo + step); code++) {
        std::vector<value_t> vs(N, value_t(m));
        for (int i = 0, x = code; i < N; i++, x /= T) { if (m == 1) vs[i][0] = x % T; else { vs[i][0] = x % T % 3; vs[i][1] = x % T / 3; } }
        r.rank(vs, rng.in(-1, 5));
      }
    }
  }
  // histories of populations of changing size and ties
  for (int rep = 0; rep < 60 * mult; rep++) {
    Rng rng(1);
    if (!scenario("histories", &rng)) continue;
    int m = rng.in(1, 4);
    Ranker r(rng.in(1, 12), m);
    for (int t = 0; t < 6; t++) {
      int N = rng.in(1, 14), hi = rng.in(0, rng.coin() ? 3 : 20);
      std::vector<value_t> vs(N, value_t(m));
      bool chain = rng.below(4) == 0;
      for (int i = 0; i < N; i++) for (auto& d : vs[i]) d = chain ? N - i : rng.in(-hi, hi);
      for (int i = 1; i < N; i++) if (rng.below(5) == 0) vs[i] = vs[rng.below(i)];
      if (rng.coin()) for (size_t i = N; i-- > 1; ) std::swap(vs[i], vs[rng.below(i + 1)]);
      r.rank(vs, rng.in(-1, 5));
    }
  }
  // large ones
  for (int rep = 0; rep < 6 * mult; rep++) {
    Rng rng(1);
    if (!scenario("large populations", &rng)) continue;
    int N = rng.in(30, 80), m = rng.in(1, 5);
    Ranker r(N, m);
    for (int t = 0; t < 2; t++) {
      std::vector<value_t> vs(N, value_t(m));
      for (auto& v : vs) for (auto& d : v) d = rng.in(0, 40);
      r.rank(vs, 7);
    }
  }
  for (int rep = 0; rep < 12 * mult; rep++) {
    Rng rng(1);
    if (!scenario("very large populations", &rng)) continue;
    int N = rng.in(100, 300), m = rng.in(1, 8), kind = rep % 6;
    Ranker r(N, m);
    for (int t = 0; t < 2; t++) {
      if (t) N = rng.in(20, 300);
      std::vector<value_t> vs(N, value_t(m));
      for (int i = 0; i < N; i++) for (int k = 0; k < m; k++) {
        double& d = vs[i][k];
        d = kind == 0 ? rng.in(0, 2) : kind == 1 ? i : kind == 2 ? (k % 2 ? i : -i) : kind == 3 ? (i / 7) * (k % 2 && i % 7 == 0 ? -1 : 1) : kind == 4 ? rng.in(-1000, 1000) / 7. : rng.in(0, 12) * 1e-9;
      }
      for (size_t i = N; i-- > 1; ) std::swap(vs[i], vs[rng.below(i + 1)]);
      r.rank(vs, 7);
    }
  }
}

// objective values given by a table of integers, times a unit
struct MoTable : mo::function::Function {
  int n, m;
  double unit;
  std::vector<std::vector<int>> t;
  std::vector<int> xs;
  std::vector<std::string> vs;
  std::function<std::vector<int>(const hnco::bit_vector_t&)> fn;
  std::vector<hnco::bit_vector_t> bvs;
  MoTable(int n_, int m_, double u) : n(n_), m(m_), unit(u) {}
  int get_bv_size() const override { return n; }
  int get_output_size() const override { return m; }
  std::vector<int> of(const hnco::bit_vector_t& x) const { return fn ? fn(x) : t[bv_index(x)]; }
  void evaluate(const hnco::bit_vector_t& x, value_t& v) override {
    auto q = of(x);
    for (int k = 0; k < m; k++) v[k] = q[k] * unit;
    bvs.push_back(x);
    if (!fn) xs.push_back(bv_index(x));
    if (!fn) vs.push_back(arr(q));
  }
};

static void fill_table(MoTable& f, int kind, Rng& rng) {
  f.t.assign(1u << f.n, std::vector<int>(f.m));
  std::vector<std::vector<int>> perms(f.m);
  for (auto& p : perms) {
    p.resize(f.t.size()); for (size_t i = 0; i < p.size(); i++) p[i] = i;
    for (size_t i = p.size(); i-- > 1; ) std::swap(p[i], p[rng.below(i + 1)]);
  }
  for (size_t x = 0; x < f.t.size(); x++) for (int k = 0; k < f.m; k++) {
    int& v = f.t[x][k];
    switch (kind) {
    case 0: v = perms[k][x]; break;                                    // distinct values, random
    case 1: v = k == 0 ? perms[0][x] : (k == 1 ? int(f.t.size()) - perms[0][x] : perms[k][x]); v = v * v / (k + 1) ; break;  // one large front
    case 2: v = rng.in(0, 3); break;                                   // many ties
    case 3: v = perms[0][x] * (k + 1); break;                          // a chain
    case 4: v = -perms[k][x] - 3; break;                               // negative
    case 5: v = (k == 0 ? perms[0][x] : -perms[0][x]) + (perms[1 % f.m][x] % 3 == 0 ? 100 : 0); break;  // a few large fronts
    default: v = 5; break;                                             // constant
    }
  }
}

static void emit_gens(MoTable& f, int N) {
  for (size_t lo = 0; lo < f.xs.size(); lo += N) {
    size_t hi = std::min(f.xs.size(), lo + N);
    Obj("gen").a("xs", std::vector<int>(f.xs.begin() + lo, f.xs.begin() + hi)).l("vs", std::vector<std::string>(f.vs.begin() + lo, f.vs.begin() + hi)).emit();
  }
}

static void run(mo::algorithm::Nsga2& a, MoTable& f, int N, int G, int k, int cross, const std::string& mut, bool loose) {
  f.xs.clear(); f.vs.clear(); f.bvs.clear();
  a.set_num_iterations(G);
  a.minimize({&f});
  Obj c; c.i("n", f.n).i("m", f.m).i("N", N).i("k", k).i("cross", cross).str("mut", mut).b("loose", loose);
  Obj("begin").raw("c", c.get()).emit();
  emit_gens(f, N);
  const auto& s = a.get_solutions();
  std::vector<std::string> l;
  for (int i = 0; i < s.get_size(); i++) {
    std::vector<int> v; for (double d : s.values[i]) v.push_back(iv(d / f.unit));
    l.push_back("[" + num(bv_index(s.bvs[i])) + "," + arr(v) + "]");
  }
  Obj("final").i("gens", G).l("sols", l).emit();
}

static void c25() {
  const int mult = ctx().thorough ? 6 : 1;
  // short runs followed exactly
  for (int rep = 0; rep < 300 * mult; rep++) {
    Rng rng(1);
    if (!scenario("short runs", &rng)) continue;
    int n = rng.in(3, 6), m = rng.in(1, 3), N = rng.in(3, 6), k = rng.in(2, N - 1);
    if (rng.below(3)) { m = 2; }
    MoTable f(n, m, std::vector<double>{1, 0.25, 1024}[rng.below(3)]);
    fill_table(f, rng.below(3) ? (rng.coin() ? 1 : 5) : rng.below(7), rng);
    int cross = std::vector<int>{0, 0, 100, 50}[rng.below(4)], mt = rng.below(3);
    mo::algorithm::Nsga2 a(n, m, N);
    a.set_tournament_size(k);
    a.set_crossover_probability(cross / 100.0);
    if (mt == 0) { a.set_mutation_rate(0); a.set_allow_no_mutation(true); }
    if (mt == 1) { a.set_mutation_rate(1); a.set_allow_no_mutation(rng.coin()); }
    if (mt == 2) a.set_allow_no_mutation(rng.coin());
    std::string mut = mt == 0 ? "none" : mt == 1 ? "all" : "any";
    // then run again, and longer, with the same instance
    int G = rng.in(0, 2);
    for (int t = 0; t < 2; t++) { run(a, f, N, G, k, cross, mut, false); G = rng.in(0, 4); }
  }
  // larger populations, mostly without ties
  for (int rep = 0; rep < 60 * mult; rep++) {
    Rng rng(1);
    if (!scenario("medium runs", &rng)) continue;
    int n = rng.in(8, 10), m = rng.in(2, 4), N = rng.in(7, 24), k = rng.in(2, rng.coin() ? 3 : N - 1);
    if (rng.coin()) m = 2;
    MoTable f(n, m, std::vector<double>{1, 0.25, 1024}[rng.below(3)]);
    fill_table(f, std::vector<int>{0, 1, 1, 4}[rng.below(4)], rng);
    int cross = std::vector<int>{0, 100, 50}[rng.below(3)], mt = rng.below(3);
    mo::algorithm::Nsga2 a(n, m, N);
    a.set_tournament_size(k);
    a.set_crossover_probability(cross / 100.0);
    if (mt == 0) { a.set_mutation_rate(0); a.set_allow_no_mutation(true); }
    if (mt == 1) a.set_mutation_rate(1);
    run(a, f, N, rng.in(0, 3), k, cross, mt == 0 ? "none" : mt == 1 ? "all" : "any", false);
    run(a, f, N, rng.in(1, 3), k, cross, mt == 0 ? "none" : mt == 1 ? "all" : "any", false);
  }
  // longer runs
  for (int rep = 0; rep < 60 * mult; rep++) {
    Rng rng(1);
    if (!scenario("long runs", &rng)) continue;
    int n = rng.in(4, 9), m = rng.in(1, 3), N = rng.in(3, 20);
    if (rep % 10 == 9) { n = rng.in(8, 10); N = rng.in(21, 90); m = rng.in(1, 6); }
    MoTable f(n, m, 0.5);
    fill_table(f, rng.below(7), rng);
    mo::algorithm::Nsga2 a(n, m, N);
    for (int t = 0; t < 2; t++) run(a, f, N, rng.in(3, 20), 2, 80, "any", true);
  }
  // rates: all points are far apart, so that an offspring tells where it comes from
  for (int rep = 0; rep < 24 * mult; rep++) {
    Rng rng(1);
    if (!scenario("rates", &rng)) continue;
    const int n = 200, N = 400;
    int cross = std::vector<int>{0, 25, 50, 100}[rep % 4], mutation = std::vector<int>{0, 1, 4}[rep / 4 % 3], phase = rep / 12 % 2;
    MoTable f(n, 2, 1);
    f.fn = [](const hnco::bit_vector_t& x) { int a = 0; for (int i = 0; i < 24; i++) a = 2 * a + x[i]; return std::vector<int>{a, -a}; };
    mo::algorithm::Nsga2 a(n, 2, N);
    a.set_crossover_probability(cross / 100.0);
    a.set_allow_no_mutation(true);
    a.set_mutation_rate(mutation / double(n));
    a.set_num_iterations(phase + 1);
    a.minimize({&f});
    std::vector<hnco::bit_vector_t> par(f.bvs.begin(), f.bvs.begin() + N * (phase + 1)), off(f.bvs.begin() + N * (phase + 1), f.bvs.end());
    Obj("flag").b("ok", int(off.size()) == N).emit();
    int mixed = 0; long flips = 0, cnt = 0;
    for (auto& o : off) {
      int d = n; for (auto& p : par) { int h = 0; for (int i = 0; i < n; i++) h += o[i] != p[i]; d = std::min(d, h); }
      // in the second generation relatives are closer: half way between a parent and its own offspring stays near
      if (d > 25) mixed++; else { flips += d; cnt++; }
    }
    if (phase == 0) Obj("stat").i("a", mixed).i("den", 100).i("num", cross * N).i("tol", 100 * (cross == 0 || cross == 100 ? 8 : 60)).emit();
    else if (cross == 0) Obj("stat").i("a", mixed).i("den", 1).i("num", 0).i("tol", 2).emit();
    else Obj("flag").b("ok", mixed > 0).emit();
    if (cnt > 80 && (phase == 0 || cross == 0)) Obj("stat").i("a", flips).i("den", 1).i("num", cnt * mutation).i("tol", mutation == 0 ? 0 : long(7 * std::sqrt(double(cnt) * mutation)) + 1 + (phase ? cnt / 4 : 0)).emit();
    // offspring that are exact copies
    if (mutation > 0 && cross == 0) {
      MoTable g(n, 2, 1); g.fn = f.fn;
      mo::algorithm::Nsga2 b(n, 2, N);
      b.set_crossover_probability(0); b.set_mutation_rate(mutation / double(n)); b.set_num_iterations(phase + 1);
      b.minimize({&g});
      int same = 0;
      for (int j = N * (phase + 1); j < N * (phase + 2); j++) for (int i = 0; i < N; i++) if (g.bvs[j] == g.bvs[i]) { same++; break; }
      Obj("stat").i("a", same).i("den", 1).i("num", 0).i("tol", phase ? N / 20 : 0).emit();
    }
  }
  // illegal parameters
  if (scenario("illegal")) {
    auto refused = [](std::function<void()> f) { try { f(); return false; } catch (const std::exception&) { return true; } };
    for (int n = -1; n <= 1; n++) for (int m = -1; m <= 1; m++) for (int N = 0; N <= 1; N++)
      Obj("refused").b("bad", n <= 0 || m <= 0 || N <= 0).b("thrown", refused([&] { mo::algorithm::Nsga2 a(n, m, N); })).emit();
    for (int k = 0; k <= 7; k++) {
      MoTable f(3, 2, 1); Rng rng(5); fill_table(f, 0, rng);
      mo::algorithm::Nsga2 a(3, 2, 5); a.set_tournament_size(k); a.set_num_iterations(1);
      Obj("refused").b("bad", k < 2 || k >= 5).b("thrown", refused([&] { a.minimize({&f}); })).emit();
    }
  }
}

int main(int argc, char *argv[]) {
  init(argc, argv);
  if (ctx().mode == "C24") c24();
  if (ctx().mode == "C25") c25();
  return finish();
}
