// Distribution-learning algorithms: C21.
#include "search.hh"

#include "hnco/algorithms/evolutionary-algorithms/it-ea.hh"
#include "hnco/algorithms/evolutionary-algorithms/two-rate-one-plus-lambda-ea.hh"
#include "hnco/algorithms/mimic.hh"
#include "hnco/algorithms/probability-vector/all.hh"

using namespace vf;
using namespace hnco::algorithm;

static const double U = 1e6;
static long u6(double d) { return std::fabs(d) < 1000 ? std::lround(d * U) : BAD; }
static std::vector<long> u6s(const std::vector<double>& v) { std::vector<long> r; for (double d : v) r.push_back(u6(d)); return r; }

// a run, its evaluations, and the line logged after each iteration
struct Run { std::vector<Ev> evs; std::vector<int> line; std::vector<std::vector<double>> logs; };
static Run run(Algorithm& a, const Table& t, unsigned seed, int threads) {
  Run r;
  Quiet q;
  auto lines = [&] { std::string s = q.os.str(); return int(std::count(s.begin(), s.end(), '\n')); };
  Outcome o = run_algorithm(a, t, seed, -1, -1, threads, false, [&](const Ev&) { r.line.push_back(lines()); });
  r.evs = o.evs;
  std::istringstream is(q.os.str());
  for (std::string l; std::getline(is, l); ) {
    std::istringstream ls(l); std::vector<double> v; for (double d; ls >> d; ) v.push_back(d);
    r.logs.push_back(v);
  }
  return r;
}
static Table distinct(int n, Rng& rng) {
  std::vector<double> v(1u << n); for (size_t i = 0; i < v.size(); i++) v[i] = i;
  for (size_t i = v.size(); i-- > 1; ) std::swap(v[i], v[rng.below(i + 1)]);
  return Table(n, v);
}
static Table some_table(int n, Rng& rng) {
  switch (rng.below(4)) { case 0: return make_table(n, 0, rng); case 1: return make_table(n, 4, rng); default: return distinct(n, rng); }
}

template<class A> static void pv_log(A& a, int n, int G) { a.set_log_pv(true); a.set_log_num_components(n); a.set_num_iterations(G); }

// On many bits a few positions are followed.
static void emit_run(Run r, Obj c, int n, int N, int first, int G, const Table *wide = nullptr, const std::vector<int>& pos = {}) {
  if (wide) {
    std::vector<int> image(wide->ids.size() + 1);
    for (auto& p : wide->ids) { int y = 0; for (size_t k = 0; k < pos.size(); k++) y |= int(p.first[pos[k]]) << k; image[p.second] = y; }
    for (auto& e : r.evs) e.x = image[e.x];
    for (auto& l : r.logs) { std::vector<double> q; for (int k : pos) q.push_back(size_t(k) < l.size() ? l[k] : -1); l = q; }
  }
  Obj("begin").raw("c", c.get()).i("x", r.evs[0].x).i("v", r.evs[0].r).emit();
  for (int g = 0; g < G; g++) {
    std::vector<int> xs, vs;
    for (int k = 0; k < N && size_t(first + g * N + k) < r.evs.size(); k++) { xs.push_back(r.evs[first + g * N + k].x); vs.push_back(r.evs[first + g * N + k].r); }
    std::vector<double> pv = size_t(g) < r.logs.size() ? r.logs[g] : std::vector<double>{};
    Obj("gen").a("xs", xs).a("vs", vs).a("pv", u6s(pv)).emit();
  }
}

static void vectors() {
  const int mult = ctx().thorough ? 6 : 1;
  for (const char *alg : {"umda", "pbil", "nps", "cga", "mmas"}) for (int rep = 0; rep < 40 * mult; rep++) {
    Rng rng(1);
    if (!scenario(alg, &rng)) continue;
    std::string s = alg;
    bool wide = rep % 5 == 4;
    static const int sizes[] = {31, 33, 64, 65, 100};
    const bool crowd = rep % 5 == 3;   // larger populations; all values differ
    const int n = wide ? sizes[rng.below(5)] : crowd ? rng.in(8, 10) : rng.in(2, 6), G = crowd ? 6 : 20, threads = rng.below(3) == 0 ? 2 : 1;
    int N = crowd ? rng.in(20, 150) : rng.in(2, 6), m = rng.in(1, N), rate = rng.in(1, 999);
    if (s == "nps") m = rng.in(1, std::max(1, N / 2));
    if (s == "cga") { N = 2; m = 1; rate = rng.in(1, 200); }
    if (s == "mmas") { N = 1; m = 1; }
    bool strict = rng.coin();
    Table t = wide ? Table(n, rng.below(2)) : crowd ? distinct(n, rng) : some_table(n, rng);
    std::vector<int> pos{0, n - 1, n / 2, 30}; while (pos.size() < 8) pos.push_back(rng.below(n));
    std::unique_ptr<Algorithm> h;
    auto go = [&] {
      Obj c; c.str("alg", s).i("n", wide ? 8 : n).i("dim", n).i("N", N).i("m", m).i("rate", rate).b("strict", strict);
      unsigned sd = rng.next() % 1000000;
      for (int twice = 0; twice < 2; twice++) emit_run(run(*h, t, sd + twice, threads), c, n, N, 1, G, wide ? &t : nullptr, pos);
    };
    if (s == "umda") { auto a = new Umda(n, N); h.reset(a); a->set_selection_size(m); pv_log(*a, n, G); }
    if (s == "pbil") { auto a = new Pbil(n, N); h.reset(a); a->set_selection_size(m); a->set_learning_rate(rate / 1000.0); pv_log(*a, n, G); }
    if (s == "nps") { auto a = new NpsPbil(n, N); h.reset(a); a->set_selection_size(m); a->set_learning_rate(rate / 1000.0); pv_log(*a, n, G); }
    if (s == "cga") { auto a = new CompactGa(n); h.reset(a); a->set_learning_rate(rate / 1000.0); pv_log(*a, n, G); }
    if (s == "mmas") {
      auto a = new Mmas(n); h.reset(a); a->set_learning_rate(rate / 1000.0); pv_log(*a, n, G);
      if (strict) a->set_compare(std::greater<double>()); else a->set_compare(std::greater_equal<double>());
    }
    go();
    Obj("fair").emit();
  }
  // sampling, over many generations with a model that moves
  for (const char *alg : {"umda", "pbil", "nps", "cga", "mmas"}) for (int rep = 0; rep < 2 * mult; rep++) {
    Rng rng(1);
    if (!scenario(std::string("sampling ") + alg, &rng)) continue;
    std::string s = alg;
    const int n = 8, G = s == "mmas" ? 600 : s == "cga" ? 400 : 120;
    int N = s == "cga" ? 2 : s == "mmas" ? 1 : 10, m = s == "nps" ? 3 : 4, rate = s == "cga" ? 20 : s == "mmas" ? 50 : 100;
    Table t = distinct(n, rng);
    std::unique_ptr<Algorithm> h;
    if (s == "umda") { auto a = new Umda(n, N); h.reset(a); a->set_selection_size(m); pv_log(*a, n, G); }
    if (s == "pbil") { auto a = new Pbil(n, N); h.reset(a); a->set_selection_size(m); a->set_learning_rate(rate / 1000.0); pv_log(*a, n, G); }
    if (s == "nps") { auto a = new NpsPbil(n, N); h.reset(a); a->set_selection_size(m); a->set_learning_rate(rate / 1000.0); pv_log(*a, n, G); }
    if (s == "cga") { auto a = new CompactGa(n); h.reset(a); a->set_learning_rate(rate / 1000.0); pv_log(*a, n, G); }
    if (s == "mmas") { auto a = new Mmas(n); h.reset(a); a->set_learning_rate(rate / 1000.0); a->set_compare(std::greater<double>()); pv_log(*a, n, G); }
    Obj c; c.str("alg", s).i("n", n).i("dim", n).i("N", N).i("m", m).i("rate", rate).b("strict", true);
    emit_run(run(*h, t, rng.next() % 1000000, 1), c, n, N, 1, G);
    Obj("fair").emit();
  }
  // entropy
  for (int rep = 0; rep < 12 * mult; rep++) {
    Rng rng(1);
    if (!scenario("entropy", &rng)) continue;
    const int n = rng.in(2, 8);
    Table t = distinct(n, rng);
    Umda a(n, 6); a.set_selection_size(rng.in(1, 5)); a.set_log_entropy(true); pv_log(a, n, 4);
    for (auto& l : run(a, t, rng.next() % 1000000, 1).logs) {
      std::vector<long> hs;
      for (size_t i = 1; i < l.size(); i++) { double p = l[i]; hs.push_back(u6(-p * std::log(p) - (1 - p) * std::log(1 - p))); }
      Obj("entropy").i("h", l.size() ? u6(l[0]) : BAD).a("hs", hs).emit();
    }
    pv_t pv; std::vector<long> hs;
    for (int i = 0; i < n; i++) { double p = rng.in(0, 8) / 8.0; pv.push_back(p); hs.push_back(p == 0 || p == 1 ? 0 : u6(-p * std::log(p) - (1 - p) * std::log(1 - p))); }
    Obj("entropy").i("h", u6(pv_entropy(pv))).a("hs", hs).emit();
  }
  // operations
  for (int rep = 0; rep < 30 * mult; rep++) {
    Rng rng(1);
    if (!scenario("operations", &rng)) continue;
    const int n = rng.in(1, 6);
    auto random_pv = [&] { pv_t p; for (int i = 0; i < n; i++) p.push_back(rng.in(0, 1000) / 1000.0); return p; };
    pv_t a = random_pv();
    pv_t o(a); pv_uniform(o); Obj("pvop").str("op", "uniform").a("out", u6s(o)).emit();
    pv_init(o); Obj("pvop").str("op", "init").a("out", u6s(o)).emit();
    bit_vector_t x = rng.bv(n); pv_t px(x.begin(), x.end());
    o = a; pv_add(o, x); Obj("pvop").str("op", "add").a("a", u6s(a)).a("b", u6s(px)).i("w", 1).a("out", u6s(o)).emit();
    int w = rng.in(-4, 4);
    o = a; pv_add(o, x, w); Obj("pvop").str("op", "add").a("a", u6s(a)).a("b", u6s(px)).i("w", w).a("out", u6s(o)).emit();
    int m = rng.in(1, 9);
    o = a; pv_average(o, m); Obj("pvop").str("op", "average").a("a", u6s(a)).i("m", m).a("out", u6s(o)).emit();
    pv_t b = random_pv(), c = random_pv(); int rate = rng.in(0, 1000);
    o = a; pv_update(o, b, rate / 1000.0); Obj("pvop").str("op", "toward").a("a", u6s(a)).a("b", u6s(b)).i("rate", rate).a("out", u6s(o)).emit();
    o = a; pv_update(o, x, rate / 1000.0); Obj("pvop").str("op", "toward").a("a", u6s(a)).a("b", u6s(px)).i("rate", rate).a("out", u6s(o)).emit();
    o = a; pv_update(o, b, c, rate / 1000.0); Obj("pvop").str("op", "away").a("a", u6s(a)).a("b", u6s(b)).a("c", u6s(c)).i("rate", rate).a("out", u6s(o)).emit();
    int lo = rng.in(0, 500), hi = rng.in(500, 1000);
    o = a; pv_bound(o, lo / 1000.0, hi / 1000.0); Obj("pvop").str("op", "bound").a("a", u6s(a)).i("lo", lo * 1000).i("hi", hi * 1000).a("out", u6s(o)).emit();
  }
  for (int rep = 0; rep < 2 * mult; rep++) {
    Rng rng(1);
    if (!scenario("product law", &rng)) continue;
    std::vector<int> q; pv_t pv; for (int i = 0; i < 3; i++) { q.push_back(rng.in(0, 4)); pv.push_back(q[i] / 4.0); }
    std::vector<int> w, cnt(8); for (int y = 0; y < 8; y++) { int p = 1; for (int i = 0; i < 3; i++) p *= (y >> i & 1) ? q[i] : 4 - q[i]; w.push_back(p); }
    for (int k = 0; k < 6000; k++) { bit_vector_t x(3, 1); pv_sample(pv, x); cnt[bv_index(x)]++; }
    Obj("freq").a("w", w).a("c", cnt).i("tol", 4).emit();
  }
}

static std::vector<int> counts(const Run& r, int first, int N, int n) {
  std::vector<int> c(1u << n); for (int k = 0; k < N; k++) if (size_t(first + k) < r.evs.size()) c[r.evs[first + k].x]++;
  return c;
}
static std::vector<int> ranks(const Table& t) { std::vector<int> v; for (double d : t.v) v.push_back(t.rank_of(d)); return v; }

static void latent() {
  const int mult = ctx().thorough ? 5 : 1;
  for (int second = 0; second < 2; second++) for (int mode = 0; mode <= 5; mode++) for (int rep = 0; rep < 5 * mult; rep++) {
    Rng rng(1);
    if (!scenario("latent models", &rng)) continue;
    const int n = rng.in(2, 3), N = 1000, m = rng.in(100, 600), G = 6, threads = rng.below(4) == 0 ? 2 : 1;
    int lo = rng.in(0, 1), hi = rng.in(lo, 3), t0 = mode == 1 ? rng.in(0, hi) : mode == 2 ? rng.in(lo, 3) : rng.in(0, 4), period = rng.in(1, 3);
    Table t = distinct(n, rng);
    int law = rng.below(4);        // second variant: 0 product, 1 latent, 2 crossover, 3 mixture
    if (second && law >= 2) { mode = mode; }
    RamUmda a1(n, N); RamUmda2 a2(n, N);
    RamUmda& a = second ? (RamUmda&)a2 : a1;
    int md = mode;
    if (second && law >= 2) { md = 0; t0 = 0; }
    a.set_selection_size(m); a.set_ts_length_mode(md); a.set_ts_length(t0); a.set_ts_length_lower_bound(lo); a.set_ts_length_upper_bound(hi);
    a.set_ts_length_increment_period(period); a.set_ts_length_distribution_parameter(0.4);
    if (second) { a2.set_crossover_probability(law == 2 ? 1 : 0); a2.set_latent_space_probability(law == 0 ? 0 : law == 1 ? 1 : 0.5); }
    pv_log(a, n, G);
    for (int twice = 0; twice < 2; twice++) {
      Run r = run(a, t, rng.next() % 1000000, threads);
      Obj("flat").a("cnt", counts(r, 1, N, n)).emit();
      Obj k; k.i("mode", md).i("t", t0).i("lo", lo).i("hi", hi).i("period", period);
      for (int g = 0; g + 1 < G; g++)
        Obj("ram").i("n", n).i("m", m).i("g", g).raw("k", k.get()).b("second", second).str("law", law == 0 ? "pv" : law == 1 ? "latent" : law == 2 ? "marginal" : "pv")
          .a("cnt", counts(r, 1 + g * N, N, n)).a("vals", ranks(t)).a("pv", u6s(r.logs[g])).a("nxt", counts(r, 1 + (g + 1) * N, N, n)).emit();
    }
  }
}

static void chains() {
  const int mult = ctx().thorough ? 6 : 1;
  for (int rep = 0; rep < 30 * mult; rep++) {
    Rng rng(1);
    if (!scenario("chains", &rng)) continue;
    const int n = rng.in(2, 4), N = 2000, m = rng.in(200, 1500), G = 4, threads = rng.below(4) == 0 ? 2 : 1;
    Table t = distinct(n, rng);
    if (rng.coin() && n > 2) {       // strong dependences
      int a = rng.below(n), b = (a + 1) % n, c = (a + 2) % n;
      std::vector<double> v(1u << n);
      for (size_t x = 0; x < v.size(); x++) v[x] = x * 0.001 + 10 * ((x >> a & 1) == (x >> b & 1)) + 5 * ((x >> b & 1) != (x >> c & 1));
      t = Table(n, v);
    }
    Mimic a(n, N); a.set_selection_size(m); a.set_num_iterations(G);
    for (int twice = 0; twice < 2; twice++) {
      Run r = run(a, t, rng.next() % 1000000, threads);
      Obj("flat").a("cnt", counts(r, 1, N, n)).emit();
      for (int g = 0; g + 1 < G; g++)
        Obj("mimic").i("n", n).i("m", m).a("cnt", counts(r, 1 + g * N, N, n)).a("vals", ranks(t)).a("nxt", counts(r, 1 + (g + 1) * N, N, n)).emit();
    }
  }
}

static void itea() {
  const int mult = ctx().thorough ? 6 : 1;
  for (int repl = 0; repl <= 4; repl++) for (int rep = 0; rep < 40 * mult; rep++) {
    Rng rng(1);
    if (!scenario("information-theoretic", &rng)) continue;
    const bool crowd = rep % 10 == 9;
    const int n = crowd ? rng.in(7, 9) : rng.in(2, 5), N = crowd ? rng.in(10, 60) : rng.in(2, 6), m = rng.in(1, N - 1), G = crowd ? 6 : 15, rate = rng.in(1, 600), hw = rng.in(0, n), threads = rng.below(4) == 0 ? 2 : 1;
    std::vector<double> v(1u << n); bool tie = rng.coin(); for (auto& d : v) d = tie ? rng.in(1, 3) : rng.in(1, 900);
    Table t = crowd ? distinct(n, rng) : Table(n, v);
    bool allow = rng.coin();
    int init = rng.in(1, 9) * 100, lo = rng.in(1, 2) * 100, hi = rng.in(5, 9) * 100;
    init = std::max(lo, std::min(hi, init));
    InformationTheoreticEa a(n, N);
    a.set_selection_size(m); a.set_learning_rate(rate / 1000.0); a.set_mutation_rate_init(init / 1000.0); a.set_mutation_rate_min(lo / 1000.0); a.set_mutation_rate_max(hi / 1000.0);
    a.set_replacement(repl); a.set_initial_hamming_weight(hw); a.set_allow_no_mutation(allow);
    a.set_log_mutation_rate(true); a.set_log_center_fitness(true); a.set_num_iterations(G);
    for (int twice = 0; twice < 2; twice++) {
      Run r = run(a, t, rng.next() % 1000000, threads);
      Obj c; c.i("n", n).i("N", N).i("m", m).i("rate", rate).i("lo", lo * 1000).i("hi", hi * 1000).i("repl", repl).i("hw", hw).b("allow", allow).str("alg", "it");
      Obj("itbegin").raw("c", c.get()).i("x", r.evs[0].x).i("v", r.evs[0].r).i("rate", init * 1000).emit();
      for (int g = 0; g < G; g++) {
        std::vector<int> xs, vs; std::string extra = "[]";
        for (size_t j = 1; j < r.evs.size(); j++) if (r.line[j] == g) {
          if (int(xs.size()) < N) { xs.push_back(r.evs[j].x); vs.push_back(r.evs[j].r); } else extra = "[" + num(r.evs[j].x) + "," + num(r.evs[j].r) + "]";
        }
        bool ok = size_t(g) < r.logs.size() && r.logs[g].size() == 2;
        Obj("itgen").a("xs", xs).a("vs", vs).raw("extra", extra).i("rate", ok ? u6(r.logs[g][0]) : BAD).i("fit", ok ? t.rank_of(r.logs[g][1]) : BAD).emit();
      }
    }
    if (repl == 4) Obj("fair").emit();
  }
}

static void tworate() {
  const int mult = ctx().thorough ? 6 : 1;
  for (int rep = 0; rep < 16 * mult; rep++) {
    Rng rng(1);
    if (!scenario("two rates", &rng)) continue;
    const int n = 16, N = rep % 4 == 3 ? rng.in(9, 60) : rng.in(2, 8), G = N > 8 ? 15 : 60; bool allow = rng.coin();
    Table t = make_table(n, rng.coin() ? 9 : 4, rng);
    TwoRateOnePlusLambdaEa a(n, N);
    a.set_mutation_rate_init(0.125); a.set_allow_no_mutation(allow); a.set_log_mutation_rate(true); a.set_num_iterations(G);
    Run r = run(a, t, rng.next() % 1000000, rng.below(4) == 0 ? 2 : 1);
    Obj c; c.str("alg", "tr").i("n", n).i("N", N).i("lo", 125000).i("hi", 250000).b("allow", allow);
    Obj("trbegin").raw("c", c.get()).i("x", r.evs[0].x).i("v", r.evs[0].r).i("rate", 125000).emit();
    for (int g = 0; g < G; g++) {
      std::vector<int> xs, vs;
      for (int k = 0; k < N; k++) { xs.push_back(r.evs[1 + g * N + k].x); vs.push_back(r.evs[1 + g * N + k].r); }
      Obj("trgen").a("xs", xs).a("vs", vs).i("rate", size_t(g) < r.logs.size() && r.logs[g].size() == 1 ? u6(r.logs[g][0]) : BAD).emit();
    }
    Obj("fair").emit();
  }
  // flips of the two halves: the solution of a needle stays where it is
  for (int rep = 0; rep < 4 * mult; rep++) {
    Rng rng(1);
    if (!scenario("two rates, flips", &rng)) continue;
    const int n = 16, N = 20, G = 60;
    std::vector<double> v(1u << n, 0.0);
    Table t(n, v);
    TwoRateOnePlusLambdaEa a(n, N);
    a.set_mutation_rate_init(0.125); a.set_allow_no_mutation(true); a.set_log_mutation_rate(true); a.set_num_iterations(G);
    Run r = run(a, t, rng.next() % 1000000, 1);
    double rate = 0.125; long f[2] = {0, 0}; double e[2] = {0, 0};
    for (int g = 0; g < G; g++) {
      for (int k = 0; k < N; k++) { int h = k >= N / 2; f[h] += __builtin_popcount(r.evs[1 + g * N + k].x ^ r.evs[0].x); e[h] += n * (h ? 2 * rate : rate / 2); }
      rate = r.logs[g][0];
    }
    for (int h = 0; h < 2; h++) Obj("stat").i("a", f[h]).i("den", 1).i("num", std::lround(e[h])).i("tol", std::lround(7 * std::sqrt(e[h]))).emit();
  }
}

int main(int argc, char *argv[]) {
  init(argc, argv);
  vectors();
  latent();
  chains();
  itea();
  tworate();
  return finish();
}
