// Walsh moments, herding, Gibbs sampling and the algorithms built on them: C22.
#include "search.hh"

#include "hnco/algorithms/walsh-moment/all.hh"

using namespace vf;
using namespace hnco::algorithm;
using namespace hnco::algorithm::walsh_moment;

template<class M> struct Is { static const bool full = false; };
template<> struct Is<FullMoment> { static const bool full = true; };

// integer if exact (up to the last bits), BAD otherwise
static long ex(double d) { return std::fabs(d) < 1e9 && std::fabs(d - std::round(d)) < 1e-6 ? std::lround(d) : BAD; }
static long rd(double d) { return std::fabs(d) < 1e9 ? std::lround(d) : BAD; }

template<class M> static std::string mat(const M& m, double scale, bool exact = true) {
  const int n = m.first_moment.size();
  std::vector<std::string> rows;
  for (int i = 0; i < n; i++) {
    std::vector<long> r;
    for (int j = 0; j < n; j++) {
      double d = i == j ? m.first_moment[i] : (Is<M>::full || j < i) ? m.second_moment[i][j] : m.second_moment[j][i];
      r.push_back(exact ? ex(d * scale) : rd(d * scale));
    }
    rows.push_back(arr(r));
  }
  return list(rows);
}
// random symmetric moment with entries k / den, |k| <= bound
template<class M> static M random_moment(int n, int bound, double den, Rng& rng) {
  M m(n);
  for (int i = 0; i < n; i++) {
    m.first_moment[i] = rng.in(-bound, bound) / den;
    for (int j = 0; j < i; j++) { m.second_moment[i][j] = rng.in(-bound, bound) / den; if (Is<M>::full) m.second_moment[j][i] = m.second_moment[i][j]; }
  }
  return m;
}

template<class M> static void operations() {
  const int mult = ctx().thorough ? 8 : 1;
  for (int rep = 0; rep < 30 * mult; rep++) {
    Rng rng(1);
    if (!scenario("operations", &rng)) continue;
    const bool large = rng.below(3) == 0;
    const int n = large ? rng.in(6, 20) : rng.in(1, 5);
    auto op = [&](const char *o) { return Obj("op").str("op", o).i("n", n); };
    M m = random_moment<M>(n, 64, 64, rng);
    m.init(); op("init").raw("out", mat(m, 1)).emit();
    for (int round = 0; round < 2; round++) {
      m.init();
      std::vector<int> xs; int k = large ? rng.in(1, 60) : rng.in(1, 9);
      for (int i = 0; i < k; i++) { auto x = rng.bv(n); m.add(x); xs.push_back(bv_index(x)); }
      op("sum").a("xs", xs).raw("out", mat(m, 1)).emit();
      m.average(k);
      op("average").a("xs", xs).raw("out", mat(m, 1048576, false)).emit();
    }
    M a = random_moment<M>(n, 64, 64, rng), b = random_moment<M>(n, 64, 64, rng), c = random_moment<M>(n, 64, 64, rng);
    int rate = rng.in(0, 8);
    M o = a; o.update(b, rate / 8.0); op("toward").raw("a", mat(a, 64)).raw("b", mat(b, 64)).i("rate", rate).raw("out", mat(o, 512)).emit();
    o = a; o.update(b, c, rate / 8.0); op("away").raw("a", mat(a, 64)).raw("b", mat(b, 64)).raw("c", mat(c, 64)).i("rate", rate).raw("out", mat(o, 512)).emit();
    int lambda = rng.in(-12, 40);
    o = c; o.scaled_difference(lambda / 4.0, a, b); op("scaled").raw("a", mat(a, 64)).raw("b", mat(b, 64)).i("lambda", lambda).raw("out", mat(o, 256)).emit();
    int margin = rng.in(0, 63);
    o = a; o.bound(margin / 64.0); op("bound").raw("a", mat(a, 64)).i("margin", margin).raw("out", mat(o, 64)).emit();
    op("norms").raw("a", mat(a, 64)).raw("b", mat(b, 64)).i("one", ex(a.norm_1() * 64)).i("inf", ex(a.norm_infinite() * 64))
      .i("two", rd(a.norm_2() * 256)).i("dist", rd(a.distance(b) * 256)).emit();
    std::ostringstream os; a.display(os);
    std::istringstream is(os.str()); std::vector<std::string> rows;
    for (std::string l; std::getline(is, l); ) { std::istringstream ls(l); std::vector<long> r; for (double d; ls >> d; ) r.push_back(ex(rd(d * 64 * 1e3) / 1e3) ); rows.push_back(arr(r)); }
    op("shown").raw("a", mat(a, 64)).l("out", rows).emit();
  }
}

template<class H> static void herding() {
  using M = typename H::Moment;
  const int mult = ctx().thorough ? 8 : 1;
  for (int rep = 0; rep < 16 * mult; rep++) {
    Rng rng(1);
    if (!scenario("herding", &rng)) continue;
    bool randomized = rng.coin();
    const int n = rng.coin() ? rng.in(1, 4) : rng.in(5, randomized ? 7 : 16);
    H h(n); if (!randomized || rng.coin()) h.set_randomize_bit_order(randomized); else randomized = true;
    M target = random_moment<M>(n, 16, 16, rng);
    random::Generator::set_seed(rng.next() % 1000000);
    for (int round = 0; round < 2; round++) {
      h.init();
      Obj c; c.i("n", n).i("D", 16).b("randomized", randomized);
      Obj("herd0").raw("c", c.get()).emit();
      for (int k = 0; k < 25; k++) {
        if (rng.below(10) == 0) target = random_moment<M>(n, 16, 16, rng);
        bit_vector_t x = rng.bv(n);
        h.sample(target, x);
        std::string delta = mat(h.get_delta(), 16);
        Obj("herd").raw("target", mat(target, 16)).i("x", bv_index(x)).raw("delta", delta).i("err", rd(h.error(target) * 64)).emit();
      }
    }
  }
}

struct Run { std::vector<Ev> evs; std::vector<std::vector<double>> logs; };
static Run run(Algorithm& a, const Table& t, unsigned seed, int threads) {
  Run r;
  Quiet q;
  r.evs = run_algorithm(a, t, seed, -1, -1, threads).evs;
  std::istringstream is(q.os.str());
  for (std::string l; std::getline(is, l); ) { std::istringstream ls(l); std::vector<double> v; for (double d; ls >> d; ) v.push_back(d); r.logs.push_back(v); }
  return r;
}
static Table some_table(int n, Rng& rng, int N) {
  std::vector<double> v(1u << n); bool tie = rng.below(3) == 0 && N <= 6;
  for (size_t i = 0; i < v.size(); i++) v[i] = tie ? rng.in(1, 3) : double(i);
  if (!tie) for (size_t i = v.size(); i-- > 1; ) std::swap(v[i], v[rng.below(i + 1)]);
  return Table(n, v);
}
static Obj& points(Obj& o, const Run& r, int first, int N) {
  std::vector<int> xs, vs;
  for (int k = 0; k < N && size_t(first + k) < r.evs.size(); k++) { xs.push_back(r.evs[first + k].x); vs.push_back(r.evs[first + k].r); }
  return o.a("xs", xs).a("vs", vs);
}

template<class H> static void hea() {
  const int mult = ctx().thorough ? 8 : 1;
  for (int rep = 0; rep < 30 * mult; rep++) {
    Rng rng(1);
    if (!scenario("herding algorithm", &rng)) continue;
    const bool show = rng.coin(), randomized = rng.coin(), bounded = rng.below(4) != 0;
    const bool large = show && rng.below(3) == 0;
    const int n = large ? rng.in(5, randomized ? 6 : 10) : rng.in(2, 4), lm = rng.below(large ? 4 : 3), lr = 1 + rng.below(2), m = 1 << lm, R = 1 << lr, r = rng.in(1, R - 1), D = show ? 4096 : 64;
    const int G = (show ? 12 : 6) / (lm + lr), N = m + rng.in(1, large ? 16 : 4), margin = rng.in(1, 8), threads = rng.below(4) == 0 ? 2 : 1;
    bool dflt = (n & (n - 1)) == 0 && rng.coin();            // default margin, 1 / n
    int period = rng.below(3);
    Table t = some_table(n, rng, N);
    Hea<H> a(n, N);
    a.set_selection_size(m); a.set_learning_rate(double(r) / R); a.set_bound_moment(bounded); a.set_randomize_bit_order(randomized); a.set_reset_period(period);
    if (!dflt) a.set_margin(margin / 16.0);
    if (show) a.set_log_target(true); else { a.set_log_herding_error(true); a.set_log_target_norm(true); a.set_log_delta_norm(true); }
    a.set_num_iterations(G);
    for (int twice = 0; twice < 2; twice++) {
      Run q = run(a, t, rng.next() % 1000000, threads);
      Obj c; c.i("n", n).i("N", N).i("m", m).i("r", r).i("R", R).i("D", D).i("b", dflt ? D / n : D / 16 * margin).b("bounded", bounded).b("randomized", randomized).i("period", period).b("show", show);
      Obj("hea0").raw("c", c.get()).emit();
      for (int g = 0; g < G; g++) {
        Obj o("hea"); points(o, q, 1 + g * N, N).i("g", g);
        if (show) {
          std::vector<std::string> rows;
          for (int i = 0; i < n && size_t(g * n + i) < q.logs.size(); i++) { std::vector<long> l; for (double d : q.logs[g * n + i]) l.push_back(rd(d * D)); rows.push_back(arr(l)); }
          o.l("log", rows);
        } else {
          std::vector<double> l = size_t(g) < q.logs.size() ? q.logs[g] : std::vector<double>{};
          l.resize(3, -1);
          o.i("err", rd(l[0] * D * 4)).i("tnorm", rd(l[1] * D * 4)).i("dnorm", rd(l[2] * D * 4));
        }
        o.emit();
      }
    }
  }
}

template<class S> static void gibbs() {
  using M = typename S::Moment;
  const int mult = ctx().thorough ? 8 : 1;
  for (int rep = 0; rep < 12 * mult; rep++) {
    Rng rng(1);
    if (!scenario("Gibbs sampler", &rng)) continue;
    const bool large = rng.below(3) == 0;
    const int n = large ? rng.in(5, 13) : rng.in(1, 4); bool strong = rng.below(3) == 0, sync = rng.coin();
    M th = strong ? random_moment<M>(n, 2, 1 / 32.0, rng) : random_moment<M>(n, 1, 2, rng);
    S s(n, th);
    random::Generator::set_seed(rng.next() % 1000000);
    s.init();
    for (int k = 0; k < 150; k++) {
      int i = rng.below(n); long x = bv_index(s.get_state());
      if (sync) s.update_sync(); else s.update(i);
      Obj("gibbs").i("n", n).i("i", sync ? 0 : i + 1).raw("th", mat(th, 2)).i("x", x).i("y", bv_index(s.get_state())).emit();
      if (rng.below(20) == 0) { th = strong ? random_moment<M>(n, 2, 1 / 32.0, rng) : random_moment<M>(n, 1, 2, rng); }
    }
    Obj("fair").emit();
    if (large) continue;
    std::vector<int> cnt(1u << n);
    for (int k = 0; k < 1000; k++) { s.init(); cnt[bv_index(s.get_state())]++; }
    Obj("flat").a("cnt", cnt).emit();
  }
}

template<class S> static void bm() {
  const int mult = ctx().thorough ? 8 : 1;
  for (int mode = 0; mode < 3; mode++) for (int reset = 0; reset < 3; reset++) for (int rep = 0; rep < 8 * mult; rep++) {
    Rng rng(1);
    if (!scenario("Boltzmann machine", &rng)) continue;
    const bool far = rng.below(3) == 0;
    const int n = far ? rng.in(5, 12) : rng.in(2, 4), m = 1 << rng.below(far ? 4 : 3), N = m << rng.in(1, 2), G = rng.in(2, 8), threads = rng.below(4) == 0 ? 2 : 1;
    bool strong = rng.coin(), nps = rng.coin();
    int R = strong ? 1 : 4, r = strong ? 256 : rng.in(1, 4), D = m * N * R, steps = rng.in(1, 6), cycles = rng.in(1, 2);
    Table t = some_table(n, rng, N);
    BmPbil<S> a(n, N);
    a.set_selection_size(m); a.set_learning_rate(double(r) / R); a.set_num_gs_steps(steps); a.set_num_gs_cycles(cycles); a.set_negative_positive_selection(nps);
    a.set_sampling_mode(mode); a.set_reset_mode(reset); a.set_log_norm_infinite(true); a.set_log_norm_1(true);
    a.set_num_iterations(G);
    for (int twice = 0; twice < 2; twice++) {
      Run q = run(a, t, rng.next() % 1000000, threads);
      Obj c; c.i("n", n).i("N", N).i("m", m).i("r", r).i("R", R).i("D", D).i("steps", steps).i("cycles", cycles).b("nps", nps).i("mode", mode).i("reset", reset).b("far", far);
      Obj("bm0").raw("c", c.get()).emit();
      for (int g = 0; g < G; g++) {
        std::vector<double> l = size_t(g) < q.logs.size() ? q.logs[g] : std::vector<double>{}; l.resize(2, -1);
        Obj o("bm"); points(o, q, 1 + g * N, N).i("inf", rd(l[0] * D)).i("one", rd(l[1] * D)).i("tol", strong ? 2 : 1).emit();
      }
    }
  }
  // with no model, every point is equally likely, whatever the chain does
  for (int mode = 0; mode < 3; mode++) for (int reset = 0; reset < 3; reset++) for (int rep = 0; rep < mult; rep++) {
    Rng rng(1);
    if (!scenario("Boltzmann machine, first generation", &rng)) continue;
    const int n = rng.in(2, 3), N = 1600;
    Table t = some_table(n, rng, N);
    BmPbil<S> a(n, N);
    a.set_selection_size(4); a.set_num_gs_steps(12 * n); a.set_num_gs_cycles(1); a.set_sampling_mode(mode); a.set_reset_mode(reset); a.set_num_iterations(1);
    Run q = run(a, t, rng.next() % 1000000, 1);
    std::vector<int> cnt(1u << n); for (size_t k = 1; k < q.evs.size(); k++) cnt[q.evs[k].x]++;
    Obj("flat").a("cnt", cnt).emit();
  }
  // how far the chain moves between the points of a generation, and from one generation to the next
  for (int mode = 0; mode < 3; mode++) for (int reset = 0; reset < 3; reset++) for (int rep = 0; rep < mult; rep++) {
    Rng rng(1);
    if (!scenario("Boltzmann machine, moves of the chain", &rng)) continue;
    const int n = rng.in(2, 3), N = rng.in(3, 4), G = 500;
    Table t = some_table(n, rng, N);
    BmPbil<S> a(n, N);
    a.set_selection_size(1); a.set_learning_rate(0); a.set_num_gs_steps(1); a.set_num_gs_cycles(1); a.set_sampling_mode(mode); a.set_reset_mode(reset); a.set_num_iterations(G);
    Run q = run(a, t, rng.next() % 1000000, 1);
    std::vector<int> within(1u << n), across(1u << n);
    for (size_t k = 2; k < q.evs.size(); k++) ((k - 1) % N == 0 ? across : within)[q.evs[k].x ^ q.evs[k - 1].x]++;
    Obj("moves").i("n", n).i("N", N).i("G", G).i("mode", mode).i("reset", reset).a("within", within).a("across", across).emit();
  }
}

int main(int argc, char *argv[]) {
  init(argc, argv);
  operations<TriangularMoment>(); operations<FullMoment>();
  herding<TriangularMomentHerding>(); herding<FullMomentHerding>();
  hea<TriangularMomentHerding>(); hea<FullMomentHerding>();
  gibbs<TriangularMomentGibbsSampler>(); gibbs<FullMomentGibbsSampler>();
  bm<TriangularMomentGibbsSampler>(); bm<FullMomentGibbsSampler>();
  return finish();
}
