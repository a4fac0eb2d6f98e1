// Runs of every search algorithm: C18 (reported solutions), C26 (costs, reruns), C28 (determinism).
#include "search.hh"

#include "hnco/algorithms/all.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
#include "hnco/algorithms/fast-efficient-p3/all.hh"
#include "hnco/algorithms/gomea/all.hh"
#include "hnco/functions/all.hh"
#include "hnco/functions/collection/all.hh"
#include "hnco/maps/map.hh"

using namespace vf;
using namespace hnco::algorithm;
using namespace hnco::neighborhood;

struct Cfg {
  std::string name;
  int now = 1, step = 1, skip = 0, lag = -1;   // when evaluations settle
  int init = 1, per = 1, extra = 0;            // cost
  bool ends = false;                           // may end by its own rule
  bool limited = true;                         // has a limit on iterations
  bool par = false;                            // evaluates populations in parallel
  bool inc = false;                            // uses incremental evaluation
  bool carry = false;                          // orders carried over by random permutations: a rerun only has the same law
  bool longish = false;                        // may end by itself, late
  int minn = 0;                                // smallest dimension it is defined for
  std::function<Holder(int n, int N)> make;
};

template<class A, class... T> std::shared_ptr<A> mk(T... a) { return std::make_shared<A>(a...); }
template<class A> Holder hold(std::shared_ptr<A> a, std::vector<std::shared_ptr<void>> refs = {}) {
  Holder h; h.it = a; h.refs = refs; return h;
}

static std::vector<Cfg> configs() {
  std::vector<Cfg> cs;
  auto add = [&](Cfg c) { cs.push_back(c); };
  { Cfg c; c.name = "random search";
    c.make = [](int n, int N) { auto a = mk<RandomSearch>(n); a->set_num_iterations(N); return hold(a); }; add(c); }
  { Cfg c; c.name = "complete search"; c.limited = false; c.ends = true;
    c.make = [](int n, int) { return hold(mk<CompleteSearch>(n)); }; add(c); }
  for (int k = 0; k < 4; k++) for (int inc = 0; inc < 2; inc++) {
    auto nb = [k](int n) -> std::shared_ptr<Neighborhood> {
      switch (k) {
      case 0: return mk<SingleBitFlip>(n);
      case 1: return mk<StandardBitMutation>(n);
      case 2: return mk<HammingBall>(n, 2);
      default: return mk<HammingSphere>(n, 2);
      }
    };
    { Cfg c; c.name = "random walk " + num(k) + (inc ? " inc" : ""); c.inc = inc;
      c.make = [nb, inc](int n, int N) { auto h = nb(n); auto a = mk<RandomWalk>(n, h.get());
        a->set_num_iterations(N); a->set_incremental_evaluation(inc); return hold(a, {h}); }; add(c); }
    for (int strict = 0; strict < 2; strict++) for (int patience : {0, 3}) {
      Cfg c; c.name = "rls " + num(k) + (inc ? " inc" : "") + (strict ? " strict" : "") + " " + num(patience); c.inc = inc; c.ends = patience > 0;
      c.make = [nb, inc, strict, patience](int n, int N) { auto h = nb(n); auto a = mk<RandomLocalSearch>(n, h.get());
        a->set_num_iterations(N); a->set_incremental_evaluation(inc); a->set_patience(patience);
        if (strict) a->set_compare(std::greater<double>()); return hold(a, {h}); }; add(c); }
    if (!inc) { Cfg c; c.name = "simulated annealing " + num(k); c.init = 1 + 2 * 4;
      c.make = [nb](int n, int N) { auto h = nb(n); auto a = mk<SimulatedAnnealing>(n, h.get());
        a->set_num_iterations(N); a->set_num_trials(4); a->set_num_transitions(2); return hold(a, {h}); }; add(c); }
  }
  for (int k = 0; k < 2; k++) {
    auto it = [k](int n) -> std::shared_ptr<NeighborhoodIterator> {
      if (k == 0) return mk<SingleBitFlipIterator>(n);
      return mk<HammingSphereIterator>(n, 2);
    };
    { Cfg c; c.name = "first ascent " + num(k); c.ends = true; c.per = -1 - k;
      c.make = [it](int n, int N) { auto h = it(n); auto a = mk<FirstAscentHillClimbing>(n, h.get()); a->set_num_iterations(N); return hold(a, {h}); }; add(c); }
    { Cfg c; c.name = "steepest ascent " + num(k); c.ends = true; c.per = -1 - k; c.step = -1 - k;
      c.make = [it](int n, int N) { auto h = it(n); auto a = mk<SteepestAscentHillClimbing>(n, h.get()); a->set_num_iterations(N); return hold(a, {h}); }; add(c); }
  }
  for (int inc = 0; inc < 2; inc++) {
    { Cfg c; c.name = std::string("one plus one") + (inc ? " inc" : ""); c.inc = inc;
      c.make = [inc](int n, int N) { auto a = mk<OnePlusOneEa>(n); a->set_num_iterations(N); a->set_incremental_evaluation(inc); return hold(a); }; add(c); }
    { Cfg c; c.name = std::string("self adjusting") + (inc ? " inc" : ""); c.inc = inc;
      c.make = [inc](int n, int N) { auto a = mk<SelfAdjustingOnePlusOneEa>(n); a->set_num_iterations(N); a->set_incremental_evaluation(inc); return hold(a); }; add(c); }
  }
  { Cfg c; c.name = "mu plus lambda"; c.now = c.init = 3; c.step = c.per = 4; c.par = true;
    c.make = [](int n, int N) { auto a = mk<MuPlusLambdaEa>(n, 3, 4); a->set_num_iterations(N); return hold(a); }; add(c); }
  { Cfg c; c.name = "mu plus lambda 5 2"; c.now = c.init = 5; c.step = c.per = 2; c.par = true;
    c.make = [](int n, int N) { auto a = mk<MuPlusLambdaEa>(n, 5, 2); a->set_num_iterations(N); a->set_allow_no_mutation(true); return hold(a); }; add(c); }
  { Cfg c; c.name = "mu comma lambda"; c.step = c.per = 5; c.par = true;
    c.make = [](int n, int N) { auto a = mk<MuCommaLambdaEa>(n, 2, 5); a->set_num_iterations(N); return hold(a); }; add(c); }
  { Cfg c; c.name = "genetic"; c.now = c.init = 6; c.step = c.per = 6; c.par = true;
    c.carry = true; c.make = [](int n, int N) { auto a = mk<GeneticAlgorithm>(n, 6); a->set_num_iterations(N); a->set_tournament_size(3); return hold(a); }; add(c); }
  { Cfg c; c.name = "genetic odd"; c.now = c.init = 5; c.step = c.per = 5; c.par = true;
    c.carry = true; c.make = [](int n, int N) { auto a = mk<GeneticAlgorithm>(n, 5); a->set_num_iterations(N); a->set_tournament_size(2); a->set_crossover_probability(0.9); return hold(a); }; add(c); }
  { Cfg c; c.name = "one plus lambda comma lambda"; c.minn = 3; c.per = c.step = 6; c.skip = 3;
    c.make = [](int n, int N) { auto a = mk<OnePlusLambdaCommaLambdaGa>(n, 3); a->set_num_iterations(N); return hold(a); }; add(c); }
  { Cfg c; c.name = "two rate"; c.minn = 8; c.per = c.step = 4; c.par = true;
    c.make = [](int n, int N) { auto a = mk<TwoRateOnePlusLambdaEa>(n, 4); a->set_num_iterations(N); return hold(a); }; add(c); }
  for (int r = 0; r < 5; r++) {
    Cfg c; c.name = "information theoretic " + num(r); c.par = true;
    c.per = c.step = r == 2 ? 6 : 5; if (r == 3) { c.lag = 6; c.extra = 1; }
    c.make = [r](int n, int N) { auto a = mk<InformationTheoreticEa>(n, 5); a->set_num_iterations(N); a->set_replacement(r);
      a->set_selection_size(2); a->set_learning_rate(0.3); a->set_initial_hamming_weight(n / 2); return hold(a); };
    add(c); }
#define EDA(NAME, TYPE, ...) { Cfg c; c.name = NAME; c.per = c.step = 6; c.par = true; \
    c.make = [](int n, int N) { auto a = mk<TYPE>(n, 6); a->set_num_iterations(N); a->set_selection_size(2); __VA_ARGS__; return hold(a); }; add(c); }
  EDA("pbil", Pbil, a->set_learning_rate(0.2))
  EDA("nps pbil", NpsPbil, a->set_learning_rate(0.2))
  EDA("umda", Umda, )
  EDA("mimic", Mimic, )
  EDA("ram umda constant", RamUmda, a->set_ts_length(3))
  EDA("ram umda increasing", RamUmda, a->set_ts_length(1); a->set_ts_length_mode(RamUmda::TsLengthMode::increasing); a->set_ts_length_increment_period(1))
  EDA("ram umda decreasing", RamUmda, a->set_ts_length(8); a->set_ts_length_mode(RamUmda::TsLengthMode::decreasing); a->set_ts_length_increment_period(2))
  EDA("ram umda uniform", RamUmda, a->set_ts_length_mode(RamUmda::TsLengthMode::uniform))
  EDA("ram umda geometric", RamUmda, a->set_ts_length_mode(RamUmda::TsLengthMode::geometric))
  EDA("ram umda 2 increasing", RamUmda2, a->set_ts_length(1); a->set_ts_length_mode(RamUmda::TsLengthMode::increasing); a->set_ts_length_increment_period(1))
  EDA("ram umda 2 reverse", RamUmda2, a->set_ts_length_mode(RamUmda::TsLengthMode::reverse_geometric); a->set_crossover_probability(0.5))
  EDA("hea full", walsh_moment::Hea<walsh_moment::FullMomentHerding>, a->set_learning_rate(0.2))
  EDA("hea triangular", walsh_moment::Hea<walsh_moment::TriangularMomentHerding>, a->set_learning_rate(0.2); a->set_reset_period(2); a->set_randomize_bit_order(false))
  EDA("bm pbil async", walsh_moment::BmPbil<walsh_moment::FullMomentGibbsSampler>, a->set_learning_rate(0.2); a->set_num_gs_steps(5))
  EDA("bm pbil scan", walsh_moment::BmPbil<walsh_moment::TriangularMomentGibbsSampler>, a->set_learning_rate(0.2); a->set_sampling_mode(1); a->set_reset_mode(2); a->set_negative_positive_selection(true))
  EDA("bm pbil sync", walsh_moment::BmPbil<walsh_moment::FullMomentGibbsSampler>, a->set_learning_rate(0.2); a->set_sampling_mode(2); a->set_reset_mode(1))
  EDA("bm pbil sync triangular", walsh_moment::BmPbil<walsh_moment::TriangularMomentGibbsSampler>, a->set_learning_rate(0.2); a->set_sampling_mode(2))
#undef EDA
  { Cfg c; c.name = "compact ga"; c.per = c.step = 2;
    c.make = [](int n, int N) { auto a = mk<CompactGa>(n); a->set_num_iterations(N); a->set_learning_rate(0.2); return hold(a); }; add(c); }
  for (int strict = 0; strict < 2; strict++) {
    Cfg c; c.name = strict ? "mmas strict" : "mmas";
    c.make = [strict](int n, int N) { auto a = mk<Mmas>(n); a->set_num_iterations(N); a->set_learning_rate(0.2);
      if (strict) a->set_compare(std::greater<double>()); return hold(a); }; add(c); }
  { Cfg c; c.name = "ltga"; c.limited = false; c.ends = true;
    c.make = [](int n, int) { auto a = mk<fast_efficient_p3::Ltga>(n); a->set_population_size(6); return hold(a); }; add(c); }
  { Cfg c; c.name = "p3"; c.limited = false;
    c.make = [](int n, int) { return hold(mk<fast_efficient_p3::ParameterLessPopulationPyramid>(n)); }; add(c); }
  { Cfg c; c.name = "hboa"; c.limited = false; c.ends = true; c.longish = true;
    c.make = [](int n, int) { auto a = mk<fast_efficient_p3::Hboa>(n); a->set_population_size(6); return hold(a); }; add(c); }
  { Cfg c; c.name = "gomea"; c.limited = false;
    c.make = [](int n, int) { return hold(mk<algorithm::gomea::Gomea>(n)); }; add(c); }
  for (auto& c : cs) if (c.name == "bm pbil scan" || c.name == "hea full") c.carry = true;
  // restarts
  auto restart = [&](const std::string& inner, int lag) {
    Cfg c;
    for (auto& d : cs) if (d.name == inner) c = d;
    auto make = c.make;
    c.name = "restart " + inner; c.lag = lag; c.now = 0; c.skip = 0; c.limited = false; c.ends = false;
    c.make = [make](int n, int) { auto h = make(n, 2); auto a = std::make_shared<Restart>(h.it.get());
      auto r = hold(a, h.refs); r.refs.push_back(h.it); return r; };
    add(c);
  };
  restart("rls 0 3", 0); restart("random search", 0); restart("first ascent 0", 0); restart("steepest ascent 0", 6);
  restart("mu plus lambda", 4); restart("genetic", 6); restart("umda", 6); restart("ltga", 0); restart("self adjusting", 0);
  restart("information theoretic 4", 5); restart("simulated annealing 1", 0); restart("one plus one", 0); restart("complete search", 0);
  return cs;
}

static int binom(int n, int r) { return r == 1 ? n : n * (n - 1) / 2; }
static void resolve(Cfg& c, int n) {
  if (c.per < 0) c.per = binom(n, -c.per);
  if (c.step < 0) c.step = binom(n, -c.step);
}

static void emit_run(const Cfg& c, int n) {
  Obj("run").str("alg", c.name).i("n", n).i("now", c.now).i("step", c.step).i("skip", c.skip).i("lag", c.lag).emit();
}

// Dimensions around and beyond a machine word.
static int wide_size(Rng& r) { static const int ns[] = {31, 33, 64, 65, 70, 100}; return ns[r.below(6)]; }
static bool may_be_wide(const Cfg& c) {
  return c.name.find("complete") == std::string::npos && c.name.find("first ascent 1") == std::string::npos && c.name.find("steepest ascent 1") == std::string::npos
    && c.name.find("ltga") == std::string::npos && c.name.find("hboa") == std::string::npos && c.name.find("p3") == std::string::npos && c.name.find("gomea") == std::string::npos;
}

static void c18() {
  auto cs = configs();
  int reps = ctx().thorough ? 3 : 1;
  for (auto c0 : cs) for (int kind = 0; kind < NUM_TABLE_KINDS + 1; kind++) for (int rep = 0; rep < reps; rep++) {
    Rng rng(1);
    if (!scenario(c0.name + " table " + num(kind), &rng)) continue;
    Quiet q;
    int n = rng.in(2, ctx().thorough ? 6 : 5);
    bool wide = kind == NUM_TABLE_KINDS;
    if (wide) { if (!may_be_wide(c0)) continue; n = wide_size(rng); }
    if (c0.name == "complete search" || c0.name == "restart complete search") n = rng.in(1, 4);
    Cfg c = c0; n = std::max(n, c.minn); resolve(c, n);
    if (c.name == "restart steepest ascent 0") c.lag = n;
    Table t = wide ? Table(n, rng.below(3)) : make_table(n, kind, rng);
    int N = rng.in(1, 4);
    int threads = c.par && rng.coin() ? rng.in(2, 4) : 1;
    unsigned seed = rng.next() % 1000000007;
    long cap = wide ? 12 : ctx().thorough ? 60 : 40;
    bool endless = (!c.limited && !c.ends) || c.longish;
    auto full = [&](long budget, long goal) {
      Holder h = c.make(n, N);
      return run_algorithm(*h.it, t, seed, budget, goal, threads, c.inc);
    };
    Outcome o = full(endless ? cap : 4000, -1);
    auto emit_all = [&](const Outcome& w) {
      emit_run(c, n);
      for (auto& e : w.evs) Obj("eval").i("x", e.x).i("v", e.r).emit();
      Obj(w.cause == "done" ? "done" : "stop").str("why", w.cause).i("x", w.x).i("v", w.r).emit();
    };
    // the run, interrupted before and during each evaluation
    emit_run(c, n);
    long T = o.evs.size();
    long stride = T > cap ? T / cap + 1 : 1;
    std::vector<Outcome> other;
    for (long b = 1; b <= T; b++) {
      Obj("eval").i("x", o.evs[b - 1].x).i("v", o.evs[b - 1].r).emit();
      if (b % stride) continue;
      if (b < T) for (int cause = 0; cause < 2; cause++) {
        Outcome w = cause ? full(-1, b + 1) : full(b, -1);
        std::string why = cause ? "goal" : "last";
        std::vector<Ev> done(w.evs);
        if (cause && !done.empty()) done.pop_back();   // its value never reached the algorithm
        if (w.cause == why && (long)done.size() == b && is_prefix(done, o.evs))
          Obj("stop").str("why", why).i("x", w.x).i("v", w.r).emit();
        else { w.evs = done; other.push_back(w); }
      }
    }
    Obj(o.cause == "done" ? "done" : "stop").str("why", o.cause).i("x", o.x).i("v", o.r).emit();
    for (auto& w : other) emit_all(w);
  }
}

static void c26() {
  auto cs = configs();
  int reps = ctx().thorough ? 4 : 1;
  for (auto c0 : cs) for (int N : {1, 2, 3, 7, 41, 4}) for (int rep = 0; rep < reps; rep++) {
    Rng rng(1);
    if (!scenario(c0.name + " iterations " + num(N), &rng)) continue;
    if (N == 41 && rng.coin()) N = 120;
    Quiet q;
    int n = rng.in(2, 5);
    bool wide = N == 4;
    if (wide) { if (!may_be_wide(c0)) continue; n = wide_size(rng); }
    Cfg c = c0; n = std::max(n, c.minn); resolve(c, n);
    if (c.name == "restart steepest ascent 0") c.lag = n;
    // distinct values: no tie is broken at random
    if (wide) c.carry = true;      // ties
    Table t = wide ? Table(n, rng.below(2)) : c.carry ? make_table(n, rng.below(NUM_TABLE_KINDS), rng) : make_table(n, NUM_TABLE_KINDS + rng.below(2), rng);
    int threads = c.par && rng.coin() ? 2 : 1;
    unsigned seed = rng.next() % 1000000007;
    bool endless = (!c.limited && !c.ends) || c.longish;
    Holder h = c.make(n, N);
    Outcome o = run_algorithm(*h.it, t, seed, endless ? 50 : 4000, -1, threads, c.inc);
    emit_run(c, n);
    for (auto& e : o.evs) Obj("eval").i("x", e.x).i("v", e.r).emit();
    if (c.limited)
      Obj("total").i("init", c.init).i("per", c.per).i("extra", c.extra).i("N", N).b("ends", c.ends).emit();
    if (c.name == "complete search")
      Obj("total").i("init", 0).i("per", 1).i("extra", 0).i("N", 1 << n).b("ends", false).emit();
    if (!c.ends) {
      // no limit on iterations: only the interruption ends the run
      for (int zero : {0, -1}) {
        if (!c.limited && zero) continue;
        Holder g = c.make(n, zero);
        long B = 100 + rng.below(50);
        Outcome w = run_algorithm(*g.it, t, seed, B, -1, threads, c.inc);
        Obj("endless").b("stopped", w.cause == "last").i("T", w.evs.size()).i("B", B).emit();
      }
    }
    // run again, after a complete run and after an interrupted one
    auto again = [&] {
      Outcome w = run_algorithm(*h.it, t, seed, endless ? 50 : 4000, -1, threads, c.inc);
      if (!c.carry) Obj("same").raw("xs", ev_list(w.evs)).emit();
      emit_run(c, n);
      for (auto& e : w.evs) Obj("eval").i("x", e.x).i("v", e.r).emit();
      if (c.limited)
        Obj("total").i("init", c.init).i("per", c.per).i("extra", c.extra).i("N", N).b("ends", c.ends).emit();
      Obj(w.cause == "done" ? "done" : "stop").str("why", w.cause).i("x", w.x).i("v", w.r).emit();
    };
    again();
    long cut = 1 + rng.below(std::max(1, (int)o.evs.size() - 1));
    run_algorithm(*h.it, t, seed + 1, cut, -1, threads, c.inc);
    again();
  }
  // restarts: so many complete runs
  for (auto inner : {"random search", "mu plus lambda", "umda", "compact ga", "genetic", "simulated annealing 0"}) for (int K : {1, 2, 5}) {
    Rng rng(1);
    if (!scenario(std::string("restarts of ") + inner, &rng)) continue;
    Quiet q;
    Cfg c; for (auto& d : cs) if (d.name == inner) c = d;
    int n = rng.in(2, 5), N = rng.in(1, 3);
    resolve(c, n);
    Table t = make_table(n, 0, rng);
    Holder h = c.make(n, N);
    Restart a(h.it.get());
    a.set_num_iterations(K);
    Outcome o = run_algorithm(a, t, rng.next() % 1000000007, 4000, -1, 1, c.inc);
    emit_run(c, n);
    for (auto& e : o.evs) Obj("eval").i("x", e.x).i("v", e.r).emit();
    Obj("total").i("init", 0).i("per", c.init + N * c.per).i("extra", 0).i("N", K).b("ends", false).emit();
  }
}

static std::string ints(const std::vector<double>& v) {
  // exact image of a sequence of doubles
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) {
    char b[64]; std::snprintf(b, sizeof b, "\"%a\"", v[i]);
    if (i) s += ","; s += b;
  }
  return s + "]";
}

// The heap in another state: blocks of the usual sizes, released in another order.
struct Shaken {
  std::vector<std::unique_ptr<char[]>> kept;
  explicit Shaken(Rng& r) {
    std::vector<std::unique_ptr<char[]>> v;
    for (int i = 0; i < 3000; i++) v.emplace_back(new char[16 + 8 * r.below(40)]);
    for (int i = (int)v.size() - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]);
    for (size_t i = 0; i < v.size(); i++) if (r.below(3) == 0) kept.push_back(std::move(v[i]));
    for (auto& p : v) p.reset();
  }
};

static void c28() {
  auto cs = configs();
  { Cfg c; c.name = "larger hboa"; c.limited = false; c.ends = true; c.longish = true; c.minn = 8;
    c.make = [](int n, int) { auto a = mk<fast_efficient_p3::Hboa>(n); a->set_population_size(30); return hold(a); }; for (int i = 0; i < 8; i++) { c.minn = 8 + i % 3; cs.push_back(c); } }
  { Cfg c; c.name = "larger ltga"; c.limited = false; c.ends = true; c.minn = 8; c.longish = true;
    c.make = [](int n, int) { auto a = mk<fast_efficient_p3::Ltga>(n); a->set_population_size(20); return hold(a); }; cs.push_back(c); }
  int reps = ctx().thorough ? 4 : 1;
  for (auto c0 : cs) for (int rep = 0; rep < 2 * reps; rep++) {
    Rng rng(1);
    if (!scenario("twice " + c0.name, &rng)) continue;
    Quiet q;
    int n = rng.in(2, 7);
    Cfg c = c0; n = std::max(n, c.minn); resolve(c, n);
    bool wide = rep % 4 == 1 && may_be_wide(c) && rng.coin();
    if (wide) { n = wide_size(rng); c = c0; resolve(c, n); }
    Table t = wide ? Table(n, rng.below(3)) : make_table(n, rng.below(NUM_TABLE_KINDS), rng);
    int N = rng.in(2, 6);
    unsigned seed = rng.next() % 1000000007;
    bool endless = (!c.limited && !c.ends) || c.longish;
    long budget = endless ? (c.name.rfind("larger", 0) == 0 ? 300 : 100) : 4000;
    int threads = c.par && rep ? 3 : 1;
    Outcome a = [&] { Holder h = c.make(n, N); return run_algorithm(*h.it, t, seed, budget, -1, threads, c.inc); }();
    emit_run(c, n);
    for (auto& e : a.evs) Obj("eval").i("x", e.x).i("v", e.r).emit();
    Obj(a.cause == "done" ? "done" : "stop").str("why", a.cause).i("x", a.x).i("v", a.r).emit();
    // something else in between, then the same again with other numbers of threads
    { Holder h = c.make(n, N); run_algorithm(*h.it, t, seed + 17, budget, -1, 1, c.inc); }
    for (int th : {threads, c.par ? (threads == 1 ? 1 : 4) : 1}) {
      Shaken shaken(rng);
      Holder h = c.make(n, N);
      Outcome b = run_algorithm(*h.it, t, seed, budget, -1, th, c.inc);
      Obj("same").raw("xs", ev_list(b.evs)).emit();
      Obj("forget").emit();
      Obj("draw").str("k", "solution").a("xs", std::vector<int>{a.x, a.r}).emit();
      Obj("draw").str("k", "solution").a("xs", std::vector<int>{b.x, b.r}).emit();
    }
  }
  // the generator: seeds, reset, and different seeds
  using random::Generator;
  auto draw = [](Rng r, int len) {
    std::vector<double> v;
    for (int i = 0; i < len; i++)
      switch (r.below(3)) {
      case 0: v.push_back(Generator::uniform()); break;
      case 1: v.push_back(Generator::normal()); break;
      default: v.push_back(Generator::bernoulli()); break;
      }
    return v;
  };
  for (int k = 0; k < (ctx().thorough ? 200 : 40); k++) {
    Rng rng(1);
    if (!scenario("generator", &rng)) continue;
    unsigned seed = rng.next();
    Obj("forget").emit();
    Rng p(rng.next());
    int len = rng.in(1, 30);
    Generator::set_seed(seed);
    auto a = draw(p, len);
    Obj("draw").str("k", "seq").raw("xs", ints(a)).emit();
    draw(rng, rng.in(0, 9));
    Generator::reset();
    Obj("draw").str("k", "seq").raw("xs", ints(draw(p, len))).emit();
    draw(rng, rng.in(0, 9));
    Generator::set_seed(seed + 1);
    auto b = draw(p, len + 8);
    Generator::reset();
    Obj("draw").str("k", "other").raw("xs", ints(b)).emit();
    Obj("draw").str("k", "other").raw("xs", ints([&] { Generator::reset(); return draw(p, len + 8); }())).emit();
    Generator::set_seed(seed);
    Obj("draw").str("k", "seq").raw("xs", ints(draw(p, len))).emit();
    { Generator::set_seed(seed); std::vector<double> u, w;
      for (int i = 0; i < 8; i++) u.push_back(Generator::uniform());
      Generator::set_seed(seed + 1); for (int i = 0; i < 8; i++) w.push_back(Generator::uniform());
      Obj("differ").raw("a", ints(u)).raw("b", ints(w)).emit(); }
  }
  // instances and maps
  for (int k = 0; k < (ctx().thorough ? 60 : 16); k++) {
    Rng rng(1);
    if (!scenario("instances", &rng)) continue;
    unsigned seed = rng.next();
    int n = rng.in(3, 8);
    Rng pts(rng.next());
    auto image = [&](int which) {
      Generator::set_seed(seed);
      using namespace hnco::function; using namespace hnco::map;
      std::vector<double> v;
      auto values = [&](Function& f) { Rng p(pts); for (int i = 0; i < 12; i++) v.push_back(f.evaluate(p.bv(f.get_bv_size()))); };
      auto images = [&](Map& m) { Rng p(pts); bit_vector_t y(m.get_output_size());
        for (int i = 0; i < 12; i++) { m.map(p.bv(m.get_input_size()), y); v.push_back(bv_index(y)); } };
      switch (which) {
      case 0: { NkLandscape f; f.random(n, 2); values(f); break; }
      case 1: { MaxSat f; f.random(n, 2, 3 * n); values(f); break; }
      case 2: { EqualProducts f; f.random(n); values(f); break; }
      case 3: { LinearFunction f; f.random(n); values(f); break; }
      case 4: { WalshExpansion f; f.random(n, 5); values(f); break; }
      case 5: { NearestNeighborIsingModel1 f; f.random(n); values(f); break; }
      case 6: { Permutation m; m.random(n); images(m); break; }
      case 7: { Translation m; m.random(n); images(m); break; }
      case 8: { LinearMap m; m.random(n, n, true); images(m); break; }
      case 9: { AffineMap m; m.random(n, n, false); images(m); break; }
      case 10: { TsAffineMap m; m.random(n, 2, TsAffineMap::SamplingMode::unconstrained); images(m); break; }
      case 11: { MaxSat f; bit_vector_t x(n, 1); f.random(x, 3, 2 * n); values(f); break; }
      case 12: { WalshExpansion1 f; f.random(n); values(f); break; }
      case 13: { WalshExpansion2 f; f.random(n); values(f); break; }
      case 14: { NearestNeighborIsingModel2 f; f.random(2, n / 2); values(f); break; }
      default: { Partition f; f.random(n, 100); values(f); break; }
      }
      return v;
    };
    Obj("forget").emit();
    for (int rep = 0; rep < 2; rep++)
      for (int j = 0; j < 16; j++) { int w = rep ? 15 - j : j; Obj("draw").str("k", num(w)).raw("xs", ints(image(w))).emit(); }
  }
}

int main(int argc, char *argv[]) {
  init(argc, argv);
  if (ctx().mode == "C18") c18();
  else if (ctx().mode == "C26") c26();
  else if (ctx().mode == "C28") c28();
  else return 64;
  return finish();
}
