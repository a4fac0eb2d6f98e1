// Parallel evaluation of populations: C23.
#include "emit.hh"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <memory>
#include <mutex>
#include <omp.h>
#include <thread>

#include "hnco/exception.hh"
#include "hnco/algorithms/population.hh"
#include "hnco/functions/controllers/controller.hh"
#include "hnco/multiobjective/algorithms/population.hh"

using namespace hnco;
using namespace hnco::function;
using namespace hnco::function::controller;
using namespace vf;

static std::mutex mu;
static std::vector<std::string> events;
static int inside = 0, deepest = 0;
static std::set<std::thread::id> who;
static bool recording = false;

static void note(const char *e, int k, const bit_vector_t& x) {
  if (!recording) return;
  std::lock_guard<std::mutex> g(mu);
  Obj o(e); o.i("k", k).a("x", x); events.push_back(o.get());
  if (e[0] == 'i') { inside++; deepest = std::max(deepest, inside); who.insert(std::this_thread::get_id()); } else inside--;
}

struct Pause {
  int kind = 0;                     // 0 none, 1 yield, 2 random spins, 3 short sleeps, 4 the first individuals are slow
  std::atomic<unsigned> s{1};
  void operator()() {
    if (!recording || kind == 0) return;
    unsigned r = (s += 2654435761u); r ^= r >> 13; r *= 0x5bd1e995; r ^= r >> 15;
    if (kind == 1) { if (r & 1) std::this_thread::yield(); }
    else if (kind == 2) { volatile int z = 0; for (unsigned i = 0; i < r % 3000; i++) z = z + 1; }
    else if (kind == 3) std::this_thread::sleep_for(std::chrono::microseconds(r % 120));
    else if (omp_get_thread_num() == 0) std::this_thread::sleep_for(std::chrono::microseconds(150));
  }
};
static Pause pause_;

// a function that is not thread-safe: decodes into a buffer, then reads the buffer
struct Base: Function {
  int n, k;
  const std::vector<double>& t;
  double unit = 1;
  bit_vector_t buffer;
  Base(int n_, int k_, const std::vector<double>& t_): n(n_), k(k_), t(t_), buffer(n_) {}
  int get_bv_size() const override { return n; }
  double get_maximum() const override { return unit * *std::max_element(t.begin(), t.end()); }
  bool has_known_maximum() const override { return true; }
  double evaluate(const bit_vector_t& x) override {
    note("in", k, x);
    buffer = x;
    pause_();
    double v = unit * t[bv_index(buffer)];
    note("out", k, x);
    return v;
  }
};

struct MoBase: hnco::multiobjective::function::Function {
  int n, k, m;
  const std::vector<double>& t;
  bit_vector_t buffer;
  MoBase(int n_, int k_, int m_, const std::vector<double>& t_): n(n_), k(k_), m(m_), t(t_), buffer(n_) {}
  int get_bv_size() const override { return n; }
  int get_output_size() const override { return m; }
  void evaluate(const bit_vector_t& x, hnco::multiobjective::function::value_t& v) override {
    note("in", k, x);
    buffer = x;
    pause_();
    for (int j = 0; j < m; j++) v[j] = t[bv_index(buffer)] * (j + 1) + j;
    note("out", k, x);
  }
};

static std::string xs_of(const std::vector<bit_vector_t>& v) { std::vector<std::string> l; for (auto& x : v) l.push_back(arr(x)); return list(l); }
static void open(const std::vector<bit_vector_t>& bvs, int T) {
  Obj("open").raw("xs", xs_of(bvs)).i("T", T).emit();
  events.clear(); inside = deepest = 0; who.clear(); recording = true;
}
static void flush_events() {
  recording = false;
  for (auto& s : events) { std::fputs(s.c_str(), ctx().out); std::fputc('\n', ctx().out); ctx().events++; }
}

struct Stack {
  std::vector<std::string> kinds;
  std::vector<std::unique_ptr<Function>> fns;
  Function *top;
  double unit;
  Stack(Base *base, int height, Rng& rng): top(base), unit(base->unit) {
    std::vector<std::string> js;
    for (int j = 0; j < height; j++) {
      int p = 0; std::string k; Function *f = nullptr;
      switch (rng.below(6)) {
      case 0: k = "counter"; f = new CallCounter(top); break;
      case 1: k = "budget"; p = rng.in(1, 20); f = new OnBudgetFunction(top, p); break;
      case 2: case 3: { k = "tracker"; auto t = new ProgressTracker(top); t->set_record_bit_vector(true); f = t; break; }
      case 4: k = "target"; p = rng.in(2, 12); f = new StopOnTarget(top, p * unit); break;
      default: k = "cache"; f = new Cache(top); break;
      }
      kinds.push_back(k); fns.emplace_back(f); top = f;
      js.push_back(Obj().str("k", k).i("p", p).get());
    }
    Obj("Begin").i("n", base->n).raw("t", dvals(base->t)).l("stack", js).emit();
  }
  std::string obs() {
    std::vector<std::string> l;
    for (size_t j = 0; j < kinds.size(); j++) {
      Obj o;
      if (kinds[j] == "counter" || kinds[j] == "budget") o.i("n", static_cast<CallCounter *>(fns[j].get())->get_num_calls());
      if (kinds[j] == "tracker") {
        auto t = static_cast<ProgressTracker *>(fns[j].get()); auto& e = t->get_last_improvement();
        o.i("n", t->get_num_calls()).i("bn", e.num_evaluations).d("bv", e.num_evaluations ? e.solution.second / unit : 0).a("bx", e.solution.first);
      }
      if (kinds[j] == "target") { auto& s = static_cast<StopOnTarget *>(fns[j].get())->get_trigger(); o.a("tx", s.first).d("tv", s.first.empty() ? 0 : s.second / unit); }
      l.push_back(o.get().size() > 2 ? o.get() : "{\"none\":0}");
    }
    return list(l);
  }
};

template<class F> static std::string outcome(F f) {
  try { f(); return "ok"; }
  catch (const exception::LastEvaluation&) { return "last"; }
  catch (const exception::TargetReached&) { return "target"; }
  catch (const std::exception&) { return "error"; }
}

static long overlaps = 0, teams = 0, trials = 0;

static void trial(Rng& rng, int n, int N, int T, int extra, int height, int rounds) {
  std::vector<double> t(1u << n);
  for (auto& v : t) v = rng.in(-3, rng.coin() ? 12 : 1);
  std::vector<std::unique_ptr<Base>> bases;
  for (int k = 0; k < T + extra; k++) bases.emplace_back(new Base(n, k + 1, t));
  const double unit = rng.coin() ? 1 : std::ldexp(1., rng.in(-60, 30));
  for (auto& b : bases) b->unit = unit;
  auto in_units = [&](const std::vector<double>& v) { std::vector<double> r; for (double d : v) r.push_back(d / unit); return r; };
  Stack st(bases[0].get(), height, rng);
  std::vector<Function *> fns{st.top};
  for (int k = 1; k < T + extra; k++) fns.push_back(bases[k].get());
  omp_set_num_threads(T);
  algorithm::Population pop(N, n);
  for (int r = 0; r < rounds; r++) {
    for (auto& x : pop.bvs) x = rng.bv(n);
    if (rng.below(4) == 0) for (size_t i = 1; i < pop.bvs.size(); i++) if (rng.coin()) pop.bvs[i] = pop.bvs[rng.below(i)];
    for (auto& v : pop.values) v = unit * rng.in(-99, 99);
    auto before = pop.bvs;
    pause_.kind = rng.below(5); pause_.s = unsigned(rng.next());
    open(pop.bvs, T + extra);
    std::string out = outcome([&] { pop.evaluate_in_parallel(fns); });
    flush_events();
    Obj("close").raw("values", dvals(in_units(pop.values))).raw("xs", xs_of(pop.bvs)).b("upd", true).str("out", out).raw("obs", st.obs()).emit();
    trials++; teams += who.size() > 1; overlaps += deepest > 1;
    if (rng.below(3) == 0) {                // and sequential requests in between
      bit_vector_t x = rng.bv(n); double v = 0;
      std::string o = outcome([&] { v = st.top->evaluate(x); });
      Obj("eval").a("x", x).str("out", o).d("v", v / unit).emit();
    }
  }
}

// populations too large to be followed step by step
static void bulk(Rng& rng, int N, int T) {
  const int n = 8; std::vector<double> t(1u << n);
  for (auto& v : t) v = rng.in(-30, 30);
  std::vector<std::unique_ptr<Base>> bases;
  for (int k = 0; k < T; k++) bases.emplace_back(new Base(n, k + 1, t));
  CallCounter cc(bases[0].get()); ProgressTracker pt(&cc); pt.set_record_bit_vector(true);
  std::vector<Function *> fns{&pt}; for (int k = 1; k < T; k++) fns.push_back(bases[k].get());
  omp_set_num_threads(T);
  algorithm::Population pop(N, n); pop.random(); for (auto& x : pop.bvs) x = rng.bv(n);
  std::vector<int> xs, vs; for (auto& x : pop.bvs) xs.push_back(bv_index(x));
  pause_.kind = 2 * rng.below(2); pause_.s = unsigned(rng.next());
  events.clear(); recording = true; pop.evaluate_in_parallel(fns); recording = false;
  for (double v : pop.values) vs.push_back(iv(v));
  bool kept = true; for (int k = 0; k < N; k++) kept = kept && (int)bv_index(pop.bvs[k]) == xs[k];
  auto& e = pt.get_last_improvement();
  Obj("bulk").raw("t", dvals(t)).a("xs", xs).a("vs", vs).b("kept", kept).i("calls", events.size() / 2).i("n0", cc.get_num_calls()).i("n1", pt.get_num_calls())
    .i("bn", e.num_evaluations).d("bv", e.solution.second).i("bx", e.solution.first.size() == (size_t)n ? (int)bv_index(e.solution.first) : BAD).emit();
}

static void mo_trial(Rng& rng, int n, int N, int T, int extra) {
  std::vector<double> t(1u << n);
  for (auto& v : t) v = rng.in(-9, 9);
  int m = rng.in(1, 3);
  std::vector<std::unique_ptr<MoBase>> bases;
  std::vector<hnco::multiobjective::function::Function *> fns;
  for (int k = 0; k < T + extra; k++) { bases.emplace_back(new MoBase(n, k + 1, m, t)); fns.push_back(bases.back().get()); }
  omp_set_num_threads(T);
  Obj("Begin").i("n", n).raw("t", dvals(t)).l("stack", {}).emit();
  hnco::multiobjective::algorithm::Population pop(N, n, m);
  for (int r = 0; r < 2; r++) {
    for (auto& x : pop.bvs) x = rng.bv(n);
    for (auto& v : pop.values) for (auto& d : v) d = rng.in(-99, 99);
    pause_.kind = rng.below(5); pause_.s = unsigned(rng.next());
    open(pop.bvs, T + extra);
    std::string out = outcome([&] { pop.evaluate_in_parallel(fns); });
    flush_events();
    std::vector<double> first;
    for (auto& v : pop.values) { bool same = true; for (int j = 1; j < m; j++) same = same && v[j] == v[0] * (j + 1) + j; first.push_back(same ? v[0] : 1e30); }
    Obj("close").raw("values", dvals(first)).raw("xs", xs_of(pop.bvs)).b("upd", false).str("out", out).l("obs", {}).emit();
    trials++; teams += who.size() > 1; overlaps += deepest > 1;
  }
}

int main(int argc, char *argv[]) {
  init(argc, argv);
  omp_set_dynamic(0);
  const int mult = ctx().thorough ? 8 : 1;
  for (int T = 1; T <= 8; T++) for (int N = 1; N <= 12; N++) {
    Rng rng(1);
    if (scenario("sizes", &rng)) trial(rng, 4, N, T, rng.below(2), rng.in(0, 3), 3 * mult);
  }
  for (int rep = 0; rep < 60 * mult; rep++) {
    Rng rng(1);
    if (scenario("random", &rng)) trial(rng, rng.in(1, 6), rng.in(1, 25), rng.in(1, 8), rng.below(3), rng.in(0, 4), rng.in(1, 6));
  }
  for (int rep = 0; rep < 4 * mult; rep++) {
    Rng rng(1);
    if (scenario("large", &rng)) trial(rng, 7, rng.in(90, 130), rng.in(2, 8), 0, rng.in(1, 3), 2);
  }
  for (int rep = 0; rep < 16 * mult; rep++) {
    Rng rng(1);
    if (scenario("bulk", &rng)) bulk(rng, rng.in(131, rng.coin() ? 600 : 5000), rng.in(1, 8));
  }
  for (int rep = 0; rep < 2 * mult; rep++) {
    Rng rng(1);
    if (scenario("large multiobjective", &rng)) mo_trial(rng, 7, rng.in(60, 130), rng.in(2, 8), 0);
  }
  for (int T = 1; T <= 8; T++) for (int rep = 0; rep < 4 * mult; rep++) {
    Rng rng(1);
    if (scenario("multiobjective", &rng)) mo_trial(rng, rng.in(2, 6), rng.in(1, 20), T, rng.below(2));
  }
  std::printf("teams=%ld overlaps=%ld of %ld\n", teams, overlaps, trials);
  return finish();
}
