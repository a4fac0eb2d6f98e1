// Drives real stacks of evaluation controllers through histories of requests and records what is
// observable: outcome, value, requests seen by the underlying function, what each controller reports.
#include <algorithm>
#include <cmath>
#include <iostream>
#include <memory>
#include <set>
#include <sstream>

#include "emit.hh"
#include "hnco/exception.hh"
#include "hnco/functions/controllers/controller.hh"

using namespace hnco;
using namespace hnco::function;
using namespace hnco::function::controller;
using namespace vf;

// What the specification knows as integers are multiples of some unit; beyond 1000 they stand for the infinities and NaN.
static double unit = 1;
static double real(double v) {
  if (v >= 5000) return std::nan("");
  if (v >= 1000) return HUGE_VAL;
  if (v <= -1000) return -HUGE_VAL;
  return v * unit;
}
static double shown(double v) {
  if (v != v) return 5000;
  if (v == HUGE_VAL) return 1000;
  if (v == -HUGE_VAL) return -1000;
  return v / unit;
}

struct Base: Function {
  int n = 1;
  bool linear = false;
  std::vector<double> t;
  double c = 0;
  bool fail = false;
  std::vector<std::string> log;

  double value(const bit_vector_t& x) const {
    if (!linear) return real(t[bv_index(x)]);
    double r = c;
    for (int i = 0; i < n; i++) if (x[i]) r += t[i];
    return real(r);
  }
  void note(const char *k, const bit_vector_t& x, double v, const sparse_bit_vector_t& F) {
    Obj o; o.str("k", k).a("x", x).d("v", shown(v)).a("F", F); log.push_back(o.get());
  }
  int get_bv_size() const override { return n; }
  bool provides_incremental_evaluation() const override { return true; }
  bool has_known_maximum() const override { return true; }
  double get_maximum() const override {
    return real(top());
  }
  double top() const {
    if (linear) { double r = c; for (double w : t) if (w > 0) r += w; return r; }
    double m = t[0]; for (double w : t) m = std::max(m, w); return m;
  }
  double evaluate(const bit_vector_t& x) override {
    note("eval", x, 0, {});
    if (fail) throw std::runtime_error("fault");
    return value(x);
  }
  double evaluate_incrementally(const bit_vector_t& x, double v, const sparse_bit_vector_t& F) override {
    note("inc", x, v, F);
    if (fail) throw std::runtime_error("fault");
    bit_vector_t y(x);
    for (auto k : F) y[k] ^= 1;
    return value(y);
  }
  double evaluate_safely(const bit_vector_t& x) override {
    note("safe", x, 0, {});
    if (fail) throw std::runtime_error("fault");
    return value(x);
  }
  void update(const bit_vector_t& x, double v) override { note("upd", x, v, {}); }
};

struct LayerDef { std::string k; int p; };

struct Stack {
  Base& base;
  std::vector<LayerDef> defs;
  std::vector<std::unique_ptr<Function>> fns;
  Function *top;

  Stack(Base& b, const std::vector<LayerDef>& d): base(b), defs(d) {
    top = &base;
    std::vector<std::string> js;
    for (auto& l : defs) {
      Function *f = nullptr;
      if (l.k == "counter") f = new CallCounter(top);
      if (l.k == "budget") f = new OnBudgetFunction(top, l.p);
      if (l.k == "tracker") {
        auto t = new ProgressTracker(top);
        t->set_record_bit_vector(l.p & 1);
        t->set_record_evaluation_time(l.p & 2);
        t->set_log_improvement(l.p & 4);
        f = t;
      }
      if (l.k == "target") f = new StopOnTarget(top, real(l.p));
      if (l.k == "maximum") { f = new StopOnMaximum(top); l.k = "target"; l.p = iv(base.top()); }
      if (l.k == "cache") f = new Cache(top);
      fns.emplace_back(f);
      top = f;
      js.push_back(Obj().str("k", l.k).i("p", l.k == "tracker" ? l.p & 1 : l.p).get());
    }
    Obj("Begin").i("n", base.n).str("kind", base.linear ? "linear" : "table").raw("t", dvals(base.t))
      .d("c", base.c).l("stack", js).emit();
  }

  // executes one request; returns true if it completed normally
  bool op(const std::string& k, const bit_vector_t& x, const sparse_bit_vector_t& F, bool fail) {
    base.log.clear();
    base.fail = fail;
    double v = base.value(x), val = 0;
    std::string out = "ok";
    try {
      if (k == "eval") val = top->evaluate(x);
      if (k == "inc") val = top->evaluate_incrementally(x, v, F);
      if (k == "safe") val = top->evaluate_safely(x);
      if (k == "upd") top->update(x, v);
    }
    catch (const exception::LastEvaluation&) { out = "last"; }
    catch (const exception::TargetReached&) { out = "target"; }
    catch (const std::exception&) { out = "error"; }
    base.fail = false;
    std::vector<std::string> obs;
    for (size_t j = 0; j < defs.size(); j++) {
      Obj o;
      const std::string& kk = defs[j].k;
      if (kk == "counter" || kk == "budget") o.i("n", static_cast<CallCounter *>(fns[j].get())->get_num_calls());
      if (kk == "tracker") {
        auto t = static_cast<ProgressTracker *>(fns[j].get());
        auto& e = t->get_last_improvement();
        o.i("n", t->get_num_calls()).i("bn", e.num_evaluations).d("bv", e.num_evaluations ? shown(e.solution.second) : 0)
          .a("bx", e.solution.first);
      }
      if (kk == "target") {
        auto& s = static_cast<StopOnTarget *>(fns[j].get())->get_trigger();
        o.a("tx", s.first).d("tv", s.first.empty() ? 0 : shown(s.second));
      }
      if (kk == "cache") {
        double r = static_cast<Cache *>(fns[j].get())->get_lookup_ratio();
        o.i("ratio", r == r ? long(std::floor(r * 1000000 + 1e-6)) : -1);
      }
      obs.push_back(o.get());
    }
    Obj("Op").str("k", k).a("x", x).d("v", shown(v)).a("F", F).b("fail", fail).str("out", out).d("val", shown(val))
      .l("log", base.log).l("obs", obs).emit();
    return out == "ok";
  }
};

static std::vector<LayerDef> kinds_with(const std::string& main) {
  std::vector<LayerDef> all = {{"counter", 0}, {"budget", 2}, {"tracker", 1}, {"target", 1}, {"cache", 0}};
  (void)main;
  return all;
}

struct OpCode { const char *k; int x; int F; bool fail; };

int main(int argc, char *argv[]) {
  init(argc, argv);
  const std::string mode = ctx().mode;
  const bool deep = ctx().thorough;
  const std::string main_kind = mode == "C01" ? "budget" : mode == "C02" ? "tracker" : mode == "C03" ? "target" : "cache";
  Rng rng(0);

  // 1. every history of a fixed length over an alphabet of requests, for every stack of height <= 2
  //    containing the controller under examination (n = 1)
  std::vector<std::vector<LayerDef>> stacks;
  std::vector<LayerDef> mains;
  if (mode == "C01") mains = {{"budget", 0}, {"budget", 1}, {"budget", 2}, {"budget", 3}, {"counter", 0}};
  if (mode == "C02") mains = {{"tracker", 1}, {"tracker", 0}};
  if (mode == "C03") mains = {{"target", 0}, {"target", 1}, {"target", -1}, {"maximum", 0}};
  if (mode == "C04") mains = {{"cache", 0}};
  for (auto& m : mains) {
    stacks.push_back({m});
    for (auto& o : kinds_with(main_kind)) { stacks.push_back({m, o}); stacks.push_back({o, m}); }
  }
  const std::vector<OpCode> alpha = {{"eval", 0, 0, false}, {"eval", 1, 0, false}, {"inc", 0, 1, false}, {"inc", 1, 1, false},
                                     {"inc", 1, 0, false}, {"safe", 1, 0, false}, {"upd", 0, 0, false}, {"upd", 1, 0, false},
                                     {"eval", 1, 0, true}, {"inc", 0, 1, true}};
  const std::vector<std::vector<double>> tables = {{0, 1}, {1, 0}, {-1, -1}};
  const int depth = deep ? 4 : 3;
  for (auto& st : stacks)
    for (auto& t : tables) {
      long total = 1;
      for (int k = 0; k < depth; k++) total *= alpha.size();
      // enumerate histories as one scenario per first request
      for (size_t a0 = 0; a0 < alpha.size(); a0++) {
        if (!scenario("histories starting with request " + std::to_string(a0) + " on a stack of height " + std::to_string(st.size())))
          continue;
        // in the quick tier, tails are sampled on stacks of height 2
        for (long h = 0; h < total / (long)alpha.size(); h++) {
          if (!deep && st.size() == 2 && (h * 7 + a0 * 3 + ctx().seed) % 4) continue;
          if (deep && st.size() == 2 && (h * 7 + a0 * 3 + ctx().seed) % 5) continue;
          Base b; b.n = 1; b.t = t;
          Stack s(b, st);
          long q = h;
          size_t a = a0;
          for (int k = 0; k < depth; k++) {
            const OpCode& o = alpha[a];
            s.op(o.k, bv_of(o.x, 1), o.F ? sparse_bit_vector_t{0} : sparse_bit_vector_t{}, o.fail);
            a = q % alpha.size();
            q /= alpha.size();
          }
        }
      }
    }

  // 2. long random histories on random stacks, from few bits to more than a machine word
  struct Quiet { std::ostringstream sink; std::streambuf *old; Quiet() { old = std::cout.rdbuf(sink.rdbuf()); } ~Quiet() { std::cout.rdbuf(old); } } quiet;
  const int reps = deep ? 1500 : 160;
  for (int r = 0; r < reps; r++) {
    if (!scenario("random history " + std::to_string(r), &rng)) continue;
    Base b;
    static const double units[] = {1, 1, 0.125, 1.0 / (1 << 30), double(1l << 40), std::ldexp(1.0, -1000)};
    unit = units[rng.below(6)];
    b.n = rng.coin() ? rng.in(1, 5) : (rng.coin() ? rng.in(6, 40) : rng.in(60, 70));
    if (b.n <= 5 && rng.coin()) {
      b.linear = false;
      for (int k = 0; k < (1 << b.n); k++) b.t.push_back(rng.in(-6, 6));
      // infinite values are values like others
      if (rng.below(3) == 0) for (int k = rng.in(1, 2); k > 0; k--) b.t[rng.below(b.t.size())] = rng.coin() ? 1000 : -1000;
    } else {
      b.linear = true;
      b.c = rng.in(-50, 10);
      for (int k = 0; k < b.n; k++) b.t.push_back(rng.in(-3, 5));
    }
    std::vector<LayerDef> st;
    int height = rng.in(1, 5), at = rng.below(height);
    for (int k = 0; k < height; k++) {
      LayerDef d;
      int w = k == at ? -1 : rng.below(mode == "C04" ? 5 : 9);
      if (w == -1) d = mains[rng.below(mains.size())];
      else if (w == 4) d = {"cache", 0};
      else if (w % 4 == 0) d = {"counter", 0};
      else if (w % 4 == 1) d = {"budget", 0};
      else if (w % 4 == 2) d = {"tracker", rng.below(8)};
      else d = {"target", 0};
      if (d.k == "budget") d.p = rng.coin() ? rng.in(0, 10) : rng.in(10, 60);
      if (d.k == "tracker") d.p = rng.below(8);
      if (d.k == "target") d.p = iv(b.top()) - rng.below(mode == "C03" ? 4 : 2) + (mode == "C03" ? 0 : 1);
      if (d.k == "target") d.p = std::min(d.p, 1000);
      st.push_back(d);
    }
    // not a number: only where no order is asked for
    if (mode == "C04" && !b.linear && rng.coin() && std::all_of(st.begin(), st.end(), [](const LayerDef& d) { return d.k != "tracker" && d.k != "target" && d.k != "maximum"; }))
      b.t[rng.below(b.t.size())] = 5000;
    Stack s(b, st);
    int len = rng.in(5, 70), style = rng.below(3);
    bit_vector_t cur = rng.bv(b.n);
    std::vector<bit_vector_t> pool;
    for (int k = 0; k < 6; k++) pool.push_back(rng.bv(b.n));
    if (b.linear && rng.coin()) for (int i = 0; i < b.n; i++) pool[0][i] = b.t[i] > 0;
    for (int k = 0; k < len; k++) {
      bool fail = rng.below(12) == 0;
      int w = rng.below(10);
      bit_vector_t x = rng.below(3) ? pool[rng.below(pool.size())] : rng.bv(b.n);
      if (b.n > 64 && rng.below(3) == 0) { x = pool[0]; x[rng.in(60, b.n - 1)] ^= 1; }
      if (style == 0) w = rng.below(5);           // mostly plain
      if (style == 1 && rng.coin()) w = 5;        // mostly incremental
      if (w < 5) s.op("eval", x, {}, fail);
      else if (w < 7) {
        sparse_bit_vector_t F;
        for (int j = 0; j < b.n; j++) if (rng.below(b.n) < 2) F.push_back(j);
        s.op("inc", rng.coin() ? x : cur, F, fail);
      } else {
        // a burst: safe evaluations, then registrations in the same order
        int m = rng.in(1, 4);
        std::vector<bit_vector_t> xs;
        for (int j = 0; j < m; j++) xs.push_back(pool[rng.below(pool.size())]);
        for (auto& y : xs) s.op("safe", y, {}, false);
        for (auto& y : xs) if (!s.op("upd", y, {}, false)) break;
      }
    }
  }

  // 3. very long histories, told by their totals
  for (int r = 0; r < (deep ? 60 : 12); r++) {
    if (!scenario("long history", &rng)) continue;
    unit = 1;
    if (mode == "C04") {
      static const int sizes[] = {100, 300, 1100, 5000, 40000};
      Base b; b.n = rng.coin() ? rng.in(16, 30) : rng.in(60, 70); b.linear = true; b.c = 0;
      for (int k = 0; k < b.n; k++) b.t.push_back(rng.in(-3, 5));
      struct Terse: Base { long calls = 0; double evaluate(const bit_vector_t& x) override { calls++; return value(x); } } t;
      static_cast<Base&>(t) = b;
      int D = sizes[r % 5], R = rng.in(2, 3);
      if (r % 6 == 5) { D = 60; R = 2000; }
      Cache c(&t);
      std::vector<bit_vector_t> xs;
      while ((int)xs.size() < D) { bit_vector_t x = bit_vector_t(b.n); unsigned long u = (unsigned long)xs.size() * 0x9E37u % (1ul << 16); for (int k = 0; k < 16; k++) x[k] = u >> k & 1; for (int k = 16; k < b.n; k++) x[k] = rng.coin(); xs.push_back(x); }
      long wrong = 0;
      for (int q = 0; q < R; q++) for (auto& x : xs) if (c.evaluate(x) != b.value(x)) wrong++;
      Obj("LongCache").i("D", D).i("R", R).i("calls", t.calls).i("wrong", wrong).i("ratio", (long)std::floor(c.get_lookup_ratio() * 1000000 + 1e-6)).emit();
    } else {
      struct Count: Function {
        long calls = 0; double next = 0;
        int get_bv_size() const override { return 2; }
        bool provides_incremental_evaluation() const override { return true; }
        double evaluate(const bit_vector_t&) override { calls++; return next; }
        double evaluate_incrementally(const bit_vector_t&, double, const sparse_bit_vector_t&) override { calls++; return next; }
        double evaluate_safely(const bit_vector_t&) override { return next; }
        void update(const bit_vector_t&, double) override { calls++; }
      } f;
      static const int lens[] = {300, 1200, 33000, 66000, 140000};
      int M = lens[r % 5] + rng.in(0, 50), B = rng.coin() ? M - rng.in(1, 40) : M + rng.in(1, 40), J = rng.in(1, M), P = rng.in(1, 7);
      if (r % 3 == 0) J = M - rng.in(0, 60);
      std::vector<int> pat; for (int k = 0; k < P; k++) pat.push_back(rng.in(-5, 5));
      int goal = rng.below(3) == 0 ? 9 : 11;
      ProgressTracker tr(&f); CallCounter cc(&tr); OnBudgetFunction bu(&cc, B); StopOnTarget st(&bu, goal);
      tr.set_record_evaluation_time(rng.coin());
      long done = 0, last = 0, hit = 0, other = 0, at = 0;
      bit_vector_t x(2);
      for (int k = 1; k <= M; k++) {
        f.next = k == J ? 10 : pat[k % P];
        try {
          switch (rng.below(3)) {
          case 0: if (st.evaluate(x) != f.next) other++; break;
          case 1: if (st.evaluate_incrementally(x, 0, {}) != f.next) other++; break;
          default: if (st.evaluate_safely(x) != f.next) other++; st.update(x, f.next);
          }
          done++;
        }
        catch (const exception::LastEvaluation&) { last++; }
        catch (const exception::TargetReached&) { hit++; at = k; done++; }
        catch (...) { other++; }
      }
      Obj("Long").i("M", M).i("B", B).i("J", J).a("pat", pat).i("goal", goal).i("done", done).i("last", last).i("hit", hit).i("at", at).i("other", other).i("calls", f.calls)
        .i("tn", tr.get_num_calls()).i("cn", cc.get_num_calls()).i("bn", bu.get_num_calls()).i("rank", tr.get_last_improvement().num_evaluations).d("best", tr.get_last_improvement().solution.second).emit();
    }
  }
  return finish();
}
