// Instrumented functions and runs of algorithms, shared by the drivers of search algorithms.
#pragma once
#include "emit.hh"
#include <algorithm>
#include <cmath>
#include <memory>
#include <mutex>
#include <omp.h>

#include "hnco/exception.hh"
#include "hnco/functions/function.hh"
#include "hnco/algorithms/algorithm.hh"

namespace vf {
using namespace hnco;

// A function on n bits given by its table; values are also known by their rank (1..).
struct Table {
  int n;
  std::vector<double> v;
  std::map<double, int> rank;
  Table(int n_, std::vector<double> v_) : n(n_), v(std::move(v_)) {
    std::set<double> s(v.begin(), v.end());
    int k = 0;
    for (double d : s) rank[d] = ++k;
  }
  // On many bits: points are numbered as they are met, and values are a mixture of weight and hash.
  bool wide = false;
  int mode = 0;
  mutable std::map<bit_vector_t, int> ids;
  Table(int n_, int mode_) : n(n_), wide(true), mode(mode_) {}
  int index(const bit_vector_t& x) const {
    if (!wide) return bv_index(x);
    return ids.emplace(x, (int)ids.size() + 1).first->second;
  }
  double at(const bit_vector_t& x) const {
    if (!wide) return v[bv_index(x)];
    unsigned h = 2166136261u; int w = 0;
    for (auto b : x) { h = (h ^ (b ? 7u : 3u)) * 16777619u; w += b; }
    return mode == 0 ? (h >> 8) % 1000 : mode == 1 ? w : double((h >> 8) % 7) - 10;
  }
  int rank_of(double d) const {
    if (wide) return d == std::floor(d) && d >= -100 && d <= 2000 ? (int)d + 101 : BAD;
    auto it = rank.find(d);
    return it == rank.end() ? BAD : it->second;
  }
};

inline Table make_table(int n, int kind, Rng& rng) {
  std::vector<double> v(1u << n);
  for (size_t i = 0; i < v.size(); i++) {
    int w = __builtin_popcount((unsigned)i);
    switch (kind) {
    case 0: v[i] = rng.in(-3, 3); break;                       // many ties, signs
    case 1: v[i] = -1 - rng.below(1000); break;                // negative
    case 2: v[i] = 1 + rng.below(1000000) * 1e-12; break;      // close doubles
    case 3: v[i] = -1e10 + rng.below(1000); break;             // large, beyond float and int
    case 4: v[i] = w; break;                                   // smooth
    case 5: v[i] = w == n ? 0 : -double(w) / 3; break;         // deceptive
    case 6: v[i] = 1.5; break;                                 // constant
    case 8: v[i] = i; break;                                   // distinct
    case 9: v[i] = double((i * 2654435761u + 12345u) % (1u << n)) - 2.5; break;   // distinct, rugged
    default: v[i] = 16777216.0 + rng.below(64); break;         // beyond the mantissa of a float
    }
  }
  return Table(n, v);
}
const int NUM_TABLE_KINDS = 8;

struct Ev { int x, r; bool inc; int ox; double ov; };

// What the algorithm maximises: records every completed evaluation, and refuses
// (budget) or ends (target) the run at a chosen evaluation.
struct Probe : function::Function {
  const Table& t;
  std::vector<Ev> evs;
  long budget = -1;      // refuse evaluation number budget + 1
  long goal = -1;        // evaluation number goal reaches the target
  bool incremental = false;
  std::function<void(const Ev&)> on_eval;
  explicit Probe(const Table& t_) : t(t_) {}
  int get_bv_size() const override { return t.n; }
  bool provides_incremental_evaluation() const override { return incremental; }
  void before() { if (budget >= 0 && (long)evs.size() >= budget) throw exception::LastEvaluation(); }
  double value(const bit_vector_t& x) const {
    if ((int)x.size() != t.n) return std::nan("");
    return t.at(x);
  }
  void record(int x, double v, bool inc = false, int ox = -1, double ov = 0) {
    evs.push_back(Ev{x, t.rank_of(v), inc, ox, ov});
    if (on_eval) on_eval(evs.back());
    if (goal >= 0 && (long)evs.size() == goal) throw exception::TargetReached();
  }
  double evaluate(const bit_vector_t& x) override {
    before();
    double v = value(x);
    record(t.index(x), v);
    return v;
  }
  double evaluate_incrementally(const bit_vector_t& x, double value_in, const sparse_bit_vector_t& f) override {
    before();
    bit_vector_t y(x);
    for (auto i : f) y[i] = !y[i];
    double v = value(y);
    record(t.index(y), v, true, t.index(x), value_in);
    return v;
  }
  double evaluate_safely(const bit_vector_t& x) override { return value(x); }
  void update(const bit_vector_t& x, double v) override {
    before();
    record(t.index(x), v == value(x) ? v : std::nan(""));
  }
};

struct Outcome {
  std::string cause;     // done, last, goal
  std::vector<Ev> evs;
  int x = BAD, r = BAD;  // reported
};

template<class T> struct Keep { std::vector<std::shared_ptr<void>> refs; std::shared_ptr<T> it; };
using Holder = Keep<algorithm::Algorithm>;

inline Outcome run_algorithm(algorithm::Algorithm& a, const Table& t, unsigned seed, long budget, long goal,
                             int threads = 1, bool inc = false, std::function<void(const Ev&)> on_eval = nullptr) {
  Probe p(t);
  p.budget = budget; p.goal = goal; p.incremental = inc; p.on_eval = on_eval;
  std::vector<std::unique_ptr<Probe>> others;
  std::vector<function::Function *> fns{&p};
  for (int k = 1; k < threads; k++) { others.push_back(std::make_unique<Probe>(t)); fns.push_back(others.back().get()); }
  omp_set_num_threads(threads);
  random::Generator::set_seed(seed);
  Outcome o;
  try { a.maximize(fns); o.cause = "done"; }
  catch (const exception::LastEvaluation&) { o.cause = "last"; }
  catch (const exception::TargetReached&) { o.cause = "goal"; }
  a.finalize();
  auto sol = a.get_solution();
  o.x = (int)sol.first.size() == t.n ? t.index(sol.first) : BAD;
  o.r = t.rank_of(sol.second);
  o.evs = p.evs;
  return o;
}

inline bool is_prefix(const std::vector<Ev>& a, const std::vector<Ev>& b) {
  if (a.size() > b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (a[i].x != b[i].x || a[i].r != b[i].r) return false;
  return true;
}
inline std::string ev_list(const std::vector<Ev>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += "[" + num(v[i].x) + "," + num(v[i].r) + "]"; }
  return s + "]";
}

// Silences and optionally captures what the library prints.
struct Quiet {
  std::ostringstream os;
  std::streambuf *old;
  Quiet() { old = std::cout.rdbuf(os.rdbuf()); }
  ~Quiet() { std::cout.rdbuf(old); }
};

} // namespace vf
