// Benchmark functions: definitions, maxima, incremental evaluation, files, Walsh transform, wrappers (C05-C10).
#include <array>
#include <fstream>
#include <memory>
#include "emit.hh"
#include "hnco/functions/all.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/functions/controllers/all.hh"
#include "hnco/functions/collection/all.hh"
#include "hnco/maps/map.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"

using namespace hnco;
using namespace hnco::function;
using namespace hnco::function::modifier;
using namespace hnco::function::controller;
using namespace vf;

static std::string vecs(const std::vector<bit_vector_t>& v) { std::vector<std::string> l; for (auto& r : v) l.push_back(arr(r)); return list(l); }
template<class V> static std::string mats(const V& v) { std::vector<std::string> l; for (auto& r : v) l.push_back(arr(r)); return list(l); }
// the nearest integer of v * scale if it is one up to rounding errors
static int nearest(double v, double scale) {
  double w = v * scale, r = std::floor(w + 0.5);
  if (!(std::fabs(r) <= 1e9) || std::fabs(w - r) > 1e-7 * (1 + std::fabs(r))) return BAD;
  return int(r);
}
static std::string rand_name() { return "inst-" + std::to_string(scenario_counter()) + ".txt"; }

using FnPtr = std::shared_ptr<Function>;
struct Inst { FnPtr f; std::string js; double scale = 1; std::string fn; int n; int p = 0; };

static std::string jf(const std::string& fn, int n) { return "\"fn\":\"" + fn + "\",\"n\":" + std::to_string(n); }
static std::string br(const std::string& s) { return "{" + s + "}"; }

// weights: several shapes, including zero, equal and extreme ones
static std::vector<double> weights(Rng& rng, int n) {
  std::vector<double> w(n); int shape = rng.below(5);
  for (auto& x : w) x = shape == 0 ? rng.in(-9, 9) : shape == 1 ? rng.in(-1, 1) : shape == 2 ? -rng.in(1, 5) : shape == 3 ? rng.in(1, 1000) : (rng.coin() ? rng.in(-100000, 100000) : 0);
  return w;
}
static std::string wjs(const std::vector<double>& w) { return dvals(w); }

static const std::vector<std::string> PARAM = {"trap", "jump", "djump", "four", "six", "longpath"};
static FnPtr simple(const std::string& fn, int n, int p) {
  if (fn == "onemax") return FnPtr(new OneMax(n));
  if (fn == "leading") return FnPtr(new LeadingOnes(n));
  if (fn == "needle") return FnPtr(new Needle(n));
  if (fn == "ridge") return FnPtr(new Ridge(n));
  if (fn == "plateau") return FnPtr(new Plateau(n));
  if (fn == "hiff") return FnPtr(new Hiff(n));
  if (fn == "trap") return FnPtr(new Trap(n, p));
  if (fn == "jump") return FnPtr(new Jump(n, p));
  if (fn == "djump") return FnPtr(new DeceptiveJump(n, p));
  if (fn == "four") return FnPtr(new FourPeaks(n, p));
  if (fn == "six") return FnPtr(new SixPeaks(n, p));
  if (fn == "longpath") return FnPtr(new LongPath(n, p));
  if (fn == "labs") return FnPtr(new Labs(n));
  if (fn == "cancel") return FnPtr(new SummationCancellation(n));
  return nullptr;
}
static Inst make_simple(const std::string& fn, int n, int p = 0) {
  return {simple(fn, n, p), br(jf(fn, n) + ",\"p\":" + std::to_string(p)), fn == "cancel" ? 100.0 : 1.0, fn, n, p};
}

struct Gen {  // a generator of integers that remembers what it returned
  Rng *rng; std::shared_ptr<std::vector<double>> out; int lo, hi;
  double operator()() { double v = rng->in(lo, hi); out->push_back(v); return v; }
};
static Gen gen(Rng& rng, int lo, int hi) { return Gen{&rng, std::make_shared<std::vector<double>>(), lo, hi}; }

static Inst linear(Rng& rng, int n, LinearFunction *reuse = nullptr) {
  auto w = weights(rng, n); size_t k = 0;
  auto *f = reuse ? reuse : new LinearFunction; f->generate(n, [&]() { return w[k++]; });
  return {reuse ? FnPtr() : FnPtr(f), br(jf("linear", n) + ",\"w\":" + wjs(w)), 1, "linear", n};
}
static Inst walsh1(Rng& rng, int n) {
  auto w = weights(rng, n); size_t k = 0;
  auto *f = new WalshExpansion1; f->generate(n, [&]() { return w[k++]; });
  return {FnPtr(f), br(jf("walsh1", n) + ",\"w\":" + wjs(w)), 1, "walsh1", n};
}
static std::string ising1_js(int n, const std::vector<double>& J, const std::vector<double>& h, bool per) {
  return br(jf("ising1", n) + ",\"J\":" + dvals(J) + ",\"h\":" + dvals(h) + ",\"periodic\":" + (per ? "true" : "false"));
}
static Inst ising1(Rng& rng, int n, bool per, int warm = 0) {
  auto *f = new NearestNeighborIsingModel1;
  if (warm) { f->random(warm); bit_vector_t x = rng.bv(warm); f->evaluate(x); f->evaluate_incrementally(x, 0, {0}); }
  auto J = gen(rng, -9, 9), h = gen(rng, -5, 5);
  f->generate(n, J, h);
  f->set_periodic_boundary_conditions(per);
  return {FnPtr(f), ising1_js(n, *J.out, *h.out, per), 1, "ising1", n};
}
static Inst ising2(Rng& rng, int nr, int nc, bool per, int warm = 0) {
  auto *f = new NearestNeighborIsingModel2;
  if (warm) { f->random(warm, warm + 1); bit_vector_t x = rng.bv(warm * (warm + 1)); f->evaluate(x); f->evaluate_incrementally(x, 0, {0}); }
  auto J = gen(rng, -9, 9), h = gen(rng, -5, 5);
  f->generate(nr, nc, J, h);
  f->set_periodic_boundary_conditions(per);
  std::vector<std::vector<int>> R(nr, std::vector<int>(nc)), B(R), H(R);
  size_t a = 0, b = 0;
  for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { R[i][j] = (*J.out)[a++]; B[i][j] = (*J.out)[a++]; H[i][j] = (*h.out)[b++]; }
  return {FnPtr(f), br(jf("ising2", nr * nc) + ",\"R\":" + mats(R) + ",\"B\":" + mats(B) + ",\"h\":" + mats(H) + ",\"periodic\":" + (per ? "true" : "false")), 1, "ising2", nr * nc};
}
static Inst walsh2(Rng& rng, int n) {
  auto *f = new WalshExpansion2;
  if (rng.coin()) f->random(rng.in(1, 7));
  auto l = gen(rng, -9, 9), q = gen(rng, -9, 9);
  f->generate(n, l, q);
  std::vector<std::vector<int>> Q(n); size_t k = 0;
  for (int i = 1; i < n; i++) for (int j = 0; j < i; j++) Q[i].push_back((*q.out)[k++]);
  return {FnPtr(f), br(jf("walsh2", n) + ",\"w\":" + dvals(*l.out) + ",\"q\":" + mats(Q)), 1, "walsh2", n};
}
static Inst walshexp(Rng& rng, int n) {
  auto *f = new WalshExpansion; std::vector<WalshTerm> terms; std::vector<std::string> js;
  int m = rng.in(1, 2 * n);
  for (int k = 0; k < m; k++) {
    bit_vector_t u = rng.bv(n); std::vector<bool> feature(u.begin(), u.end()); int c = rng.in(-9, 9);
    WalshTerm t; t.feature = feature; t.coefficient = c; terms.push_back(t);
    js.push_back("[" + arr(u) + "," + std::to_string(c) + "]");
  }
  f->set_terms(terms);
  return {FnPtr(f), br(jf("walsh", n) + ",\"t\":" + list(js)), 1, "walsh", n};
}
struct Nk { Inst inst; std::string nb; int K; };
static std::vector<std::vector<int>> nk_neighbors(const NkLandscape& f) {
  std::ostringstream os; f.display(os); std::istringstream is(os.str()); std::string line; std::vector<std::vector<int>> nb;
  while (std::getline(is, line)) { auto p = line.find("->"); if (p == std::string::npos) continue; std::istringstream ls(line.substr(p + 2)); int v; nb.emplace_back(); while (ls >> v) nb.back().push_back(v); }
  return nb;
}
static Inst nk(Rng& rng, int n, int K) {
  auto *f = new NkLandscape;
  if (rng.coin()) f->random(rng.in(4, 7), rng.in(1, 3));
  auto g = gen(rng, -99, 99);
  f->generate(n, K, g);
  auto nb = nk_neighbors(*f);
  std::vector<std::vector<int>> tab(n); size_t k = 0;
  for (auto& t : tab) for (int j = 0; j < (1 << (K + 1)); j++) t.push_back(k < g.out->size() ? (*g.out)[k++] : BAD);
  return {FnPtr(f), br(jf("nk", n) + ",\"nb\":" + mats(nb) + ",\"tab\":" + mats(tab)), double(n), "nk", n};
}
static Inst partition(Rng& rng, int n) {
  auto *f = new Partition; auto g = gen(rng, 1, rng.coin() ? 20 : 100000); f->generate(n, g);
  return {FnPtr(f), br(jf("partition", n) + ",\"w\":" + dvals(*g.out)), 1, "partition", n};
}
static Inst products(Rng& rng, int n) {
  auto *f = new EqualProducts; auto g = gen(rng, 1, 9); f->generate(n, g);
  return {FnPtr(f), br(jf("products", n) + ",\"w\":" + dvals(*g.out)), 1, "products", n};
}
static std::string bits_of(unsigned long v) { std::vector<int> b; do { b.push_back(v & 1); v >>= 1; } while (v); return arr(b); }
static Inst factor(unsigned long v) {
  auto *f = new Factorization(std::to_string(v));
  return {FnPtr(f), br(jf("factor", f->get_bv_size()) + ",\"number\":" + bits_of(v)), 1, "factor", f->get_bv_size()};
}
// clauses from the saved file of a MaxSat instance
static std::vector<std::vector<int>> saved_clauses(const AbstractMaxSat& f) {
  std::string p = rand_name(); f.save(p); std::ifstream is(p); std::string line; std::vector<std::vector<int>> c;
  while (std::getline(is, line)) { if (line.empty() || line[0] == 'c' || line[0] == 'p') continue; std::istringstream ls(line); int v; c.emplace_back(); while (ls >> v && v) c.back().push_back(v); }
  std::remove(p.c_str());
  return c;
}
static Inst sat_inst(FnPtr f, const AbstractMaxSat& a, bool nae) {
  int n = f->get_bv_size();
  return {f, br(jf(nae ? "nae" : "maxsat", n) + ",\"c\":" + mats(saved_clauses(a))), 1, nae ? "nae" : "maxsat", n};
}

// points where the definition is about to change
static void more_points(const Inst& s, Rng& rng, std::vector<bit_vector_t>& xs) {
  const int n = s.n;
  auto put = [&](const bit_vector_t& x) { xs.push_back(x); };
  if (s.fn == "four" || s.fn == "six")
    for (int k = 0; k < 10; k++) {                       // a uniform head and tail, around the threshold
      int a = s.p + rng.below(4), b = s.p + rng.below(4), d = rng.coin(), e = rng.below(5) ? !d : d; if (a + b + 2 > n) continue;
      bit_vector_t x = rng.bv(n); for (int j = 0; j < a; j++) x[j] = d; x[a] = !d; for (int j = 0; j < b; j++) x[n - 1 - j] = e; x[n - 1 - b] = !e; put(x);
    }
  if (s.fn == "jump" || s.fn == "djump")
    for (int z = 1; z <= s.p + 2 && z <= n; z++) { bit_vector_t x(n, 1); for (int k = 0; k < z; ) { int j = rng.below(n); if (x[j]) { x[j] = 0; k++; } } put(x); }
  if (s.fn == "hiff" || s.fn == "trap" || s.fn == "longpath" || s.fn == "labs" || s.fn == "ridge" || s.fn == "plateau" || s.fn == "leading")
    for (int k = 0; k < 10; k++) {                       // uniform blocks
      int B = s.fn == "trap" ? n / s.p : s.fn == "longpath" ? s.p : 1 << rng.below(7), same = s.fn == "trap" || s.fn == "longpath" ? rng.in(-1, n / B) : -1;
      if (s.fn == "longpath" && rng.coin()) same = -1;
      bit_vector_t x(n); for (int j = 0, d = 0; j < n; j++) { if (j % B == 0) d = rng.coin(); x[j] = d; }
      for (int j = same * B; same >= 0 && j < n && j < (same + 1) * B; j++) x[j] = s.fn == "longpath" ? j - same * B >= B - 1 - rng.below(2) : rng.below(3) != 0;
      if (s.fn == "longpath" && same >= 0) for (int j = (same + 1) * B; j < n; j++) x[j] = j < (same + 2) * B;   // the only way on
      put(x);
    }
}
// values: at all points when small, else at chosen ones
static void values(const char *event, Inst& s, Rng& rng, int cap = 8, std::function<void(Obj&)> extra = nullptr) {
  int n = s.n; Obj o(event); o.raw("f", s.js).i("n", n).i("size", s.f->get_bv_size());
  std::vector<int> ys;
  if (n <= cap) for (unsigned long u = 0; u < (1UL << n); u++) { bit_vector_t x = bv_of(u, n); ys.push_back(nearest(s.f->evaluate(x), s.scale)); }
  else {
    std::vector<bit_vector_t> xs = {bit_vector_t(n, 0), bit_vector_t(n, 1)};
    for (int k = 0; k < 12; k++) { bit_vector_t x = rng.bv(n); if (k % 3 == 1) { int c = rng.below(n + 1); for (int j = 0; j < n; j++) x[j] = j < c; } if (k % 3 == 2) { int c = rng.below(n + 1), d = rng.coin(); for (int j = 0; j < n; j++) if (j < c) x[j] = d; else if (j > n - c) x[j] = !d; } xs.push_back(x); }
    for (int k = 0; k < 3; k++) { bit_vector_t x(n, 1); x[rng.below(n)] = 0; xs.push_back(x); }
    more_points(s, rng, xs);
    for (auto& x : xs) { bit_vector_t y(x); ys.push_back(nearest(s.f->evaluate(y), s.scale)); if (y != x) ys.push_back(BAD); }
    o.raw("xs", vecs(xs));
  }
  o.a("ys", ys);
  if (extra) extra(o);
  o.emit();
}

// ------------------------------------------------------------------ C08
static std::vector<int> rand_perm(Rng& rng, int n) { std::vector<int> p(n); for (int k = 0; k < n; k++) p[k] = k; for (int k = n - 1; k > 0; k--) std::swap(p[k], p[rng.below(k + 1)]); return p; }

static std::vector<std::vector<int>> perms(Rng& rng, int n) {
  std::vector<std::vector<int>> r;
  std::vector<int> p(n); for (int k = 0; k < n; k++) p[k] = k;
  if (n <= 4) do r.push_back(p); while (std::next_permutation(p.begin(), p.end()));
  else for (int k = 0; k < 15; k++) r.push_back(rand_perm(rng, n));
  return r;
}
static void write_file(const std::string& p, const std::string& s) { std::ofstream o(p); o << s; }
static std::vector<std::vector<int>> sudoku_board(const Sudoku& s) {
  std::string p = rand_name(); s.save(p); std::ifstream is(p); std::string l; std::vector<std::vector<int>> b;
  while (std::getline(is, l)) { b.emplace_back(); for (char c : l) b.back().push_back(c == '.' ? 0 : c - '0'); }
  std::remove(p.c_str());
  return b;
}
static void sudoku_eval(Obj& o, Sudoku& s, int nv, Rng& rng, int reps) {
  std::vector<std::vector<int>> vs; std::vector<int> ys;
  for (int k = 0; k < reps; k++) {
    std::vector<std::size_t> v(nv); for (auto& d : v) d = k == 0 ? 0 : k == 1 ? 8 : rng.below(9);
    ys.push_back(iv(s.evaluate(v))); vs.emplace_back(v.begin(), v.end());
  }
  o.raw("vs", mats(vs)).a("ys", ys);
}

static void qubo_values(Rng& rng, int dim) {
  std::string txt; std::vector<std::string> js; int nd = 0, no = 0;
  for (int i = 0; i < dim; i++) for (int j = i; j < dim; j++) if (rng.below(dim > 40 ? 4 : 2) == 0 || (i == 0 && j == dim - 1)) {
    int v = rng.in(1, 90) * (rng.coin() ? 1 : -1); (i == j ? nd : no)++; txt += num(i) + " " + num(j) + " " + num(v) + "\n"; js.push_back("[" + num(i) + "," + num(j) + "," + num(v) + "]");
  }
  std::string p = rand_name(); write_file(p, "p qubo 0 " + num(dim) + " " + num(nd) + " " + num(no) + "\n" + txt);
  auto *f = new Qubo; f->load(p); std::remove(p.c_str());
  Inst s = {FnPtr(f), br(jf("qubo", dim) + ",\"el\":" + list(js)), 1, "qubo", dim}; values("values", s, rng, 5);
}
static void c08() {
  Rng rng(1); const bool th = ctx().thorough;
  const int maxn = th ? 9 : 7;
  for (std::string fn : {"onemax", "leading", "needle", "ridge", "plateau", "labs"})
    for (int n = 1; n <= maxn; n++)
      if (scenario(fn + " n=" + num(n), &rng)) { auto s = make_simple(fn, n); values("values", s, rng, 9); }
  for (int n : {1, 2, 4, 8})
    if (scenario("hiff n=" + num(n), &rng)) { auto s = make_simple("hiff", n); values("values", s, rng, 8); }
  for (auto& fn : PARAM)
    for (int n = 1; n <= maxn + 1; n++)
      for (int p = (fn == "longpath" || fn == "trap" ? 1 : 0); p <= n + 1; p++)
        if (scenario(fn + " n=" + num(n) + " p=" + num(p), &rng)) {
          bool ok = true; FnPtr f;
          try { f = simple(fn, n, p); } catch (const std::runtime_error&) { ok = false; }
          Obj("legal").str("fn", fn).i("n", n).i("p", p).b("ok", ok).emit();
          if (ok && n <= maxn) { auto s = make_simple(fn, n, p); values("values", s, rng, 9); }
        }
  for (std::string fn : {"hiff", "cancel"})
    for (int n = 1; n <= 20; n++)
      if (scenario("legal " + fn + " " + num(n), &rng)) {
        bool ok = true; try { simple(fn, n, 0); } catch (const std::runtime_error&) { ok = false; }
        Obj("legal").str("fn", fn).i("n", n).i("p", 0).b("ok", ok).emit();
      }
  // larger dimensions
  for (int n : {9, 16, 31, 64, 65, 100, 130})
    for (std::string fn : {"onemax", "leading", "needle", "ridge", "plateau", "hiff", "trap", "jump", "djump", "four", "six", "labs"})
      if (scenario("large " + fn + " n=" + num(n), &rng)) {
        int p = 1;
        if (fn == "hiff" && (n & (n - 1))) continue;
        if (fn == "labs" && n > 70) continue;
        if (fn == "trap") p = n % 5 == 0 ? 5 : n % 3 == 0 ? 3 : n % 4 == 0 ? 4 : 1;
        if (fn == "jump" || fn == "djump") p = rng.in(1, 6);
        if (fn == "four" || fn == "six") p = rng.in(0, n / 2 - 1);
        auto s = make_simple(fn, n, p); values("values", s, rng);
      }
  for (int k : {2, 3, 4, 5, 7}) for (int m : {4, 9, 17, 26}) if (m * k > 10 && k * std::ldexp(1., m) < 9e8)
    if (scenario("long path of " + num(m) + " blocks", &rng)) { auto s = make_simple("longpath", m * k, k); values("values", s, rng, 10); }
  if (scenario("long path of dimension 10", &rng)) for (int p : {2, 5, 10}) { auto s = make_simple("longpath", 10, p); values("values", s, rng, 10); }
  for (int n : {2, 3, 4, 5, 6, 7})
    if (scenario("merit factor n=" + num(n), &rng)) {
      Labs f(n); f.set_merit_factor_flag(true); std::vector<int> ys;
      for (int u = 0; u < (1 << n); u++) { double y = f.evaluate(bv_of(u, n)); ys.push_back(std::isfinite(y) ? int(std::floor(y * 1e4 + 0.5)) : BAD); }
      Obj("merit").i("n", n).a("ys", ys).emit();
      f.set_merit_factor_flag(false);
      Inst s = {FnPtr(new Labs(f)), br(jf("labs", n)), 1, "labs", n}; values("values", s, rng);
    }
  if (scenario("cancellation 9", &rng)) { auto s = make_simple("cancel", 9); values("values", s, rng, 9); }
  for (int n : {18, 27, 45, 90, 144, 207}) for (int rep = 0; rep < 2; rep++)
    if (scenario("cancellation " + num(n), &rng)) { auto s = make_simple("cancel", n); values("values", s, rng, 9); }
  for (int n : {9, 18, 27, 36})
    if (scenario("sinus cancellation " + num(n), &rng)) {
      std::vector<int> sines; for (int k = -400; k <= 401; k++) sines.push_back(int(std::floor(1e4 * std::sin(k / 100.0) + 0.5)));
      SinusSummationCancellation f(n); std::vector<bit_vector_t> xs; std::vector<int> ys;
      for (int k = 0; k < 30; k++) { xs.push_back(k == 0 ? bit_vector_t(n, 0) : k == 1 ? bit_vector_t(n, 1) : rng.bv(n)); ys.push_back(int(std::floor(1e4 * f.evaluate(xs.back()) + 0.5))); }
      Obj("sinus").i("n", n).raw("xs", vecs(xs)).a("ys", ys).a("sines", sines).emit();
    }
  // generated instances
  const int reps = th ? 40 : 6;
  for (int rep = 0; rep < reps; rep++) {
    for (int n : {1, 2, 3, 5, 7, 40, rep % 6 == 0 ? 130 : 66}) {
      if (scenario("linear " + num(n), &rng)) { auto s = linear(rng, n); values("values", s, rng, 7); }
      if (scenario("walsh1 " + num(n), &rng)) { auto s = walsh1(rng, n); values("values", s, rng, 7); }
      if (scenario("walsh2 " + num(n), &rng)) { auto s = walsh2(rng, n > 60 ? 66 : n > 7 ? rng.in(8, 40) : n); values("values", s, rng, 7); }
      if (scenario("walsh " + num(n), &rng)) { auto s = walshexp(rng, n); values("values", s, rng, 7); }
      if (scenario("partition " + num(n), &rng)) { auto s = partition(rng, n); values("values", s, rng, 7); }
      if (n <= 7 && scenario("products " + num(n), &rng)) { auto s = products(rng, n); values("values", s, rng, 7); }
      for (bool per : {false, true}) if (scenario("ising1 " + num(n), &rng)) { auto s = ising1(rng, n, per, rng.below(3) * 2); values("values", s, rng, 7); }
      if (scenario("walsh generate " + num(n), &rng)) {
        WalshExpansion f; auto g = gen(rng, -50, 50); f.generate(n, rng.in(1, 9), g);
        Obj("wgen").i("n", n).i("size", f.get_bv_size()).a("w", *g.out).raw("ys", "[" + std::to_string(iv(f.evaluate(bit_vector_t(n, 0)))) + "]").emit();
      }
    }
    for (auto rc : std::vector<std::pair<int, int>>{{1, 1}, {1, 2}, {2, 1}, {1, 4}, {4, 1}, {2, 2}, {2, 3}, {3, 2}, {5, 7}, {1, 20}, {11, 9}})
      for (bool per : {false, true})
        if (scenario("ising2 " + num(rc.first) + "x" + num(rc.second), &rng)) { auto s = ising2(rng, rc.first, rc.second, per, rng.below(2) * 2); values("values", s, rng, 6); }
    for (auto nK : std::vector<std::pair<int, int>>{{2, 1}, {3, 1}, {3, 2}, {5, 2}, {6, 3}, {6, 5}, {25, 3}, {9, 7}, {12, 8}, {70, 2}})
      if (scenario("nk " + num(nK.first) + " " + num(nK.second), &rng)) { auto s = nk(rng, nK.first, nK.second); values("nk", s, rng, 6, [&](Obj& o) { o.i("K", nK.second); }); }
    for (auto nk : std::vector<std::pair<int, int>>{{1, 1}, {3, 1}, {3, 3}, {5, 3}, {6, 2}, {30, 3}, {90, 11}, {130, 3}}) {
      if (scenario("maxsat " + num(nk.first), &rng)) {
        auto *f = new MaxSat; int m = rng.in(1, nk.first > 30 ? 150 : 12); bit_vector_t sol;
        if (rng.coin()) f->random(nk.first, nk.second, m); else { sol = rng.bv(nk.first); f->random(sol, nk.second, m); }
        auto s = sat_inst(FnPtr(f), *f, false);
        values("sat", s, rng, 6, [&](Obj& o) { o.i("m", m).i("k", nk.second).a("planted", sol); });
      }
      if (nk.second == 3 && scenario("nae " + num(nk.first), &rng)) {
        MaxSat g; int m = rng.in(1, nk.first > 30 ? 150 : 12); g.random(nk.first, 3, m); std::string p = rand_name(); g.save(p);
        auto *f = new MaxNae3Sat; f->load(p); std::remove(p.c_str());
        auto s = sat_inst(FnPtr(f), *f, true);
        values("sat", s, rng, 6, [&](Obj& o) { o.i("m", m).i("k", 3).a("planted", std::vector<int>()); });
      }
    }
    for (int dim : {9, 33, 70})
      if (scenario("qubo " + num(dim), &rng)) qubo_values(rng, dim);
    if (scenario("random partition", &rng)) {
      Partition f; int ub = rng.in(1, 30); f.random(12, ub); std::ostringstream os; f.display(os); std::string t = os.str(); std::vector<int> w; long cur = -1;
      for (char c : t) { if (std::isdigit((unsigned char)c)) cur = (cur < 0 ? 0 : cur) * 10 + (c - '0'); else if (cur >= 0) { w.push_back(cur); cur = -1; } }
      Obj("range").i("lo", 1).i("hi", ub).a("w", w).emit();
      Inst s = {FnPtr(new Partition(f)), br(jf("partition", 12) + ",\"w\":" + arr(w)), 1, "partition", 12}; values("values", s, rng, 5);
    }
    for (unsigned long v : {6UL, 9UL, 15UL, 3UL, 2UL, 4UL, 21UL})
      if (rep == 0 && scenario("factorize " + num(v), &rng)) { auto s = factor(v); values("values", s, rng, 7); }
    if (scenario("factorize", &rng)) { auto s = factor(rng.in(5, 60000)); values("values", s, rng, 7); }
    if (scenario("factorize large", &rng)) { auto s = factor(rng.next() >> rng.in(4, 24)); values("values", s, rng, 7); }
    for (int per = 0; per < 2; per++)
      for (int alpha = 0; alpha < 3; alpha++)
        if (rep < 2 && scenario("long range", &rng)) {
          int n = rep == 0 ? rng.in(1, 4) : rng.in(5, 6); WalshExpansion2 f; if (rng.coin()) f.random(rng.in(1, 8));
          if (per) f.generate_ising1_long_range_periodic(n, alpha); else f.generate_ising1_long_range(n, alpha);
          std::vector<int> ys; for (int u = 0; u < (1 << n); u++) ys.push_back(nearest(f.evaluate(bv_of(u, n)), 3600));
          Obj("longrange").i("n", n).b("periodic", per).i("alpha", alpha).i("scale", 3600).a("ys", ys).emit();
        }
    if (scenario("sudoku", &rng)) {
      Sudoku s; int c = rep == 0 ? 81 : rep == 1 ? 1 : rng.in(1, 81); if (rng.coin()) s.random(rng.in(1, 81));
      s.random(c);
      auto b = sudoku_board(s);
      Obj("sudokurand").i("c", c).raw("board", mats(b)).emit();
      Obj o("sudoku"); o.raw("board", mats(b)).i("nv", s.get_num_variables()); sudoku_eval(o, s, s.get_num_variables(), rng, 5); o.emit();
    }
    for (int n : {1, 2, 3, 4, 6, 9, 14, 40})
      if (scenario("tsp " + num(n), &rng)) {
        Tsp f; if (rng.coin()) f.random(rng.in(1, 8));
        auto g = gen(rng, 0, 500); f.generate(n, g);
        std::vector<std::vector<int>> low(n); size_t k = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) low[i].push_back((*g.out)[k++]);
        auto ps = perms(rng, n); std::vector<int> ys; for (auto& p : ps) ys.push_back(iv(f.evaluate(permutation_t(p.begin(), p.end()))));
        Obj("tspgen").i("n", n).i("size", f.get_num_elements()).raw("low", mats(low)).raw("perms", mats(ps)).a("ys", ys).emit();
      }
  }
}

// ------------------------------------------------------------------ C07
static void maximum(Inst& s) {
  int n = s.n; std::vector<int> ys; std::vector<std::string> glob;
  bool known = s.f->has_known_maximum(), threw = false; double m = 0;
  try { m = s.f->get_maximum(); } catch (const std::runtime_error&) { threw = true; }
  for (int u = 0; u < (1 << n); u++) { bit_vector_t x = bv_of(u, n); ys.push_back(nearest(s.f->evaluate(x), s.scale)); if (known) glob.push_back(bv_is_globally_maximal(x, *s.f) ? "true" : "false"); }
  Obj o("max"); o.raw("f", s.js).i("n", n).b("known", known).b("threw", threw).i("max", nearest(m, s.scale)).a("ys", ys);
  if (known) o.l("glob", glob);
  o.emit();
}
static void c07() {
  Rng rng(1); const bool th = ctx().thorough; const int maxn = th ? 9 : 8;
  for (std::string fn : {"onemax", "leading", "needle", "ridge", "plateau", "labs", "hiff"})
    for (int n = 1; n <= maxn; n++) {
      if (fn == "hiff" && (n & (n - 1))) continue;
      if (scenario("maximum of " + fn + " n=" + num(n), &rng)) { auto s = make_simple(fn, n); maximum(s); }
    }
  for (auto& fn : PARAM)
    for (int n = 1; n <= maxn; n++)
      for (int p = (fn == "longpath" || fn == "trap" ? 1 : 0); p <= n + 2; p++)
        if (scenario("maximum of " + fn + " n=" + num(n) + " p=" + num(p), &rng)) {
          FnPtr f; try { f = simple(fn, n, p); } catch (const std::runtime_error&) { continue; }
          auto s = make_simple(fn, n, p); maximum(s);
        }
  if (scenario("maximum of cancellation", &rng)) { auto s = make_simple("cancel", 9); maximum(s); }
  if (scenario("maximum of long path 10", &rng)) for (int p : {2, 5, 10}) { auto s = make_simple("longpath", 10, p); maximum(s); }
  for (int rep = 0; rep < (th ? 40 : 8); rep++)
    for (int n : {1, 2, 3, 5, 7, rep % 2 ? 12 : 40}) {
      if (n > 7) {
        if (scenario("local maxima " + num(n), &rng)) {
          Inst s = rng.coin() ? walsh2(rng, n) : rng.coin() ? ising1(rng, n, rng.coin()) : make_simple("jump", n, rng.in(1, n)); int r = n > 12 || rng.coin() ? 1 : 2; std::vector<bit_vector_t> xs; std::vector<std::string> loc;
          neighborhood::SingleBitFlipIterator one(n); neighborhood::HammingSphereIterator sph(n, r);
          for (int j = 0; j < 6; j++) {
            bit_vector_t x = j == 0 ? bit_vector_t(n, 1) : rng.bv(n); double v = s.f->evaluate(x);
            if (j < 5) for (bool up = true; up; ) { up = false; for (int k = 0; k < n; k++) { x[k] ^= 1; double w = s.f->evaluate(x); if (w > v) { v = w; up = true; } else x[k] ^= 1; } }
            if (j == 2) x[n - 1] ^= 1;
            if (j == 3) x[rng.below(n)] ^= 1;
            xs.push_back(x); loc.push_back(bv_is_locally_maximal(x, *s.f, r == 1 && rng.coin() ? (neighborhood::NeighborhoodIterator&)one : sph) ? "true" : "false");
          }
          Obj("local").raw("f", s.js).i("r", r).raw("xs", vecs(xs)).l("loc", loc).emit();
        }
        continue;
      }
      if (scenario("maximum of linear " + num(n), &rng)) { auto s = linear(rng, n); maximum(s); }
      if (scenario("maximum of walsh1 " + num(n), &rng)) { auto s = walsh1(rng, n); maximum(s); }
      if (rep < 2) {
        if (scenario("maximum of ising " + num(n), &rng)) { auto s = ising1(rng, n, rng.coin()); maximum(s); }
        if (scenario("maximum of walsh2 " + num(n), &rng)) { auto s = walsh2(rng, n); maximum(s); }
        if (scenario("maximum of partition " + num(n), &rng)) { auto s = partition(rng, n); maximum(s); }
        if (scenario("maximum of nk " + num(n), &rng)) { if (n > 1) { auto s = nk(rng, n, 1); maximum(s); } }
        if (scenario("maximum of maxsat " + num(n), &rng)) { auto *f = new MaxSat; f->random(n, 1, 5); auto s = sat_inst(FnPtr(f), *f, false); maximum(s); }
      }
      if (scenario("local maxima " + num(n), &rng)) {
        for (int k = 0; k < 3; k++) {
          Inst s = k == 0 ? walsh2(rng, n) : k == 1 ? make_simple("leading", n) : make_simple("jump", n, rng.in(1, n)); int r = rng.in(1, n); std::vector<bit_vector_t> xs; std::vector<std::string> loc;
          neighborhood::SingleBitFlipIterator one(n); neighborhood::HammingSphereIterator sph(n, r);
          bool single = rng.coin();
          for (int j = 0; j < 12; j++) { bit_vector_t x = j == 0 ? bit_vector_t(n, 1) : rng.bv(n); xs.push_back(x); loc.push_back(bv_is_locally_maximal(x, *s.f, single ? (neighborhood::NeighborhoodIterator&)one : sph) ? "true" : "false"); }
          Obj("local").raw("f", s.js).i("r", single ? 1 : r).raw("xs", vecs(xs)).l("loc", loc).emit();
        }
      }
    }
  for (int n : {9, 12, 16, 20, 32, 45, 64, 65, 90, 128, 130})
    for (std::string fn : {"onemax", "leading", "needle", "ridge", "plateau", "hiff", "trap", "jump", "djump", "four", "six", "longpath", "linear", "walsh1", "cancel"})
      if (scenario("maximum of large " + fn + " n=" + num(n), &rng)) {
        int p = 0;
        if (fn == "hiff" && (n & (n - 1))) continue;
        if (fn == "cancel" && n % 9) continue;
        if (fn == "trap") { do p = rng.in(1, n); while (n % p); }
        if (fn == "jump" || fn == "djump") p = rng.in(1, n);
        if (fn == "four" || fn == "six") p = rng.in(0, n / 2 - 1);
        if (fn == "longpath") { p = 2; while (p <= n && (n % p || p * std::ldexp(1., n / p) > 9e8)) p++; if (p > n) continue; }
        Inst s = fn == "linear" ? linear(rng, n) : fn == "walsh1" ? walsh1(rng, n) : make_simple(fn, n, p);
        bit_vector_t best(n, 1);
        if (fn == "four" || fn == "six") { bool d = fn == "four" || rng.coin(); bool left = rng.coin(); for (int j = 0; j < n; j++) best[j] = (j < (left ? p + 1 : n - p - 1)) == d; }
        if (fn == "longpath") for (int j = p; j < n; j++) best[j] = 0;
        if (fn == "cancel") best.assign(n, 0);
        if (fn == "linear" || fn == "walsh1") for (int j = 0; j < n; j++) { bit_vector_t z(n, 0), o(n, 0); o[j] = 1; best[j] = s.f->evaluate(o) > s.f->evaluate(z); }
        std::vector<bit_vector_t> xs = {best, bit_vector_t(n, 0), bit_vector_t(n, 1)}; more_points(s, rng, xs);
        for (int k = 0; k < 4; k++) { bit_vector_t x(best); for (int j = rng.in(1, 3); j > 0; j--) x[rng.below(n)] ^= 1; xs.push_back(x); }
        std::vector<int> ys; std::vector<std::string> glob; bool known = s.f->has_known_maximum(); int mx = BAD; try { mx = nearest(s.f->get_maximum(), s.scale); } catch (const std::runtime_error&) {}
        for (auto& x : xs) { ys.push_back(nearest(s.f->evaluate(x), s.scale)); glob.push_back(known && bv_is_globally_maximal(x, *s.f) ? "true" : "false"); }
        Obj("bigmax").raw("f", s.js).b("known", known).i("max", mx).raw("xs", vecs(xs)).a("ys", ys).l("glob", glob).emit();
      }
  for (int p : {2, 4, 8})
    for (int m : {2, 5, 10, 30, 48, 49, 50, 51, 52, 53, 60})
      if (scenario("long path announcement", &rng)) {
        LongPath f(m * p, p); bool threw = false; double mx = 0;
        try { mx = f.get_maximum(); } catch (const std::runtime_error&) { threw = true; }
        bit_vector_t x(m * p, 0); for (int k = 0; k < p; k++) x[k] = 1;
        Obj("lpknown").i("n", m * p).i("p", p).b("known", f.has_known_maximum()).b("threw", threw).b("last", f.evaluate(x) == mx).emit();
      }
}

// ------------------------------------------------------------------ C06
static sparse_bit_vector_t random_flips(Rng& rng, int n) {
  int m = rng.below(8); sparse_bit_vector_t f;
  if (m == 0) f.push_back(rng.below(n));
  else if (m >= 4) {                                        // everything, everything but one, a run, every k-th, nothing
    int skip = rng.below(n), a = rng.below(n), b = rng.in(a, n - 1), st = rng.in(1, n);
    if (m == 7 && rng.below(3) == 0) return f;
    for (int k = 0; k < n; k++)
      if (m == 4 || (m == 5 && k != skip) || (m == 6 && a <= k && k <= b) || (m == 7 && k % st == a % st)) f.push_back(k);
  }
  else for (int k = 0; k < n; k++) if (m == 1 ? rng.coin() : m == 2 ? rng.below(n) < 2 : rng.below(8) == 0) f.push_back(k);
  return f;
}
static void chain(Inst& s, Rng& rng, int len, int sign = 1) {
  OppositeFunction opp(s.f.get());
  Function *f = sign > 0 ? s.f.get() : &opp;
  bit_vector_t x = rng.bv(s.n), y(x);
  double v = f->evaluate(x);
  std::vector<std::string> fl; std::vector<int> vs; int v0 = iv(v);
  for (int k = 0; k < len; k++) {
    auto F = random_flips(rng, s.n); bit_vector_t before(y);
    v = f->evaluate_incrementally(y, v, F);
    if (before != y) v = BAD;
    bv_flip(y, F); fl.push_back(arr(F)); vs.push_back(iv(v));
    if (rng.below(4) == 0) f->evaluate(rng.bv(s.n));       // other requests in between
    if (rng.below(6) == 0) { bit_vector_t z = rng.bv(s.n); f->evaluate_incrementally(z, 0, random_flips(rng, s.n)); }
  }
  Obj("chain").raw("f", s.js).b("announces", f->provides_incremental_evaluation()).a("x", x).i("v", v0).i("sign", sign).l("fl", fl).a("vs", vs).d("full", f->evaluate(y)).emit();
}
static void all_flips(Inst& s) {
  int n = s.n;
  for (int u = 0; u < (1 << n); u++) {
    bit_vector_t x = bv_of(u, n); double v = s.f->evaluate(x);
    for (int w = 0; w < (1 << n); w++) {
      sparse_bit_vector_t F; for (int k = 0; k < n; k++) if (w >> k & 1) F.push_back(k);
      Obj("inc").raw("f", s.js).a("x", x).d("v", v).a("flips", F).d("r", s.f->evaluate_incrementally(x, v, F)).emit();
    }
  }
}
static Inst inc_inst(Rng& rng, int kind, int n) {
  switch (kind) {
  case 0: return make_simple("onemax", n);
  case 1: return linear(rng, n);
  case 2: return walsh1(rng, n);
  case 3: return ising1(rng, n, false, rng.below(2) * 3);
  case 4: return ising1(rng, n, true, rng.below(2) * 3);
  default: { int nr = 1; for (int d = rng.in(1, n); d >= 1; d--) if (n % d == 0) { nr = d; break; } return ising2(rng, nr, n / nr, kind == 5, rng.below(2) * 3); }
  }
}
static void c06() {
  Rng rng(1); const bool th = ctx().thorough;
  for (int kind = 0; kind < 7; kind++)
    for (int n = 1; n <= (th ? 5 : 4); n++)
      for (int rep = 0; rep < (kind < 3 ? 1 : n == 4 ? 3 : 2); rep++)
        if (scenario("all flips of kind " + num(kind) + " n=" + num(n), &rng)) { auto s = inc_inst(rng, kind, n); all_flips(s); }
  for (bool per : {false, true})
    for (auto rc : std::vector<std::pair<int, int>>{{1, 4}, {4, 1}, {2, 2}, {1, 2}, {2, 1}, {1, 1}})
      if (scenario("all flips of ising2 " + num(rc.first) + "x" + num(rc.second), &rng)) { auto s = ising2(rng, rc.first, rc.second, per); all_flips(s); }
  for (int kind = 0; kind < 7; kind++)
    for (int n : {1, 2, 3, 4, 6, 9, 12, 16, 30, 64, 65, 132})
      for (int rep = 0; rep < (th ? 12 : 3); rep++)
        if (scenario("chain of kind " + num(kind) + " n=" + num(n), &rng)) {
          auto s = inc_inst(rng, kind, n);
          chain(s, rng, n <= 16 ? 30 : 12, rng.coin() ? 1 : -1);
        }
  for (bool per : {false, true})
    for (int nr = 1; nr <= 6; nr++)
      for (int nc = 1; nc <= 6; nc++)
        if (scenario("chain of ising2 " + num(nr) + "x" + num(nc), &rng)) { auto s = ising2(rng, nr, nc, per); chain(s, rng, 40); }
  for (bool per : {false, true})
    for (int rep = 0; rep < (th ? 20 : 4); rep++)
      if (scenario("chain of large ising2", &rng)) { auto s = ising2(rng, rng.in(1, 13), rng.in(7, 13), per); chain(s, rng, 10); }
}

// ------------------------------------------------------------------ C10
static std::string terms_js(const std::vector<WalshTerm>& ts, double unit = 1) {   // coefficients in a unit that is a power of two
  std::vector<std::string> l;
  for (auto& t : ts) { std::vector<int> u(t.feature.begin(), t.feature.end()); l.push_back("[" + arr(u) + "," + std::to_string(iv(t.coefficient / unit)) + "]"); }
  return list(l);
}
struct Table: Function {
  int n; std::vector<int> t; double unit = 1;
  Table(int n_, std::vector<int> t_) : n(n_), t(t_) {}
  int get_bv_size() const override { return n; }
  double evaluate(const bit_vector_t& x) override { return unit * t[bv_index(x)]; }
};
struct Sparse: Function {   // a few characters with integer amplitudes
  int n; std::vector<std::pair<bit_vector_t, int>> ts; double unit = 1;
  int get_bv_size() const override { return n; }
  double evaluate(const bit_vector_t& x) override {
    int v = 0; for (auto& t : ts) { int d = 0; for (int k = 0; k < n; k++) d ^= (x[k] & t.first[k]); v += d ? -t.second : t.second; } return unit * v;
  }
};
static void sparse(int n, int m, Rng& rng, bool slow) {
  Sparse f; f.n = n; f.unit = rng.coin() ? 1 : std::ldexp(1., rng.in(-60, 40)); std::set<bit_vector_t> seen; std::vector<std::string> js;
  while (int(f.ts.size()) < m) {
    bit_vector_t u = rng.bv(n); int k = rng.below(4);
    if (k == 0) { u.assign(n, 0); u[rng.below(n)] = 1; if (rng.coin()) u[rng.below(n)] = 1; } if (k == 1 && rng.below(3) == 0) u.assign(n, rng.below(2)); if (k == 2) { u.assign(n, 0); u[0] = u[n - 1] = 1; }
    if (!seen.insert(u).second) continue;
    int c = rng.in(1, 9); f.ts.push_back({u, rng.coin() ? c : -c}); js.push_back("[" + arr(std::vector<int>(u.begin(), u.end())) + "," + num(f.ts.back().second) + "]");
  }
  std::vector<WalshTerm> direct, fast; if (slow) compute_walsh_transform(&f, direct); compute_fast_walsh_transform(&f, fast);
  if (direct.size() > 60) direct.resize(60); if (fast.size() > 60) fast.resize(60);
  Obj("sparse").i("n", n).l("terms", js).b("slow", slow).raw("direct", terms_js(direct, f.unit)).raw("fast", terms_js(fast, f.unit)).emit();
}
static void walsh(Function *f, int n, Rng& rng, double unit = 1) {
  std::vector<WalshTerm> direct, fast;
  if (rng.coin()) { WalshTerm t; t.feature.assign(n, true); t.coefficient = 7; direct.push_back(t); fast.push_back(t); fast.push_back(t); }  // containers with leftovers
  compute_walsh_transform(f, direct); compute_fast_walsh_transform(f, fast);
  std::vector<int> ys, back; WalshExpansion e; if (fast.empty()) { WalshTerm t; t.feature.assign(n, false); t.coefficient = 0; e.set_terms({t}); } else e.set_terms(rng.coin() ? fast : direct);
  for (int u = 0; u < (1 << n); u++) { bit_vector_t x = bv_of(u, n); ys.push_back(iv(f->evaluate(x) / unit)); back.push_back(iv(e.evaluate(x) / unit)); }
  Obj("walsh").i("n", n).a("ys", ys).raw("direct", terms_js(direct, unit)).raw("fast", terms_js(fast, unit)).a("back", back).emit();
}
static void c10() {
  Rng rng(1); const bool th = ctx().thorough;
  for (int n = 1; n <= 2; n++) {   // all small tables
    int m = 1 << n, total = 1; for (int k = 0; k < m; k++) total *= 4;
    for (int c = 0; c < total; c += 32)
      if (scenario("tables n=" + num(n), &rng)) for (int u = c; u < std::min(total, c + 32); u++) { std::vector<int> t; int v = u; for (int k = 0; k < m; k++, v /= 4) t.push_back(std::vector<int>{0, 1, -1, 3}[v % 4]); Table f(n, t); walsh(&f, n, rng); }
  }
  for (int rep = 0; rep < (th ? 200 : 40); rep++)
    for (int n = 1; n <= 8; n++)
      if ((n <= 6 || rep % 20 == 0) && scenario("random table n=" + num(n), &rng)) {
        std::vector<int> t(1 << n, 0); int shape = rng.below(4);
        for (auto& v : t) v = shape == 0 ? rng.in(-9, 9) : shape == 1 ? rng.in(0, 1) : shape == 2 ? rng.in(0, 10000) : 0;
        if (shape == 3) { t[rng.below(t.size())] = rng.in(1, 5); if (rng.coin()) for (auto& v : t) v = 4; }
        Table f(n, t); f.unit = rng.coin() ? 1 : std::ldexp(1., rng.in(-60, 40)); walsh(&f, n, rng, f.unit);
      }
  for (int rep = 0; rep < (th ? 6 : 2); rep++)
    for (int n = 2; n <= (th ? 17 : 15); n++)
      if (scenario("characters n=" + num(n), &rng)) sparse(n, rng.in(1, std::min(6, (1 << n) - 1)), rng, n <= (th ? 12 : 11));
  for (int n = 1; n <= 5; n++)
    if (scenario("benchmarks n=" + num(n), &rng)) {
      std::vector<Inst> l = {make_simple("onemax", n), make_simple("leading", n), make_simple("needle", n), make_simple("ridge", n), walshexp(rng, n), walsh2(rng, n), linear(rng, n), ising1(rng, n, true)};
      for (auto& s : l) walsh(s.f.get(), n, rng);
    }
}

// ------------------------------------------------------------------ C09
static std::string hexd(double v) { char b[64]; std::snprintf(b, sizeof b, "%a", v); return b; }
static std::string behaviour(Function& f, int n, Rng rng) {   // same points for both objects
  std::vector<std::string> l;
  for (int k = 0; k < (n <= 5 ? 1 << n : 24); k++) {
    bit_vector_t x = n <= 5 ? bv_of(k, n) : rng.bv(n); double v = f.evaluate(x); l.push_back(quote(hexd(v)));
    if (f.provides_incremental_evaluation()) for (int j = 0; j < 2; j++) l.push_back(quote(hexd(f.evaluate_incrementally(x, v, random_flips(rng, n)))));
  }
  return list(l);
}
template<class F> static void trip(F& f, F& g, Rng& rng) {
  std::string p = rand_name(); f.save(p); g.load(p); 
  int n0 = f.get_bv_size(), n1 = g.get_bv_size(); Rng r2(rng.next());
  auto mx = [](Function& h) { return h.has_known_maximum() ? hexd(h.get_maximum()) : std::string("none"); };
  Obj("trip").i("size0", n0).i("size1", n1).b("inc0", f.provides_incremental_evaluation()).b("inc1", g.provides_incremental_evaluation())
    .b("known0", f.has_known_maximum()).b("known1", g.has_known_maximum()).str("max0", mx(f)).str("max1", mx(g))
    .raw("a", behaviour(f, n0, r2)).raw("b", n0 == n1 ? behaviour(g, n0, r2) : std::string("[]")).emit();
  // the file without its last token, or without its beginning, is not an instance
  std::ifstream is(p); std::stringstream ss; ss << is.rdbuf(); std::string all = ss.str();
  while (!all.empty() && std::isspace((unsigned char)all.back())) all.pop_back();
  auto cut = all.find_last_of(" \n");
  F h;
  auto refused = [&](const std::string& content) { write_file(p, content); bool ok = true; try { h.load(p); } catch (const std::runtime_error&) { ok = false; } Obj("refused").b("ok", ok).emit(); };
  refused(all.substr(0, cut)); refused(""); refused(all.substr(5)); refused("hello " + all);
  std::remove(p.c_str());
  bool ok = true; try { h.load("does-not-exist.txt"); } catch (const std::runtime_error&) { ok = false; } Obj("refused").b("ok", ok).emit();
  ok = true; try { f.save("no-such-directory/file"); } catch (const std::runtime_error&) { ok = false; } Obj("refused").b("ok", ok).emit();
}
template<class F> static void tripdef(Inst& s, Rng& rng) {
  F g; F *f = dynamic_cast<F *>(s.f.get());
  std::string p = rand_name(); f->save(p); g.load(p); std::remove(p.c_str());
  Inst t = s; t.f = FnPtr(new F(g)); values("tripdef", t, rng, 6);
}
template<class M> static void maptrip(M& f, M& g, Rng& rng) {
  std::string p = rand_name(); f.save(p); g.load(p); std::remove(p.c_str());
  std::vector<bit_vector_t> a, b; int n = f.get_input_size();
  for (int k = 0; k < (n <= 4 ? 1 << n : 16); k++) { bit_vector_t x = n <= 4 ? bv_of(k, n) : rng.bv(n), y(f.get_output_size()), z(g.get_output_size()); f.map(x, y); if (g.get_input_size() == n) g.map(x, z); a.push_back(y); b.push_back(z); }
  Obj("maptrip").i("inp0", n).i("inp1", g.get_input_size()).i("out0", f.get_output_size()).i("out1", g.get_output_size()).b("sur0", f.is_surjective()).b("sur1", g.is_surjective()).raw("a", vecs(a)).raw("b", vecs(b)).emit();
}

// text files described line by line
static void cnf_file(Rng& rng, bool nae, int fault) {
  const bool large = rng.below(4) == 0;
  int n = large ? rng.in(7, 150) : rng.in(nae ? 3 : 1, 5), m = large ? rng.in(1, 60) : rng.in(1, 5);
  std::vector<std::string> js; std::string txt;
  auto add = [&](const std::string& line, const std::string& j) { txt += line + "\n"; js.push_back(br(j)); };
  int where = rng.below(m);
  if (rng.coin()) add("c a comment p cnf 1 1", "\"k\":\"c\"");
  if (fault == 1) add("1 0", "\"k\":\"cl\",\"l\":[1],\"end\":true,\"junk\":false");
  auto pline = [&](int pn, int pm, bool ok, const std::string& word) { add("p " + word + " " + num(pn) + " " + num(pm), "\"k\":\"p\",\"ok\":" + std::string(ok ? "true" : "false") + ",\"n\":" + num(pn) + ",\"m\":" + num(pm)); };
  if (fault == 2) {}
  else if (fault == 3) pline(n, m, false, "sat");
  else if (fault == 4) pline(rng.in(-1, 0), m, true, "cnf");
  else if (fault == 5) pline(n, m + (rng.coin() ? 1 : -1), true, "cnf");
  else pline(n, m, true, "cnf");
  if (fault == 6) pline(n, m, true, "cnf");
  if (rng.coin()) add("", "\"k\":\"blank\"");
  if (fault != 2) for (int c = 0; c < m; c++) {
    std::vector<int> l; int k = nae ? 3 : large && rng.coin() ? rng.in(5, 40) : rng.in(0, 4);
    if (fault == 7 && c == where && nae) k = rng.coin() ? 2 : 4;
    for (int j = 0; j < k; j++) { int v = rng.in(1, n); l.push_back(rng.coin() ? v : -v); }
    bool end = true, junk = false;
    if (fault == 8 && c == where) { l.push_back(rng.coin() ? n + 1 : -n - 1); if (nae) l.erase(l.begin()); }
    if (fault == 9 && c == where) { end = false; if (l.empty()) l.push_back(1); }
    std::string line; for (int v : l) line += num(v) + (rng.coin() ? " " : "  ");
    if (fault == 10 && c == where) { junk = true; line += "x2 "; }
    if (end) line += "0"; if (rng.below(3) == 0) line = " " + line; if (rng.below(4) == 0) line += " ";
    add(line, "\"k\":\"cl\",\"l\":" + arr(l) + ",\"end\":" + (end ? "true" : "false") + ",\"junk\":" + (junk ? "true" : "false"));
    if (fault == 11 && c == where) add("  ", "\"k\":\"white\"");
    if (rng.below(5) == 0) add("c 1 0", "\"k\":\"c\"");
  }
  if (!txt.empty() && rng.coin()) txt.pop_back();
  std::string p = rand_name(); write_file(p, txt); bool ok = true; std::vector<int> ys; FnPtr f; AbstractMaxSat *a;
  if (nae) { auto *g = new MaxNae3Sat; f.reset(g); a = g; try { g->load(p); } catch (const std::runtime_error&) { ok = false; } }
  else { auto *g = new MaxSat; f.reset(g); a = g; if (rng.coin()) g->random(6, 2, 3); try { g->load(p); } catch (const std::runtime_error&) { ok = false; } }
  int fn = f->get_bv_size();
  if (ok && fn <= 6) for (int u = 0; u < (1 << fn); u++) ys.push_back(iv(f->evaluate(bv_of(u, fn))));
  std::remove(p.c_str()); (void)a;
  Obj o("cnf"); o.b("nae", nae).l("lines", js).b("ok", ok).i("n", fn);
  if (ok && fn > 6) { std::vector<bit_vector_t> xs; for (int k = 0; k < 8; k++) { xs.push_back(k == 0 ? bit_vector_t(fn, 0) : k == 1 ? bit_vector_t(fn, 1) : rng.bv(fn)); ys.push_back(iv(f->evaluate(xs.back()))); } o.raw("xs", vecs(xs)); }
  o.a("ys", ys).emit();
}
static void qubo_file(Rng& rng, int fault) {
  int dim = rng.below(5) == 0 ? rng.in(7, 24) : rng.in(1, 5); std::vector<std::string> js; std::string txt; std::vector<std::array<int, 3>> el;
  for (int i = 0; i < dim; i++) for (int j = i; j < dim; j++) if (rng.coin()) { int v = rng.in(1, 40); el.push_back({i, j, rng.coin() ? v : -v}); }
  if (el.empty()) el.push_back({0, 0, 3});
  for (size_t k = el.size() - 1; k > 0; k--) std::swap(el[k], el[rng.below(k + 1)]);
  int nd = 0, no = 0; for (auto& e : el) (e[0] == e[1] ? nd : no)++;
  auto add = [&](const std::string& line, const std::string& j) { txt += line + "\n"; js.push_back(br(j)); };
  auto elem = [&](int i, int j, int v, bool ok) { add(num(i) + " " + num(j) + " " + (ok ? num(v) : "abc"), "\"k\":\"el\",\"i\":" + num(i) + ",\"j\":" + num(j) + ",\"v\":" + num(v) + ",\"ok\":" + (ok ? "true" : "false")); };
  auto pline = [&](int z, int d, int a, int b, bool ok) { add(std::string("p ") + (ok ? "qubo " : "cnf ") + num(z) + " " + num(d) + " " + num(a) + " " + num(b), "\"k\":\"p\",\"zero\":" + num(z) + ",\"dim\":" + num(d) + ",\"nd\":" + num(a) + ",\"no\":" + num(b) + ",\"ok\":" + (ok ? "true" : "false")); };
  if (rng.coin()) add("c comment", "\"k\":\"c\"");
  if (fault == 1) elem(0, 0, 5, true);
  int where = rng.below(el.size());
  if (fault == 2) pline(1, dim, nd, no, true); else if (fault == 3) pline(0, -dim, nd, no, true); else if (fault == 4) pline(0, dim, nd + (rng.coin() ? 1 : -1), no, true);
  else if (fault == 5) pline(0, dim, nd, no + 1, true); else if (fault == 6) pline(0, dim, nd, no, false); else if (fault == 7) {} else pline(0, dim, nd, no, true);
  if (fault == 8) pline(0, dim, nd, no, true);
  if (fault != 7) for (size_t k = 0; k < el.size(); k++) {
    auto e = el[k];
    if (fault == 9 && int(k) == where) e[0] = e[1] = dim;
    if (fault == 10 && int(k) == where) e[2] = 0;
    if (fault == 11 && dim > 1 && int(k) == where) { e[0] = dim - 1; e[1] = 0; }
    elem(e[0], e[1], e[2], !(fault == 12 && int(k) == where));
    if (rng.below(4) == 0) add("", "\"k\":\"blank\"");
  }
  std::string p = rand_name(); write_file(p, txt); Qubo f; bool ok = true; std::vector<int> ys;
  if (rng.below(3) == 0) { std::string q = "prev-" + p; write_file(q, "p qubo 0 2 1 0\n0 0 5\n"); f.load(q); std::remove(q.c_str()); }
  try { f.load(p); } catch (const std::runtime_error&) { ok = false; }
  std::remove(p.c_str()); int n = f.get_bv_size();
  if (ok && n <= 6) for (int u = 0; u < (1 << n); u++) ys.push_back(iv(f.evaluate(bv_of(u, n))));
  Obj o("qubo"); o.l("lines", js).b("ok", ok).i("n", n);
  if (ok && n > 6) { std::vector<bit_vector_t> xs; for (int k = 0; k < 8; k++) { xs.push_back(k == 0 ? bit_vector_t(n, 0) : k == 1 ? bit_vector_t(n, 1) : rng.bv(n)); ys.push_back(iv(f.evaluate(xs.back()))); } o.raw("xs", vecs(xs)); }
  o.a("ys", ys).emit();
}
static void sudoku_file(Rng& rng, int fault) {
  int nl = fault == 1 ? rng.in(0, 8) : rng.in(9, 11), fill = rng.below(3); std::vector<std::vector<int>> L; std::string txt;
  int where = rng.below(9);
  for (int i = 0; i < nl; i++) {
    std::vector<int> l; std::string s; int len = fault == 2 && i == where ? rng.in(0, 8) : 9;
    for (int j = 0; j < len; j++) { int d = fill == 0 ? 0 : fill == 1 ? rng.in(0, 9) : rng.in(1, 9); char c = d ? '0' + d : '.'; if (fault == 3 && i == where && j == 4) { d = -1; c = "0x #"[rng.below(4)]; } l.push_back(d); s += c; }
    L.push_back(l); txt += s + "\n";
  }
  if (!txt.empty() && rng.coin()) txt.pop_back();
  std::string p = rand_name(); write_file(p, txt); Sudoku s; bool ok = true; if (rng.coin()) s.random(40);
  try { s.load(p); } catch (const std::runtime_error&) { ok = false; }
  Obj o("sudokufile"); o.raw("lines", mats(L)).b("ok", ok).i("nv", s.get_num_variables());
  if (ok && rng.coin()) { s.save(p); Sudoku t; t.load(p); int nv = t.get_num_variables(); sudoku_eval(o, t, nv, rng, 3); } // through a saved copy
  else sudoku_eval(o, s, ok ? s.get_num_variables() : 0, rng, ok ? 3 : 0);
  o.emit(); std::remove(p.c_str());
}
static void tsp_file(Rng& rng, int fault) {
  int dim = rng.below(6) == 0 ? rng.in(7, 30) : rng.in(1, 6); bool att = rng.coin(); std::string type = fault == 1 ? "GEO" : att ? "ATT" : "EUC_2D"; std::string txt; bool colon = rng.coin(); std::string c = colon ? ": " : " : ";
  txt += "NAME" + c + "t" + num(dim) + "\n"; if (rng.coin()) txt += "COMMENT" + c + "some cities: many\n";
  txt += "TYPE" + c + (fault == 2 ? "ATSP" : "TSP") + "\n";
  int ddim = fault == 3 ? 0 : dim; bool section = fault != 4;
  txt += "DIMENSION" + c + num(ddim) + "\nEDGE_WEIGHT_TYPE" + c + type + "\n";
  if (section) txt += "NODE_COORD_SECTION\n";
  auto order = rand_perm(rng, dim); std::vector<std::string> js; int where = rng.below(dim); int span = rng.coin() ? 5 : 90;
  if (section) for (int k = 0; k < dim; k++) {
    int i = order[k] + 1, x = rng.in(-span, span), y = rng.in(-span, span); bool ok = true;
    if (fault == 5 && k == where) continue;
    if (fault == 6 && k == where) i = rng.coin() ? 0 : dim + 1;
    if (fault == 7 && k == where) ok = false;
    txt += num(i) + " " + num(x) + " " + (ok ? num(y) : "abc") + "\n";
    js.push_back("{\"i\":" + num(i) + ",\"x\":" + num(x) + ",\"y\":" + num(y) + ",\"ok\":" + (ok ? "true" : "false") + "}");
  }
  if (rng.coin()) txt += "EOF\n";
  std::string p = rand_name(); write_file(p, txt); Tsp f; bool ok = true; if (rng.coin()) f.random(4);
  try { f.load(p); } catch (const std::runtime_error&) { ok = false; }
  std::remove(p.c_str());
  std::vector<std::vector<int>> ps; std::vector<int> ys;
  if (ok && f.get_num_elements() == dim) { ps = perms(rng, dim); for (auto& q : ps) ys.push_back(iv(f.evaluate(permutation_t(q.begin(), q.end())))); }
  Obj("tspfile").b("tsp", fault != 2).str("type", type).i("dim", ddim).b("section", section).l("nodes", js).b("ok", ok).i("size", ok ? f.get_num_elements() : 0).raw("perms", mats(ps)).a("ys", ys).emit();
}
static void factor_file(Rng& rng, int fault) {
  std::vector<int> d; std::string s; int v = rng.in(2, 3000);
  for (char c : std::to_string(v)) { d.push_back(c - '0'); s += c; }
  bool extra = false;
  if (fault == 1) { d.clear(); s = ""; } if (fault == 2) { d[rng.below(d.size())] = -1; for (size_t k = 0; k < d.size(); k++) if (d[k] < 0) s[k] = rng.coin() ? 'x' : '-'; }
  if (fault == 3) { extra = true; s += " 12"; } if (rng.coin()) s += "\n";
  std::string p = rand_name(); write_file(p, s); Factorization f; bool ok = true; try { f.load(p); } catch (const std::runtime_error&) { ok = false; }
  std::remove(p.c_str()); std::vector<int> ys; std::vector<bit_vector_t> xs;
  if (ok) for (int k = 0; k < 8; k++) { xs.push_back(rng.bv(f.get_bv_size())); ys.push_back(iv(f.evaluate(xs.back()))); }
  Obj("factorfile").a("digits", d).b("extra", extra).b("ok", ok).i("n", ok ? f.get_bv_size() : 0).raw("xs", vecs(xs)).a("ys", ys).emit();
}

static void c09() {
  Rng rng(1); const bool th = ctx().thorough; const int reps = th ? 60 : 10;
  for (int rep = 0; rep < reps; rep++)
    for (int n : {1, 2, 4, 5, 20, 66}) {
#define TRIP(T, CALL) if (scenario("save and load " #T " n=" + num(n), &rng)) { T f, g; if (rng.coin()) { int n_ = n; int n = rng.in(2, 6); (void)n_; T& f_ = g; auto call = [&](T& f) { CALL; }; call(f_); } CALL; trip(f, g, rng); }
      TRIP(LinearFunction, f.random(n))
      TRIP(Partition, f.random(n, 100))
      TRIP(EqualProducts, f.random(n))
      TRIP(WalshExpansion, f.random(n, n > 4 ? rng.in(1, 80) : 5))
      TRIP(WalshExpansion1, f.random(n))
      TRIP(WalshExpansion2, f.random(n))
      if (n > 1) TRIP(NkLandscape, f.random(n, n > 6 ? rng.in(1, 7) : n > 4 ? 2 : 1))
      TRIP(NearestNeighborIsingModel1, f.random(n); f.set_periodic_boundary_conditions(rng.coin()))
      TRIP(NearestNeighborIsingModel2, f.random(n > 6 ? 3 : n, n > 6 ? n / 3 : 1 + rng.below(2)); f.set_periodic_boundary_conditions(rng.coin()))
      if (scenario("reloaded definition n=" + num(n), &rng)) {
        auto a = linear(rng, n); tripdef<LinearFunction>(a, rng);
        auto b = walsh1(rng, n); tripdef<WalshExpansion1>(b, rng);
        auto c = walsh2(rng, std::min(n, 25)); tripdef<WalshExpansion2>(c, rng);
        auto d = ising1(rng, n, rng.coin()); tripdef<NearestNeighborIsingModel1>(d, rng);
        auto e = ising2(rng, n > 5 ? rng.in(1, 9) : 2, n > 5 ? rng.in(3, 9) : n, rng.coin()); tripdef<NearestNeighborIsingModel2>(e, rng);
        auto g = partition(rng, n); tripdef<Partition>(g, rng);
        auto h = walshexp(rng, n); tripdef<WalshExpansion>(h, rng);
        if (n > 1) { auto k = nk(rng, n, n > 5 ? rng.in(1, 4) : 1); tripdef<NkLandscape>(k, rng); }
        auto *ms = new MaxSat; ms->random(n, rng.in(1, n), n > 5 ? rng.in(1, 40) : 6); auto m = sat_inst(FnPtr(ms), *ms, false); tripdef<MaxSat>(m, rng);
        if (n < 7) { auto q = products(rng, n); tripdef<EqualProducts>(q, rng); }
      }
      if (scenario("maps n=" + num(n), &rng)) {
        int m = rng.in(1, n > 8 ? 12 : 5);
        { map::Translation f, g; if (rng.coin()) g.random(rng.in(1, 6)); f.random(n); maptrip(f, g, rng); }
        { map::Permutation f, g; if (rng.coin()) g.random(rng.in(1, 6)); f.random(n); maptrip(f, g, rng); }
        { map::LinearMap f, g; if (rng.coin()) g.random(3, 2, false); f.random(m, n, false); maptrip(f, g, rng); }
        { map::AffineMap f, g; if (rng.coin()) g.random(3, 2, false); f.random(m, n, m <= n && rng.coin()); maptrip(f, g, rng); }
        if (n > 1) { map::TsAffineMap f, g; if (rng.coin()) g.random(3, 2, 0); f.random(n, rng.in(1, 5), 0); maptrip(f, g, rng); }
      }
    }
  for (int rep = 0; rep < 2 * reps; rep++) {
    for (int nae = 0; nae < 2; nae++) for (int fault = 0; fault <= 11; fault++) if (scenario("cnf file fault " + num(fault), &rng)) { cnf_file(rng, nae, fault); cnf_file(rng, nae, 0); }
    for (int fault = 0; fault <= 12; fault++) if (scenario("qubo file fault " + num(fault), &rng)) { qubo_file(rng, fault); qubo_file(rng, 0); }
    for (int fault = 0; fault <= 3; fault++) if (scenario("sudoku file fault " + num(fault), &rng)) sudoku_file(rng, fault);
    for (int fault = 0; fault <= 7; fault++) if (scenario("tsp file fault " + num(fault), &rng)) { tsp_file(rng, fault); tsp_file(rng, 0); }
    for (int fault = 0; fault <= 3; fault++) if (scenario("factorization file fault " + num(fault), &rng)) factor_file(rng, fault);
  }
}

// ------------------------------------------------------------------ C05
struct Tree { Function *f; std::string js; };
struct Pool { std::vector<std::shared_ptr<Function>> fs; std::vector<std::shared_ptr<map::Map>> ms; };
static Inst base(Rng& rng, int n) {
  switch (rng.below(9)) {
  case 0: return make_simple("onemax", n);
  case 1: return make_simple("leading", n);
  case 2: return linear(rng, n);
  case 3: return walsh1(rng, n);
  case 4: return ising1(rng, n, rng.coin());
  case 5: return make_simple("needle", n);
  case 6: return make_simple("jump", n, rng.in(1, 3));
  case 7: return partition(rng, n);
  default: return make_simple("ridge", n);
  }
}
static Tree wrap(Pool& pool, Tree t, int op, Rng& rng) {
  auto keep = [&](Function *f) { pool.fs.emplace_back(f); return f; };
  int n = t.f->get_bv_size();
  auto node = [&](const std::string& o, const std::string& more = "") { return "{\"op\":\"" + o + "\",\"a\":" + t.js + more + "}"; };
  switch (op) {
  case 0: return {keep(new OppositeFunction(t.f)), node("neg")};
  case 1: { static const char *ex[] = {"x", "2*x+1", "-x", "max(x,3)", "abs(x)-7", "x>2"};
      std::string e = ex[rng.below(6)]; std::string src = e == "x>2" ? "if(x>2,1,0)" : e;
      return {keep(new ParsedModifier(t.f, src)), node("expr", ",\"k\":\"" + e + "\"")}; }
  case 2: {
      int m = n > 5 ? rng.in(1, 60) : rng.in(1, 5), kind = rng.below(5); map::Map *mp;
      if (kind == 0) { auto *a = new map::Translation; a->random(n); mp = a; m = n; }
      else if (kind == 1) { auto *a = new map::Permutation; a->random(n); mp = a; m = n; }
      else if (kind == 2) { auto *a = new map::LinearMap; a->random(n, m, false); mp = a; }
      else if (kind == 3) { auto *a = new map::AffineMap; a->random(n, m, m >= n && rng.coin()); mp = a; }
      else { m = n + rng.below(2); std::vector<int> pos; for (int k = 0; k < m; k++) pos.push_back(k); for (int k = m - 1; k > 0; k--) std::swap(pos[k], pos[rng.below(k + 1)]); pos.resize(n); mp = new map::Projection(pos, m); }
      pool.ms.emplace_back(mp);
      bit_vector_t b(n); mp->map(bit_vector_t(m, 0), b); std::vector<std::vector<int>> M(n, std::vector<int>(m));
      for (int k = 0; k < m; k++) { bit_vector_t e(m, 0), y(n); e[k] = 1; mp->map(e, y); for (int j = 0; j < n; j++) M[j][k] = y[j] ^ b[j]; }
      return {keep(new FunctionMapComposition(t.f, mp)), node("map", ",\"m\":{\"M\":" + mats(M) + ",\"b\":" + arr(b) + ",\"cols\":" + num(m) + ",\"sur\":" + (mp->is_surjective() ? "true" : "false") + "}")}; }
  case 3: return {keep(new CallCounter(t.f)), node("ctl")};
  case 4: return {keep(new OnBudgetFunction(t.f, 1000000)), node("ctl")};
  case 5: return {keep(new ProgressTracker(t.f)), node("ctl")};
  case 6: return {keep(new StopOnTarget(t.f, 1e9)), node("ctl")};
  default: return {keep(new Cache(t.f)), node("cache")};
  }
}
static void tree(Rng& rng, const std::vector<int>& ops, Inst b) {
  Pool pool; Tree t = {b.f.get(), "{\"op\":\"base\",\"f\":" + b.js + "}"};
  for (int o : ops) t = wrap(pool, t, o, rng);
  int n = t.f->get_bv_size(); std::vector<int> ys, safe; std::vector<std::string> incs;
  bool known = t.f->has_known_maximum(), threw = false; double m = 0;
  try { m = t.f->get_maximum(); } catch (const std::runtime_error&) { threw = true; }
  std::vector<bit_vector_t> xs;
  if (n <= 5) for (int u = 0; u < (1 << n); u++) xs.push_back(bv_of(u, n));
  else for (int k = 0; k < 20; k++) xs.push_back(k == 0 ? bit_vector_t(n, 0) : k == 1 ? bit_vector_t(n, 1) : rng.bv(n));
  for (auto& x : xs) { ys.push_back(iv(t.f->evaluate(x))); safe.push_back(iv(t.f->evaluate_safely(x))); }
  bool inc = t.f->provides_incremental_evaluation();
  if (inc) for (int k = 0; k < 8; k++) {
    bit_vector_t x = rng.bv(n); double v = t.f->evaluate(x); auto F = random_flips(rng, n); int r;
    try { r = iv(t.f->evaluate_incrementally(x, v, F)); } catch (const std::runtime_error&) { r = BAD; }
    incs.push_back("[" + arr(x) + "," + num(iv(v)) + "," + arr(F) + "," + num(r) + "]");
  }
  Obj o("tree"); if (n > 5) o.raw("xs", vecs(xs));
  o.raw("t", t.js).i("n", n).a("ys", ys).a("safe", safe).b("known", known).b("threw", threw).d("max", m).b("inc", inc).l("incs", incs).emit();
}
static void c05() {
  Rng rng(1); const bool th = ctx().thorough;
  // every nesting of two wrappers over every base
  for (int a = 0; a < 8; a++)
    for (int b = 0; b < 8; b++)
      for (int rep = 0; rep < (th ? 20 : 4); rep++)
        if (scenario("wrappers " + num(a) + " " + num(b), &rng)) { tree(rng, {a}, base(rng, rng.in(1, 4))); tree(rng, {a, b}, base(rng, rng.in(1, 4))); }
  for (int rep = 0; rep < (th ? 1500 : 200); rep++)
    if (scenario("random nesting", &rng)) { std::vector<int> ops; int h = rng.in(1, 5); for (int k = 0; k < h; k++) ops.push_back(rng.below(8)); tree(rng, ops, base(rng, rng.in(1, 4))); }
  for (int rep = 0; rep < (th ? 600 : 80); rep++)
    if (scenario("large nesting", &rng)) { std::vector<int> ops; int h = rng.in(1, 7); for (int k = 0; k < h; k++) ops.push_back(rng.below(8)); tree(rng, ops, base(rng, rng.in(6, 70))); }
  for (int rep = 0; rep < (th ? 60 : 12); rep++)
    for (int kind = 0; kind < 4; kind++)
      if (scenario("prior noise " + num(kind), &rng)) {
        int n = rng.in(1, 4), r = rng.in(1, n), lo = 1, hi = 1; std::shared_ptr<neighborhood::Neighborhood> nb; auto b = base(rng, n);
        if (kind == 0) nb.reset(new neighborhood::SingleBitFlip(n));
        if (kind == 1) { nb.reset(new neighborhood::HammingBall(n, r)); hi = r; }
        if (kind == 2) { nb.reset(new neighborhood::HammingSphere(n, r)); lo = hi = r; }
        if (kind == 3) { auto *m = new neighborhood::StandardBitMutation(n, 0.4); nb.reset(m); hi = n; if (rng.coin()) { m->set_allow_no_mutation(true); lo = 0; } }
        PriorNoise f(b.f.get(), nb.get()); bit_vector_t x = rng.bv(n), y(x); std::set<int> seen;
        for (int k = 0; k < 4000; k++) seen.insert(iv(f.evaluate(y)));
        if (y != x) seen.insert(BAD);
        Obj("prior").raw("f", b.js).i("n", n).a("x", x).i("lo", lo).i("hi", hi).a("seen", std::vector<int>(seen.begin(), seen.end())).b("inc", f.provides_incremental_evaluation()).b("known", f.has_known_maximum()).d("max", f.has_known_maximum() ? f.get_maximum() : 0).i("size", f.get_bv_size()).emit();
      }
  for (int rep = 0; rep < 6; rep++)
    if (scenario("gaussian noise", &rng)) {
      auto b = base(rng, rng.in(1, 5)); bit_vector_t x = rng.bv(b.n); double sd = rng.coin() ? 1.0 : 0.5; AdditiveGaussianNoise f(b.f.get(), sd);
      double s = 0, q = 0, v0 = b.f->evaluate(x); const int N = 4000; for (int k = 0; k < N; k++) { double d = f.evaluate(x) - v0; s += d; q += d * d; }
      double mean = s / N; Obj("gauss").raw("f", b.js).a("x", x).i("mean", long(std::floor(100 * (v0 + mean) + 0.5))).i("sd", long(100 * std::sqrt(q / N - mean * mean))).i("stddev", long(100 * sd)).b("inc", f.provides_incremental_evaluation()).b("known", f.has_known_maximum()).i("size", f.get_bv_size()).emit();
    }
  for (int rep = 0; rep < 4; rep++)
    if (scenario("incompatible map or expression", &rng)) {
      OneMax f(4); map::Translation t; t.random(rep == 0 ? 3 : 5); bool threw = false; try { FunctionMapComposition c(&f, &t); } catch (const std::runtime_error&) { threw = true; } Obj("badmap").b("threw", threw).emit();
      threw = false; try { ParsedModifier p(&f, std::vector<std::string>{"x+", "y", "2*(x", ""}[rep]); } catch (const std::runtime_error&) { threw = true; } Obj("badexpr").b("threw", threw).emit();
    }
}

int main(int argc, char *argv[]) {
  init(argc, argv);
  auto& m = ctx().mode;
  if (m == "C05") c05(); if (m == "C06") c06(); if (m == "C07") c07(); if (m == "C08") c08(); if (m == "C09") c09(); if (m == "C10") c10();
  return finish();
}
