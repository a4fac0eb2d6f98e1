// Representations (C16), adapters, parsed functions and declarations (C17).
#include <algorithm>
#include <complex>
#include <fstream>
#include <iostream>
#include <memory>
#include "emit.hh"
#include "fparser/fparser.hh"
#include "fparser/extrasrc/fptypes.hh"
#include "hnco/permutation.hh"
#include "hnco/util.hh"
#include "hnco/exception.hh"
#include "hnco/representations/all.hh"
#include "hnco/functions/all.hh"
#include "hnco/functions/converter.hh"
#include "hnco/functions/multivariate-function-adapter.hh"
#include "hnco/functions/permutation-function-adapter.hh"
#include "hnco/functions/multiobjective-function-adapter.hh"
#include "hnco/functions/universal-function-adapter.hh"
#include "hnco/multiobjective/functions/all.hh"
#include "hnco/app/parser.hh"
#include "hnco/app/make-multivariate-function-adapter.hh"

using namespace hnco;
using namespace hnco::representation;
using namespace hnco::function;
using namespace vf;

typedef unsigned long ul;
static std::vector<int> bits(ul v, int len) { std::vector<int> b; for (int k = 0; k < len; k++) b.push_back((v >> k) & 1); return b; }
static int blen(ul v) { int k = 0; while (v) { k++; v >>= 1; } return k; }

// decode the same slice alone, and inside two different bit vectors: the surroundings must not matter
template<class Rep> static auto decode(Rep& rep, const bit_vector_t& s, Rng& rng, bool& stable) {
  auto v = rep.unpack(s, 0);
  for (int k = 0; k < 2; k++) {
    int before = rng.below(9), after = rng.below(5);
    bit_vector_t x = rng.bv(before + s.size() + after);
    std::copy(s.begin(), s.end(), x.begin() + before);
    bit_vector_t y(x);
    if (rep.unpack(x, before) != v || x != y) stable = false;
  }
  return v;
}

// ------------------------------------------------------------------ C16
template<class T> static void int_rep(DyadicIntegerRepresentation<T>& rep, T a, T b, const std::string& how, long arg, Rng& rng) {
  ul D = ul(b) - ul(a); int ex = blen(D), n = rep.size();
  Obj("isize").a("D", bits(D, ex)).str("how", how).i("arg", arg).i("size", n).emit();
  if (n < 1 || n > ex) return;
  bool stable = true;
  auto val = [&](const bit_vector_t& s) -> ul { T v = decode(rep, s, rng, stable); return stable && v >= a && v <= b ? ul(v) - ul(a) : D + 1; };
  if (n <= 7) {
    std::vector<int> vals; bool small = ex <= 28;
    for (ul u = 0; u < (1UL << n); u++) {
      ul v = val(bv_of(u, n));
      if (small) vals.push_back(v > D ? BAD : int(v));
      else Obj("idec").a("D", bits(D, ex)).a("bits", bv_of(u, n)).a("res", v > D ? std::vector<int>{9} : bits(v, ex)).emit();
    }
    if (small) Obj("itab").a("D", bits(D, ex)).i("size", n).a("vals", vals).emit();
  } else
    for (int k = 0; k < 12; k++) {
      bit_vector_t s = k == 0 ? bit_vector_t(n, 0) : k == 1 ? bit_vector_t(n, 1) : rng.bv(n);
      if (k == 2 || k == 3 || k == 4) { ul t = (D >> (ex - n)); t = k == 2 ? t : k == 3 ? t + 1 : t - 1; if (blen(t) <= n) s = bv_of(t, n); }
      ul v = val(s);
      Obj("idec").a("D", bits(D, ex)).a("bits", s).a("res", v > D ? std::vector<int>{9} : bits(v, ex)).emit();
    }
}
template<class T> static void int_all(T a, T b, Rng& rng, const char *what) {
  ul D = ul(b) - ul(a); int ex = blen(D);
  if (scenario(std::string(what) + " [" + num(a) + ".." + num(b) + "]", &rng)) { DyadicIntegerRepresentation<T> r(a, b); int_rep<T>(r, a, b, "full", 0, rng); }
  for (int s : {1, 2, 3, ex - 1, ex, ex + 1, ex + 5})
    if (s > 0 && s < int(sizeof(T) * 8) && scenario(std::string(what) + " size", &rng)) { DyadicIntegerRepresentation<T> r(a, b, s); int_rep<T>(r, a, b, "size", s, rng); }
  for (int p : {1, 2, 3, 4, 5, 7, 8, 9, 16, 100, 1024, 65536, 1 << 29})
    if (scenario(std::string(what) + " precision", &rng)) {
      DyadicIntegerRepresentation<T> r(a, b, typename DyadicIntegerRepresentation<T>::Precision(p));
      if (ex - r.size() <= 29) int_rep<T>(r, a, b, "precision", p, rng); else Obj("isize").a("D", bits(D, ex)).str("how", "none").i("size", r.size()).emit();
    }
}
template<class T> static void float_exact(int a, int L, int n, Rng& rng) {
  DyadicFloatRepresentation<T> rep(T(a), T(a + L), n);
  bool stable = true; double sc = std::ldexp(1.0, n);
  auto val = [&](const bit_vector_t& s) { double v = decode(rep, s, rng, stable); return stable && rep.size() == n ? iv(v, sc) : BAD; };
  if (n <= 6) { std::vector<int> vals; for (ul u = 0; u < (1UL << n); u++) vals.push_back(val(bv_of(u, n))); Obj("ftab").i("a", a).i("l", L).i("size", n).a("vals", vals).emit(); }
  else for (int k = 0; k < 10; k++) { bit_vector_t s = k == 0 ? bit_vector_t(n, 0) : k == 1 ? bit_vector_t(n, 1) : rng.bv(n); Obj("fdec").i("a", a).i("l", L).a("bits", s).i("val", val(s)).emit(); }
}
template<class T> static void float_rank(T a, T b, int n) {
  DyadicFloatRepresentation<T> rep(a, b, n);
  std::vector<T> v; for (ul u = 0; u < (1UL << n); u++) { bit_vector_t s(n); for (int k = 0; k < n; k++) s[k] = (u >> (n - 1 - k)) & 1; v.push_back(rep.unpack(s, 0)); }
  std::vector<T> all(v); all.push_back(a); all.push_back(b); std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
  auto rank = [&](T x) { return int(std::lower_bound(all.begin(), all.end(), x) - all.begin()); };
  std::vector<int> r; for (T x : v) r.push_back(x == x ? rank(x) : BAD);
  Obj("frank").i("lower", rank(a)).i("upper", rank(b)).a("vals", r).emit();
}
template<class Rep> static void cat_rep(int n, bool linear, Rng& rng) {
  Rep rep(n); int s = rep.size(); bool stable = true;
  std::vector<int> vals; for (ul u = 0; u < (1UL << s); u++) { ul v = decode(rep, bv_of(u, s), rng, stable); vals.push_back(stable ? int(v) : BAD); }
  Obj("ctab").i("n", n).b("linear", linear).i("size", s).a("vals", vals).emit();
}
static void c16() {
  Rng rng(1); const bool th = ctx().thorough;
  for (int D = 1; D <= (th ? 70 : 20); D++) for (int a : {0, -D, -3, 100}) int_all<int>(a, a + D, rng, "int");
  for (int D : {31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 65535, (1 << 20) - 1, (1 << 29) - 1, 1 << 29, (1 << 30) - 1, 1 << 30, 2147483647})
    for (int a : {0, -1, -(D / 2), -D}) if (a + (long)D <= 2147483647L) int_all<int>(a, a + D, rng, "int");
  for (long D : {1L, 3L, 1000L, (1L << 29) - 1, (1L << 31) - 1, 1L << 31, (1L << 32) - 1, 1L << 40, (1L << 47) + 12345, (1L << 53) - 1, (1L << 53), (1L << 60) + 1, (1L << 62), 9223372036854775807L})
    for (long a : {0L, -(D / 2), -D}) int_all<long>(a, a + D, rng, "long");
  for (int n : {2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31, 33, 64, 65, 100})
    if (scenario("integers below " + num(n), &rng)) { DyadicIntegerRepresentation<int> r(n); int_rep<int>(r, 0, n - 1, "full", 0, rng); }
  for (int k = 0; k < (th ? 400 : 60); k++)
    if (scenario("random interval", &rng)) {
      int D = rng.in(1, 1 << rng.in(1, 24)), a = rng.in(-100000, 100000), s = rng.in(1, 26);
      DyadicIntegerRepresentation<int> r(a, a + D, s); int_rep<int>(r, a, a + D, "size", s, rng);
    }
  for (int n = 1; n <= 16; n++) for (auto al : std::vector<std::pair<int, int>>{{0, 1}, {-1, 2}, {3, 5}, {-7, 7}, {-64, 128}})
    if (scenario("float size " + num(n), &rng)) { float_exact<double>(al.first, al.second, n, rng); if (n <= 12) float_exact<float>(al.first, al.second, n, rng); }
  for (int n = 1; n <= (th ? 11 : 8); n++) if (scenario("float ranks", &rng)) {
    float_rank<double>(-0.1, 0.2, n); float_rank<double>(1e-9, 3e-9, n); float_rank<float>(0.1f, 0.7f, n); float_rank<double>(-1e300, 1e299, n); float_rank<double>(-5.12, 5.12, n);
  }
  for (int L : {1, 2, 3, 10, 64, 100}) for (auto p : std::vector<std::pair<int, int>>{{1, 2}, {1, 3}, {1, 4}, {1, 10}, {1, 100}, {1, 1000}, {3, 1000}, {1, 1024}, {1, 65536}, {1, 3000000}})
    if (p.first < L * p.second && scenario("float precision", &rng)) {
      DyadicFloatRepresentation<double> rep(-1.0, -1.0 + L, double(p.first) / p.second);
      Obj("fsize").i("l", L).i("num", p.first).i("den", p.second).i("size", rep.size()).emit();
      if (rep.size() <= 8) float_exact<double>(-1, L, rep.size(), rng);
    }
  for (int n = 2; n <= (th ? 16 : 13); n++) if (scenario("linear categories " + num(n), &rng)) cat_rep<LinearCategoricalRepresentation>(n, true, rng);
  for (int n : {2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 1000}) if (scenario("integer categories " + num(n), &rng)) cat_rep<IntegerCategoricalRepresentation>(n, false, rng);
  for (int n : {1025, 4096, 5000, 65535, 65536, 65537, 100000, 300000}) if (scenario("many integer categories " + num(n), &rng)) {
    IntegerCategoricalRepresentation rep(n); int s = rep.size(); bool stable = s <= 20; std::set<ul> seen; std::vector<int> some; ul top = 0;
    for (ul u = 0; stable && u < (1UL << s); u++) { ul v = rep.unpack(bv_of(u, s), 0); seen.insert(v); top = std::max(top, v); }
    for (int k = 0; k < 20; k++) { ul v = decode(rep, rng.bv(s), rng, stable); some.push_back(stable ? int(v) : BAD); }
    Obj("cbig").i("n", n).i("size", s).i("different", seen.size()).i("top", long(top)).a("some", some).emit();
  }
  for (int n : {17, 31, 32, 33, 64, 100, 127, 128, 129, 256}) if (scenario("many linear categories " + num(n), &rng)) {
    LinearCategoricalRepresentation rep(n); int s = rep.size(); bool stable = true;
    std::vector<int> unit, vx, vy, vz;
    auto val = [&](const bit_vector_t& x) { ul v = decode(rep, x, rng, stable); return stable ? int(v) : BAD; };
    int zero = val(bit_vector_t(s, 0));
    for (int k = 0; k < s; k++) { bit_vector_t x(s, 0); x[k] = 1; unit.push_back(val(x)); }
    for (int k = 0; k < 40; k++) { bit_vector_t x = rng.bv(s), y = rng.bv(s), z(x); for (int j = 0; j < s; j++) z[j] ^= y[j]; vx.push_back(val(x)); vy.push_back(val(y)); vz.push_back(val(z)); }
    Obj("clin").i("n", n).i("size", s).i("zero", zero).a("unit", unit).a("vx", vx).a("vy", vy).a("vz", vz).emit();
  }
  std::vector<int> vns; for (int n = 2; n <= (th ? 40 : 20); n++) vns.push_back(n);
  for (int n : {64, 100, 127, 128, 129, 200, 256, 257, 300}) vns.push_back(n);
  for (int n : vns) if (scenario("value set " + num(n), &rng)) {
    std::vector<double> vs; std::vector<int> is; for (int k = 0; k < n; k++) { int v = rng.in(-50 - 20 * n * (n > 40), 50 + 20 * n * (n > 40)); is.push_back(v); vs.push_back(v / 4.0); }
    ValueSetRepresentation<double> rep(vs); bool stable = true; int s = rep.size(); std::vector<int> vals;
    for (ul u = 0; u < (1UL << s); u++) { double v = decode(rep, bv_of(u, s), rng, stable); vals.push_back(stable ? iv(v, 4) : BAD); }
    Obj("vtab").a("values", is).i("size", s).a("vals", vals).emit();
  }
  auto perm_dec = [&](PermutationRepresentation& rep, int n, int extra, const bit_vector_t& s) {
    int before = rng.below(7), after = rng.below(4); bit_vector_t x = rng.bv(before + s.size() + after);
    std::copy(s.begin(), s.end(), x.begin() + before);
    permutation_t p(n); rep.unpack(x, before, p);
    Obj("perm").i("n", n).i("extra", extra).i("size", rep.size()).a("bits", s).a("p", p).emit();
  };
  for (int n = 1; n <= 3; n++) for (int extra : {1, 2}) if (scenario("all permutation keys " + num(n), &rng)) {
    PermutationRepresentation rep(n, extra); int s = rep.size(); if (s > 10) s = 0;
    for (ul u = 0; u < (1UL << s); u++) if (s) perm_dec(rep, n, extra, bv_of(u, s));
  }
  for (int n : {2, 3, 5, 9}) for (int extra : {13, 15, 16, 20, 24, 26}) if (scenario("permutation of " + num(n) + " with long keys", &rng)) {
    PermutationRepresentation rep(n, extra); int es = rep.size() / n;
    for (int k = 0; k < 12; k++) { bit_vector_t s = rng.bv(rep.size()); if (k > 5) for (int e = 0; e < n; e++) for (int j = 0; j < es - 3; j++) s[e * es + j] = k > 8; perm_dec(rep, n, extra, s); }
  }
  for (int n : {70, 100, 128, 129}) if (scenario("permutation of " + num(n), &rng)) { PermutationRepresentation rep(n, 2); for (int k = 0; k < 2; k++) perm_dec(rep, n, 2, rng.bv(rep.size())); }
  for (int n : {2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 33, 40}) for (int extra : {1, 3, 8}) if (scenario("permutation of " + num(n), &rng)) {
    PermutationRepresentation rep(n, extra);
    for (int k = 0; k < (n < 10 ? 12 : 4); k++) perm_dec(rep, n, extra, k == 0 ? bit_vector_t(rep.size(), 0) : k == 1 ? bit_vector_t(rep.size(), 1) : rng.bv(rep.size()));
  }
}

// ------------------------------------------------------------------ C17
// A representation with its description for the specification.
struct FloatP { int a, l, size; std::string js() const { return "{\"k\":\"float\",\"a\":" + num(a) + ",\"l\":" + num(l) + ",\"size\":" + num(size) + "}"; } DyadicFloatRepresentation<double> rep() const { return {double(a), double(a + l), size}; } };
struct IntP { int a, b, size; std::string js() const { return "{\"k\":\"int\",\"a\":" + num(a) + ",\"b\":" + num(b) + ",\"size\":" + num(size) + "}"; } };
static FloatP rnd_float(Rng& rng) { return {rng.in(-9, 9), rng.in(1, 12), rng.in(1, 6)}; }
static IntP rnd_int(Rng& rng) { int a = rng.in(-30, 30); return {a, a + rng.in(1, rng.coin() ? 9 : 60), rng.coin() ? 30 : rng.in(1, 7)}; }
static std::string cj(FloatP r, FloatP i) { return "{\"k\":\"complex\",\"re\":" + r.js() + ",\"im\":" + i.js() + "}"; }
static std::string setjs(const std::vector<int>& v) { return "{\"k\":\"set\",\"v\":" + arr(v) + "}"; }

template<class D> struct Show;
template<> struct Show<double> { static std::string js(double v) { return num(iv(v, 64)); } };
template<> struct Show<long> { static std::string js(long v) { return num(v * 64); } };
template<> struct Show<int> { static std::string js(int v) { return num(v * 64); } };
template<> struct Show<size_t> { static std::string js(size_t v) { return num(v); } };
template<> struct Show<std::complex<double>> { static std::string js(std::complex<double> v) { return "[" + num(iv(v.real(), 64)) + "," + num(iv(v.imag(), 64)) + "]"; } };

// A function that records what it is given.
template<class D> struct Recorder {
  using domain_type = D;
  using codomain_type = double;
  int n; std::vector<D> seen, described; double ret = 0; int calls = 0;
  int get_num_variables() { return n; }
  double evaluate(const std::vector<D>& v) { seen = v; ret = ++calls * 7 - 20; return ret; }
  void display(std::ostream&) const {}
  void describe(const std::vector<D>& v, std::ostream&) { described = v; }
};
template<class D> struct MoRecorder: Recorder<D> {
  std::vector<double> out;
  int get_output_size() const { return 3; }
  void evaluate(const std::vector<D>& v, std::vector<double>& r) { Recorder<D>::evaluate(v); r = {this->ret, -2 * this->ret, this->ret + 5}; out = r; }
};
template<class D> static std::string shows(const std::vector<D>& v) { std::vector<std::string> l; for (auto& x : v) l.push_back(Show<D>::js(x)); return list(l); }
static std::string ints_js(const std::vector<double>& v) { std::vector<std::string> l; for (double x : v) l.push_back(num(iv(x))); return list(l); }

template<class D, class A, class R> static void run_adapter(A& ad, R& fn, const std::vector<std::string>& js, Rng& rng, int reps = 4) {
  std::ostringstream os;
  for (int k = 0; k < reps; k++) {
    bit_vector_t x = rng.bv(ad.get_bv_size()), y(x); double v = ad.evaluate(x); auto s = fn.seen;
    ad.describe(x, os);
    Obj("adapt").l("reps", js).a("bv", y).i("size", ad.get_bv_size()).raw("vars", shows(s)).raw("desc", shows(fn.described)).raw("values", "[" + num(iv(v)) + "]").raw("returned", "[" + num(iv(fn.ret)) + "]").emit();
  }
}
template<class D, class A, class R> static void run_mo(A& ad, R& fn, const std::vector<std::string>& js, Rng& rng) {
  std::ostringstream os; MultiobjectiveFunctionAdapter sum(&ad);
  for (int k = 0; k < 4; k++) {
    bit_vector_t x = rng.bv(ad.get_bv_size()); std::vector<double> v(3); ad.evaluate(x, v); auto s = fn.seen, o = fn.out;
    ad.describe(x, os);
    Obj("adapt").l("reps", js).a("bv", x).i("size", ad.get_bv_size()).raw("vars", shows(s)).raw("desc", shows(fn.described)).raw("values", ints_js(v)).raw("returned", ints_js(o)).emit();
    // the sum of the objectives
    double t = sum.evaluate(x); s = fn.seen; double e = fn.out[0] + fn.out[1] + fn.out[2];
    Obj("adapt").l("reps", js).a("bv", x).i("size", sum.get_bv_size()).raw("vars", shows(s)).raw("desc", shows(s)).raw("values", "[" + num(iv(t)) + "]").raw("returned", "[" + num(iv(e)) + "]").emit();
  }
}

struct URec: UniversalFunction {
  std::vector<std::string> v; double ret = 0; int calls = 0;
  static std::vector<std::string> all(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& c, const std::vector<int>& k, const std::vector<permutation_t>& p) {
    std::vector<std::string> v;
    for (auto x : b) v.push_back(num(int(x))); for (auto x : i) v.push_back(num(x * 64)); for (auto x : f) v.push_back(num(iv(x, 64)));
    for (auto x : c) v.push_back(Show<std::complex<double>>::js(x)); for (auto x : k) v.push_back(num(x)); for (auto& x : p) v.push_back(arr(x));
    return v;
  }
  double evaluate(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& c, const std::vector<int>& k, const std::vector<permutation_t>& p) override { v = all(b, i, f, c, k, p); return ret = ++calls * 3 - 5; }
};
struct MURec: hnco::multiobjective::function::UniversalFunction {
  std::vector<std::string> v; std::vector<double> ret; int calls = 0;
  int get_output_size() const override { return 2; }
  void evaluate(const bit_vector_t& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& c, const std::vector<int>& k, const std::vector<permutation_t> p, hnco::multiobjective::function::value_t& out) override { v = URec::all(b, i, f, c, k, p); calls++; out[0] = calls; out[1] = 10 - calls; ret = {out[0], out[1]}; }
};
// printed with six digits: the multiple of 1/64 it stands for
static int near64(double v) { double w = std::floor(v * 64 + 0.5); return std::fabs(w - v * 64) < 0.05 ? iv(w) : BAD; }
// numbers of the description, section by section
static std::vector<std::string> parse_desc(const std::string& text) {
  std::vector<std::string> v; std::istringstream is(text); std::string line;
  while (std::getline(is, line)) {
    auto p = line.find("] = "); if (p == std::string::npos) continue;
    std::string t = line.substr(p + 4);
    if (line.compare(0, 7, "boolean") == 0 || line.compare(0, 11, "categorical") == 0) v.push_back(num(std::atoi(t.c_str())));
    else if (line.compare(0, 7, "integer") == 0) v.push_back(num(std::atoi(t.c_str()) * 64));
    else if (line.compare(0, 5, "float") == 0) v.push_back(num(near64(std::atof(t.c_str()))));
    else if (line.compare(0, 7, "complex") == 0) { double a, b; if (std::sscanf(t.c_str(), "(%lf,%lf)", &a, &b) == 2) v.push_back("[" + num(near64(a)) + "," + num(near64(b)) + "]"); else v.push_back("[]"); }
    else { std::vector<int> q; std::istringstream ps(t); int x; char c; while (ps >> x) { q.push_back(x); ps >> c; } v.push_back(arr(q)); }
  }
  return v;
}
struct PRec {
  int n; permutation_t seen, described; double ret = 0; int calls = 0;
  int get_num_elements() const { return n; }
  double evaluate(const permutation_t& p) { seen = p; return ret = ++calls * 11; }
  void display(std::ostream&) const {}
  void describe(const permutation_t& p, std::ostream&) { described = p; }
};

static void adapters(Rng& rng) {
  const int reps = ctx().thorough ? 25 : 5;
  for (int nv = 1; nv <= 6; nv++)
    for (int rep = 0; rep < reps; rep++) {
      if (scenario("float adapter " + num(nv), &rng)) {
        std::vector<DyadicFloatRepresentation<double>> rs; std::vector<std::string> js; for (int k = 0; k < nv; k++) { auto f = rnd_float(rng); rs.push_back(f.rep()); js.push_back(f.js()); }
        Recorder<double> fn; fn.n = nv; MultivariateFunctionAdapter<Recorder<double>, DyadicFloatRepresentation<double>, ScalarToDouble<double>> ad(&fn, rs); run_adapter<double>(ad, fn, js, rng);
        MoRecorder<double> mf; mf.n = nv; hnco::multiobjective::function::MultivariateFunctionAdapter<MoRecorder<double>, DyadicFloatRepresentation<double>, ScalarToDouble<double>> ma(&mf, rs); run_mo<double>(ma, mf, js, rng);
      }
      if (scenario("integer adapter " + num(nv), &rng)) {
        std::vector<DyadicIntegerRepresentation<long>> rs; std::vector<std::string> js; for (int k = 0; k < nv; k++) { auto f = rnd_int(rng); rs.push_back({f.a, f.b, f.size}); js.push_back(f.js()); }
        Recorder<long> fn; fn.n = nv; MultivariateFunctionAdapter<Recorder<long>, DyadicIntegerRepresentation<long>, ScalarToDouble<double>> ad(&fn, rs); run_adapter<long>(ad, fn, js, rng);
        MoRecorder<long> mf; mf.n = nv; hnco::multiobjective::function::MultivariateFunctionAdapter<MoRecorder<long>, DyadicIntegerRepresentation<long>, ScalarToDouble<double>> ma(&mf, rs); run_mo<long>(ma, mf, js, rng);
      }
      if (scenario("complex adapter " + num(nv), &rng)) {
        using CR = ComplexRepresentation<DyadicFloatRepresentation<double>>; using C = std::complex<double>;
        std::vector<CR> rs; std::vector<std::string> js; for (int k = 0; k < nv; k++) { auto f = rnd_float(rng), g = rng.coin() ? rnd_float(rng) : f; if (f.js() == g.js() && rng.coin()) rs.push_back(CR(f.rep())); else rs.push_back(CR(f.rep(), g.rep())); js.push_back(cj(f, g)); }
        Recorder<C> fn; fn.n = nv; MultivariateFunctionAdapter<Recorder<C>, CR, ScalarToDouble<double>> ad(&fn, rs); run_adapter<C>(ad, fn, js, rng);
      }
      if (scenario("category adapter " + num(nv), &rng)) {
        std::vector<LinearCategoricalRepresentation> rs; std::vector<std::string> js; for (int k = 0; k < nv; k++) { int n = rng.in(2, 9); rs.push_back({n}); js.push_back("{\"k\":\"cat\",\"n\":" + num(n) + "}"); }
        Recorder<size_t> fn; fn.n = nv; MultivariateFunctionAdapter<Recorder<size_t>, LinearCategoricalRepresentation, ScalarToDouble<double>> ad(&fn, rs); run_adapter<size_t>(ad, fn, js, rng);
      }
      if (scenario("mixed adapter " + num(nv), &rng)) {
        std::vector<hnco::app::rep_var_t> rs; std::vector<std::string> js;
        for (int k = 0; k < nv; k++) {
          int t = rng.below(4);
          if (t == 0) { auto f = rnd_float(rng); rs.push_back(f.rep()); js.push_back(f.js()); }
          else if (t == 1) { auto f = rnd_int(rng); rs.push_back(DyadicIntegerRepresentation<long>(f.a, f.b, f.size)); js.push_back(f.js()); }
          else if (t == 2) { auto f = rnd_int(rng); rs.push_back(DyadicIntegerRepresentation<int>(f.a, f.b, f.size)); js.push_back(f.js()); }
          else { std::vector<int> v; std::vector<double> d; int m = rng.in(2, 9); for (int j = 0; j < m; j++) { v.push_back(rng.in(-200, 200)); d.push_back(v.back() / 64.0); } rs.push_back(ValueSetRepresentation<double>(d)); js.push_back(setjs(v)); }
        }
        Recorder<double> fn; fn.n = nv; MixedRepresentationMultivariateFunctionAdapter<Recorder<double>, hnco::app::rep_var_t, ScalarToDouble<double>> ad(&fn, rs); run_adapter<double>(ad, fn, js, rng);
        MoRecorder<double> mf; mf.n = nv; hnco::multiobjective::function::MixedRepresentationMultivariateFunctionAdapter<MoRecorder<double>, hnco::app::rep_var_t, ScalarToDouble<double>> ma(&mf, rs); run_mo<double>(ma, mf, js, rng);
      }
    }
  for (int k = 0; k < 8 * reps; k++) if (scenario("universal adapter", &rng)) {
    std::vector<std::string> js; int nb = rng.below(4);
    for (int j = 0; j < nb; j++) js.push_back("{\"k\":\"bool\"}");
    std::vector<DyadicIntegerRepresentation<int>> ir; std::vector<DyadicFloatRepresentation<double>> fr; std::vector<ComplexRepresentation<DyadicFloatRepresentation<double>>> cr; std::vector<LinearCategoricalRepresentation> kr; std::vector<PermutationRepresentation> pr;
    for (int j = rng.below(4); j > 0; j--) { auto f = rnd_int(rng); ir.push_back({f.a, f.b, f.size}); js.push_back(f.js()); }
    for (int j = rng.below(4); j > 0; j--) { auto f = rnd_float(rng); fr.push_back(f.rep()); js.push_back(f.js()); }
    for (int j = rng.below(3); j > 0; j--) { auto f = rnd_float(rng), g = rnd_float(rng); cr.push_back({f.rep(), g.rep()}); js.push_back(cj(f, g)); }
    for (int j = rng.below(4); j > 0; j--) { int n = rng.in(2, 6); kr.push_back({n}); js.push_back("{\"k\":\"cat\",\"n\":" + num(n) + "}"); }
    bool ties = false;
    for (int j = rng.below(3) + (js.empty() ? 1 : 0); j > 0; j--) { int n = rng.in(1, 5); pr.push_back({n, 2}); ties = true; js.push_back("{\"k\":\"perm\",\"n\":" + num(n) + ",\"extra\":2}"); }
    URec fn; hnco::function::UniversalFunctionAdapter ad(&fn, nb, ir, fr, cr, kr, pr);
    MURec mf; hnco::multiobjective::function::UniversalFunctionAdapter ma(&mf, nb, ir, fr, cr, kr, pr);
    for (int t = 0; t < 4; t++) {
      bit_vector_t x = rng.bv(ad.get_bv_size()); double v = ad.evaluate(x); auto s = fn.v;
      std::ostringstream os; ad.describe(x, os); auto d = parse_desc(os.str());
      // permutations with equal keys may be completed differently each time
      auto fit = [&](std::vector<std::string>& dd) { for (size_t q = js.size() - pr.size(); q < s.size() && q < dd.size(); q++) { Obj("adapt").raw("reps", list(js)).a("bv", x).i("size", ad.get_bv_size()).l("vars", dd).l("desc", dd).raw("values", "[]").raw("returned", "[]").emit(); dd[q] = s[q]; } };
      fit(d);
      Obj("adapt").l("reps", js).a("bv", x).i("size", ad.get_bv_size()).l("vars", s).l("desc", d).raw("values", "[" + num(iv(v)) + "]").raw("returned", "[" + num(iv(fn.ret)) + "]").emit();
      std::vector<double> mv(2); ma.evaluate(x, mv); s = mf.v; std::ostringstream os2; ma.describe(x, os2); d = parse_desc(os2.str()); fit(d);
      Obj("adapt").l("reps", js).a("bv", x).i("size", ma.get_bv_size()).l("vars", s).l("desc", d).raw("values", ints_js(mv)).raw("returned", ints_js(mf.ret)).emit();
    }
  }
  for (int n = 1; n <= 9; n++) for (int extra : {1, 4}) if (scenario("permutation adapter " + num(n), &rng)) {
    PRec fn; fn.n = n; PermutationFunctionAdapter<PRec> ad(&fn, PermutationRepresentation(n, extra));
    std::string js = "{\"k\":\"perm\",\"n\":" + num(n) + ",\"extra\":" + num(extra) + "}"; std::ostringstream os;
    for (int t = 0; t < 5; t++) {
      bit_vector_t x = rng.bv(ad.get_bv_size()); double v = ad.evaluate(x); auto s = fn.seen; ad.describe(x, os);
      for (auto& q : {s, fn.described}) Obj("adapt").l("reps", {js}).a("bv", x).i("size", ad.get_bv_size()).l("vars", {arr(q)}).l("desc", {arr(q)}).raw("values", "[" + num(iv(v)) + "]").raw("returned", "[" + num(iv(fn.ret)) + "]").emit();
    }
  }
}

// options as the factories read them
struct Opt {
  std::string expr, reps, dint = "int(-10, 10)", dlong = "long(-100, 100)", ddouble = "double(0, 64, size = 6)"; bool wp = false, ws = false; double prec = 0; int size = 0; bool files = false;
  bool with_fp_expression() const { return !files; } std::string get_fp_expression() const { return expr; } std::string get_path() const { return "expr.txt"; }
  bool with_fp_representations() const { return !files; } std::string get_fp_representations() const { return reps; } std::string get_fp_representations_path() const { return "reps.txt"; }
  bool with_fp_default_double_precision() const { return wp; } double get_fp_default_double_precision() const { return prec; }
  bool with_fp_default_double_size() const { return ws; } int get_fp_default_double_size() const { return size; }
  std::string get_fp_default_int_rep() const { return dint; } std::string get_fp_default_long_rep() const { return dlong; } std::string get_fp_default_double_rep() const { return ddouble; }
};
static std::string sp(Rng& rng) { static const char *w[] = {"", " ", "  ", "", "\t", "\n", ""}; return w[rng.below(7)]; }

struct Ex { std::string text, js; };
static Ex expr(Rng& rng, const std::vector<std::string>& vs, int depth) {
  int t = depth == 0 ? rng.below(2) : rng.below(7);
  if (t == 0 && depth == 0 && rng.below(3) == 0) { int c = rng.in(0, 5); return {num(c), "[\"num\"," + num(c) + "]"}; }
  if (depth == 0 || t < 2) { auto& v = vs[rng.below(vs.size())]; return {v, "[\"var\",\"" + v + "\"]"}; }
  if (t == 2) { Ex a = expr(rng, vs, depth - 1); return {"(-(" + a.text + "))", "[\"neg\"," + a.js + "]"}; }
  const char *op = t == 3 || t == 4 ? "+" : t == 5 ? "-" : "*";
  Ex a = expr(rng, vs, depth - 1), b = expr(rng, vs, depth - 1);
  return {"(" + a.text + ")" + sp(rng) + op + sp(rng) + "(" + b.text + ")", std::string("[\"") + op + "\"," + a.js + "," + b.js + "]"};
}
struct Decl { std::string text, js; };
static Decl decl(Rng& rng, const std::string& name, std::string t) {
  std::string rep, txt;
  if (t == "int" || t == "long") { IntP p = rnd_int(rng); p.size = 30; rep = p.js(); txt = t + sp(rng) + "(" + sp(rng) + num(p.a) + sp(rng) + "," + sp(rng) + num(p.b) + sp(rng) + ")"; }
  else if (t == "double") { FloatP p; p.size = rng.in(1, 6); p.a = rng.in(-20, 20); p.l = rng.in(1, 3) << p.size; rep = p.js();
    bool pr = rng.coin(); txt = "double" + sp(rng) + "(" + sp(rng) + num(p.a) + (rng.coin() ? ".0" : "") + "," + sp(rng) + num(p.a + p.l) + sp(rng) + "," + sp(rng) + (pr ? "precision" : "size") + sp(rng) + "=" + sp(rng) + (pr ? num(p.l >> p.size) + "." + "000001" : num(p.size)) + sp(rng) + ")"; }
  else { std::vector<int> v; int m = rng.in(2, 7); txt = "set("; for (int k = 0; k < m; k++) { int x = rng.in(-30, 30); v.push_back(64 * x); txt += (k ? "," : "") + sp(rng) + num(x); } txt += ")"; rep = setjs(v); }
  return {sp(rng) + name + sp(rng) + ":" + sp(rng) + txt + sp(rng), "{\"name\":\"" + name + "\",\"t\":\"" + t + "\",\"rep\":" + rep + "}"};
}
static Decl decls(Rng& rng, const std::vector<std::string>& names, const std::vector<std::string>& kinds, int percent) {
  std::string txt; std::vector<std::string> js;
  auto add = [&](const std::string& nm) { Decl d = decl(rng, nm, kinds[rng.below(kinds.size())]); if (!js.empty()) txt += ";"; txt += d.text; js.push_back(d.js); };
  std::vector<std::string> order(names); for (size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[rng.below(k)]);
  for (auto& nm : order) if (rng.below(100) < percent) { add(nm); if (rng.below(8) == 0) add(nm); }
  if (rng.below(4) == 0) add("unused");
  if (rng.below(5) == 0 && !js.empty()) txt += ";";
  return {txt, list(js)};
}
// names and values of the description
static void read_desc(const std::string& text, std::vector<std::string>& names, std::vector<double>& re, std::vector<double>& im) {
  std::istringstream is(text); std::string line;
  while (std::getline(is, line)) { auto p = line.find(" = "); if (p == std::string::npos) continue; names.push_back(line.substr(0, p)); std::string t = line.substr(p + 3); double a = 0, b = 0; if (t[0] == '(') std::sscanf(t.c_str(), "(%lf,%lf)", &a, &b); else a = std::atof(t.c_str()); re.push_back(a); im.push_back(b); }
}
static std::string strs(const std::vector<std::string>& v) { std::vector<std::string> l; for (auto& s : v) l.push_back(quote(s)); return list(l); }
static const std::vector<std::vector<std::string>> NAMES = {{"x"}, {"x", "y"}, {"y", "x", "z"}, {"x10", "x2", "x1"}, {"b", "A", "a", "B"}, {"u", "v", "w", "x", "y"}, {"alpha", "a", "al"}};

template<class A> static void parsed(Rng& rng, const std::vector<std::string>& declkinds, const std::vector<std::string>& kinds, const std::string& dflt, const char *conv, int nobj = 1) {
  auto vs = NAMES[rng.below(NAMES.size())]; Opt o; std::vector<std::string> ej; std::string text;
  for (int k = 0; k < nobj; k++) { Ex e = expr(rng, vs, rng.in(1, 2)); ej.push_back(e.js); text += (k ? sp(rng) + "::" + sp(rng) : "") + e.text; }
  if (text.find_first_of("abcdefghijklmnopqrstuvwxyzAB") == std::string::npos) return;
  o.expr = text; Decl d = decls(rng, vs, declkinds, 70); o.reps = d.text;
  if (rng.below(4) == 0) { o.files = true; std::ofstream("expr.txt") << o.expr; std::ofstream("reps.txt") << o.reps; }
  std::unique_ptr<A> ad;
  if constexpr (std::is_same_v<A, MixedRepresentationMultivariateFunctionAdapter<ParsedMultivariateFunction<FunctionParser>, hnco::app::rep_var_t, ScalarToDouble<double>>> || std::is_same_v<A, hnco::multiobjective::function::MixedRepresentationMultivariateFunctionAdapter<hnco::multiobjective::function::ParsedMultivariateFunction<FunctionParser>, hnco::app::rep_var_t, OppositeAbsoluteValue<double>>>)
    ad.reset(hnco::app::make_mixed_type_multivariate_function_adapter<Opt, A>(o));
  else ad.reset(hnco::app::make_multivariate_function_adapter<Opt, A>(o));
  for (int t = 0; t < 4; t++) {
    bit_vector_t x = rng.bv(ad->get_bv_size()); std::vector<double> ys(nobj);
    if constexpr (std::is_base_of_v<hnco::function::Function, A>) ys[0] = ad->evaluate(x); else ad->evaluate(x, ys);
    std::ostringstream os; ad->describe(x, os); std::vector<std::string> names; std::vector<double> re, im; read_desc(os.str(), names, re, im);
    std::vector<int> vars, vals; for (double v : re) { vars.push_back(iv(v, 64)); vals.push_back(iv(v)); }
    Obj("parsed").raw("exprs", list(ej)).raw("names", strs(names)).raw("decls", d.js).raw("kinds", strs(kinds)).raw("dflt", dflt).i("size", ad->get_bv_size()).a("bv", x).a("vars", vars).a("vals", vals).i("scale", 64).str("conv", conv).raw("ys", ints_js(ys)).str("text", text).emit();
  }
}
template<class A> static void parsedc(Rng& rng, int sign) {
  auto vs = NAMES[rng.below(NAMES.size())]; Opt o; std::vector<std::string> dn;
  for (size_t k = 0; k < vs.size(); k++) { o.expr += (k ? " + " : "") + vs[k]; dn.push_back(vs[k] + "_re"); dn.push_back(vs[k] + "_im"); }
  Decl d = decls(rng, dn, {"double", "double", "double", "int"}, 70); o.reps = d.text;
  std::unique_ptr<A> ad(hnco::app::make_multivariate_function_adapter_complex<Opt, A>(o));
  for (int t = 0; t < 4; t++) {
    bit_vector_t x = rng.bv(ad->get_bv_size()); double y = ad->evaluate(x);
    std::ostringstream os; ad->describe(x, os); std::vector<std::string> names, rn, in, vars; std::vector<double> re, im; read_desc(os.str(), names, re, im);
    for (size_t k = 0; k < names.size(); k++) { rn.push_back(names[k] + "_re"); in.push_back(names[k] + "_im"); vars.push_back("[" + num(near64(re[k])) + "," + num(near64(im[k])) + "]"); }
    Obj("parsedc").raw("names", strs(names)).raw("res", strs(rn)).raw("ims", strs(in)).raw("decls", d.js).raw("dflt", "{\"k\":\"float\",\"a\":0,\"l\":64,\"size\":6}").i("size", ad->get_bv_size()).a("bv", x).l("vars", vars).i("sign", sign).d("y", y, 64 * 64).emit();
  }
}
static std::string env_js(const hnco::app::env_t& env) {
  std::vector<std::string> l;
  for (auto& kv : env) {
    std::string t, rep;
    std::visit([&](auto p) {
      using P = decltype(p);
      if constexpr (std::is_same_v<P, hnco::app::IntRepParams> || std::is_same_v<P, hnco::app::LongRepParams>) { t = std::is_same_v<P, hnco::app::IntRepParams> ? "int" : "long"; rep = IntP{int(p.lower_bound), int(p.upper_bound), 30}.js(); }
      else if constexpr (std::is_same_v<P, hnco::app::DoubleRepParams>) { t = "double"; int s = p.mode == 1 ? p.to_rep().size() : p.size; rep = FloatP{iv(p.lower_bound), iv(p.upper_bound - p.lower_bound), s}.js(); }
      else { t = "set"; std::vector<int> v; for (double x : p.values) v.push_back(iv(x, 64)); rep = setjs(v); }
    }, kv.second);
    l.push_back("{\"name\":\"" + kv.first + "\",\"t\":\"" + t + "\",\"rep\":" + rep + "}");
  }
  return list(l);
}
static void c17() {
  Rng rng(1); const bool th = ctx().thorough;
  adapters(rng);
  namespace mo = hnco::multiobjective::function;
  using PD = ParsedMultivariateFunction<FunctionParser>; using PL = ParsedMultivariateFunction<FunctionParser_li>; using PC = ParsedMultivariateFunction<FunctionParser_cd>;
  using MD = mo::ParsedMultivariateFunction<FunctionParser>; using ML = mo::ParsedMultivariateFunction<FunctionParser_li>;
  using F = DyadicFloatRepresentation<double>; using L = DyadicIntegerRepresentation<long>; using I = DyadicIntegerRepresentation<int>; using C = ComplexRepresentation<F>;
  const std::string dd = "{\"k\":\"float\",\"a\":0,\"l\":64,\"size\":6}", dl = IntP{-100, 100, 30}.js(), di = IntP{-10, 10, 30}.js();
  for (int k = 0; k < (th ? 150 : 20); k++) {
    if (scenario("parsed double", &rng)) parsed<MultivariateFunctionAdapter<PD, F, ScalarToDouble<double>>>(rng, {"double", "double", "long"}, {"double"}, dd, "id");
    if (scenario("parsed long", &rng)) parsed<MultivariateFunctionAdapter<PL, L, ScalarToDouble<long>>>(rng, {"long", "long", "int", "set"}, {"long"}, dl, "id");
    if (scenario("parsed long, opposite", &rng)) parsed<MultivariateFunctionAdapter<PL, L, OppositeAbsoluteValue<long>>>(rng, {"long"}, {"long"}, dl, "oppabs");
    if (scenario("parsed int", &rng)) parsed<MultivariateFunctionAdapter<PD, I, ScalarToDouble<double>>>(rng, {"int", "int", "double"}, {"int"}, di, "id");
    if (scenario("parsed double, opposite", &rng)) parsed<MultivariateFunctionAdapter<PD, F, OppositeAbsoluteValue<double>>>(rng, {"double"}, {"double"}, dd, "oppabs");
    if (scenario("parsed mixed", &rng)) parsed<MixedRepresentationMultivariateFunctionAdapter<PD, hnco::app::rep_var_t, ScalarToDouble<double>>>(rng, {"long", "double", "set", "int"}, {"long", "double", "set"}, dd, "id");
    if (scenario("parsed objectives double", &rng)) parsed<mo::MultivariateFunctionAdapter<MD, F, ScalarToDouble<double>>>(rng, {"double"}, {"double"}, dd, "id", rng.in(1, 3));
    if (scenario("parsed objectives long", &rng)) parsed<mo::MultivariateFunctionAdapter<ML, L, AbsoluteValue<long>>>(rng, {"long", "int"}, {"long"}, dl, "abs", rng.in(1, 3));
    if (scenario("parsed objectives mixed", &rng)) parsed<mo::MixedRepresentationMultivariateFunctionAdapter<MD, hnco::app::rep_var_t, OppositeAbsoluteValue<double>>>(rng, {"long", "double", "set", "int"}, {"long", "double", "set"}, dd, "oppabs", rng.in(1, 3));
    if (scenario("parsed complex", &rng)) { parsedc<MultivariateFunctionAdapter<PC, C, SquaredMagnitude<double>>>(rng, 1); parsedc<MultivariateFunctionAdapter<PC, C, OppositeSquaredMagnitude<double>>>(rng, -1); }
  }
  for (int k = 0; k < (th ? 600 : 80); k++) if (scenario("declarations", &rng)) {
    Opt o; Decl d = decls(rng, NAMES[rng.below(NAMES.size())], {"int", "long", "double", "set"}, 80); bool refused = false; hnco::app::env_t env;
    try { env = hnco::app::parse_representations<Opt>(d.text, o); } catch (const std::exception&) { refused = true; }
    Obj("decls").str("text", d.text).raw("decls", d.js).b("refused", refused).raw("env", env_js(env)).emit();
  }
  // two parameters: the default precision, else the default size, else refused
  for (int k = 0; k < 12; k++) if (scenario("default double", &rng)) {
    Opt o; FloatP p; p.size = rng.in(1, 6); p.a = rng.in(-9, 9); p.l = rng.in(1, 3) << p.size; bool pr = k % 3 == 0, sz = k % 3 != 2;
    o.wp = pr; o.prec = (p.l >> p.size) + 1e-6; o.ws = sz; o.size = pr ? 3 : p.size;
    bool refused = false; hnco::app::env_t env; std::string txt = "x: double(" + num(p.a) + ", " + num(p.a + p.l) + ")";
    try { env = hnco::app::parse_representations<Opt>(txt, o); } catch (const std::exception&) { refused = true; }
    if (k % 3 == 2) Obj("faulty").str("text", txt).b("refused", refused).emit();
    else Obj("decls").str("text", txt).raw("decls", "[{\"name\":\"x\",\"t\":\"double\",\"rep\":" + p.js() + "}]").b("refused", refused).raw("env", env_js(env)).emit();
  }
  const char *bad[] = {"x", "x int(1, 2)", ": int(1, 2)", "  : int(1, 2)", "x:", "x: ", "x: int", "x: int 1, 2", "x: int(1, 2", "x: int 1, 2)", "x: (1, 2)", "x: integer(1, 2)", "x: float(0, 1)", "x: int(1)", "x: int()", "x: int(1, 2, 3)",
                       "x: long(1)", "x: long(1, 2, 3)", "x: long()", "x: double(0)", "x: double(0, 1)", "x: double(0, 1, 2)", "x: double(0, 1, size = 3, 4)", "x: double(0, 1, length = 3)", "x: double(0, 1, size)", "x: double(0, 1, = 3)",
                       "x: double(0, 1, size = 3 = 4)", "x: int(a, b)", "x: long(, 2)", "x: set()", "x: set(1, )", "x: set(a, b)", "x: double(a, 1, size = 3)", "x: double(0, 1, size = b)", "x: double(0, 1, precision = )", "y: int(0, 3); x", "x: int(0, 3) y: int(0, 3); z"};
  for (auto t : bad) if (scenario(std::string("faulty ") + t, &rng)) {
    Opt o; bool refused = false; try { hnco::app::parse_representations<Opt>(t, o); } catch (const std::exception&) { refused = true; }
    Obj("faulty").str("text", t).b("refused", refused).emit();
  }
  for (int k = 0; k < (th ? 100 : 25); k++) if (scenario("split", &rng)) {
    std::vector<std::string> items; int n = rng.in(1, 5); std::string dl2 = rng.coin() ? "," : "::", t;
    for (int j = 0; j < n; j++) { std::string s; for (int q = rng.below(4); q > 0; q--) s += "ab c1"[rng.below(5)]; items.push_back(s); t += (j ? dl2 : "") + s; }
    Obj("split").raw("expected", strs(items)).raw("items", strs(hnco::app::split_string(t, dl2))).emit();
  }
  // malformed expressions
  for (auto t : {"", "x +", "x + * y", "(x", "x)", "2x y", "f(x)", "x ::"}) if (scenario(std::string("faulty expression ") + t, &rng)) {
    bool refused = false; try { PD f{std::string(t)}; f.parse(); if (std::string(t) == "x ::") refused = true; } catch (const std::runtime_error&) { refused = true; }
    Obj("faulty").str("text", t).b("refused", refused).emit();
  }
}

int main(int argc, char *argv[]) {
  init(argc, argv);
  std::cerr.setstate(std::ios::failbit);       // warnings about defaults
  if (ctx().mode == "C16") c16();
  if (ctx().mode == "C17") c17();
  return finish();
}
