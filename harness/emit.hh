// Trace emission shared by all drivers: one JSON object per line.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

#include "hnco/bit-vector.hh"
#include "hnco/random.hh"
#include "hnco/sparse-bit-vector.hh"

namespace vf {

// Not representable as a small integer: no specification value equals it.
const int BAD = 2000000000;

inline int iv(double v, double scale = 1) {
  double w = v * scale;
  if (!(std::fabs(w) <= 1.0e9) || w != std::floor(w)) return BAD;
  return int(w);
}

struct Ctx {
  FILE *out = nullptr;
  std::string mode;
  unsigned long seed = 1;
  bool thorough = false;
  int shard = 0, nshards = 1;
  long events = 0, scenarios = 0;
  char where[512] = {0};
};
inline Ctx& ctx() { static Ctx c; return c; }

template<class T> std::string num(T x) { return std::to_string(x); }

template<class V> std::string arr(const V& v) {
  std::string s = "[";
  bool first = true;
  for (auto x : v) { if (!first) s += ","; first = false; s += std::to_string((long)x); }
  return s + "]";
}

inline std::string dvals(const std::vector<double>& v, double scale = 1) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(iv(v[i], scale)); }
  return s + "]";
}

inline std::string quote(const std::string& t) {
  std::string s = "\"";
  for (char c : t) {
    if (c == '"' || c == '\\') { s += '\\'; s += c; }
    else if (c == '\n') s += "\\n";
    else if ((unsigned char)c < 32) s += ' ';
    else s += c;
  }
  return s + "\"";
}

inline std::string list(const std::vector<std::string>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += v[i]; }
  return s + "]";
}

struct Obj {
  std::string s;
  Obj() {}
  explicit Obj(const char *event) { raw("e", quote(event)); }
  Obj& raw(const char *k, const std::string& v) {
    if (!s.empty()) s += ",";
    s += "\""; s += k; s += "\":"; s += v;
    return *this;
  }
  Obj& i(const char *k, long v) { return raw(k, std::to_string(v)); }
  Obj& d(const char *k, double v, double scale = 1) { return raw(k, std::to_string(iv(v, scale))); }
  Obj& b(const char *k, bool v) { return raw(k, v ? "true" : "false"); }
  Obj& str(const char *k, const std::string& v) { return raw(k, quote(v)); }
  template<class V> Obj& a(const char *k, const V& v) { return raw(k, arr(v)); }
  Obj& l(const char *k, const std::vector<std::string>& v) { return raw(k, list(v)); }
  std::string get() const { return "{" + s + "}"; }
  void emit() {
    std::fputc('{', ctx().out); std::fwrite(s.data(), 1, s.size(), ctx().out); std::fputs("}\n", ctx().out);
    ctx().events++;
  }
};

// Deterministic generator of the driver itself (independent of the library's).
struct Rng {
  unsigned long long s;
  explicit Rng(unsigned long long seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
  unsigned long long next() {
    s += 0x9E3779B97F4A7C15ULL;
    unsigned long long z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  int below(int n) { return int(next() % (unsigned long long)n); }
  int in(int a, int b) { return a + below(b - a + 1); }
  bool coin() { return next() >> 63; }
  hnco::bit_vector_t bv(int n) { hnco::bit_vector_t x(n); for (auto& c : x) c = coin(); return x; }
};

inline hnco::bit_vector_t bv_of(unsigned long u, int n) {
  hnco::bit_vector_t x(n);
  for (int i = 0; i < n; i++) x[i] = (u >> i) & 1;
  return x;
}
inline unsigned long bv_index(const hnco::bit_vector_t& x) {
  unsigned long u = 0;
  for (size_t i = 0; i < x.size(); i++) if (x[i]) u |= 1UL << i;
  return u;
}

// A scenario: numbered, assigned to one shard, with its own seed for both generators.
// Returns true if this shard has to run it.
inline long& scenario_counter() { static long k = 0; return k; }
inline bool scenario(const std::string& what, Rng *rng = nullptr) {
  long k = scenario_counter()++;
  unsigned long long sd = ctx().seed * 1000003ULL + k;
  if (rng) *rng = Rng(sd);
  if (k % ctx().nshards != ctx().shard) return false;
  hnco::random::Generator::set_seed((unsigned)(sd % 2147483647ULL));
  std::snprintf(ctx().where, sizeof(ctx().where), "scenario %ld: %s", k, what.c_str());
  ctx().scenarios++;
  return true;
}

inline void on_signal(int sig) {
  const char *a = "\nCRASH in "; ssize_t r;
  r = write(2, a, std::strlen(a));
  r = write(2, ctx().where, std::strlen(ctx().where));
  r = write(2, "\n", 1); (void)r;
  std::signal(sig, SIG_DFL);
  raise(sig);
}

// usage: driver MODE SEED TIER SHARD NSHARDS OUTFILE
inline void init(int argc, char *argv[]) {
  if (argc < 7) { std::fprintf(stderr, "usage: %s mode seed tier shard nshards out\n", argv[0]); std::exit(64); }
  Ctx& c = ctx();
  c.mode = argv[1];
  c.seed = std::strtoul(argv[2], nullptr, 10);
  c.thorough = std::string(argv[3]) == "thorough";
  c.shard = std::atoi(argv[4]);
  c.nshards = std::atoi(argv[5]);
  c.out = std::fopen(argv[6], "w");
  if (!c.out) { std::perror("open"); std::exit(65); }
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) std::signal(s, on_signal);
}
inline int finish() {
  std::fclose(ctx().out);
  std::printf("events=%ld scenarios=%ld\n", ctx().events, ctx().scenarios);
  return 0;
}

} // namespace vf
