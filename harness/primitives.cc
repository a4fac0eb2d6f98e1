// Calls every bit-vector, sparse-vector and permutation primitive and records operands and results.
#include "emit.hh"
#include "hnco/permutation.hh"
#include "hnco/util.hh"

using namespace hnco;
using namespace vf;

static std::vector<int> chunks(size_t u) {
  std::vector<int> c;
  for (int k = 0; k < 4; k++) { c.push_back(u & 0xffff); u >>= 16; }
  return c;
}
static std::vector<int> chars(const std::string& s) { std::vector<int> r; for (unsigned char c : s) r.push_back(c); return r; }
static std::vector<bool> packed(const bit_vector_t& x) { std::vector<bool> y(x.size()); for (size_t i = 0; i < x.size(); i++) y[i] = x[i]; return y; }

static void unary(const bit_vector_t& x, Rng& rng) {
  int n = x.size();
  Obj("weight").a("x", x).i("r", bv_hamming_weight(x)).i("rb", bv_hamming_weight(packed(x))).emit();
  Obj("zero").a("x", x).b("r", bv_is_zero(x)).emit();
  Obj("valid").a("x", x).b("r", bv_is_valid(x)).emit();
  if (n) {
    bit_vector_t z(x);
    z[rng.below(n)] = rng.in(0, 3);
    Obj("valid").a("x", z).b("r", bv_is_valid(z)).emit();
    z = x; bv_add(z, x);
    bit_vector_t z3(x); bv_add(z3, z3, x);
    Obj("self").a("x", x).a("r", z).a("r3", z3).emit();
    int k = rng.below(n);
    z = x; bv_flip(z, k);
    Obj("flip1").a("x", x).i("k", k).a("r", z).emit();
    sparse_bit_vector_t F;
    for (int j = 0; j < n; j++) if (rng.coin()) F.push_back(j);
    z = x; bv_flip(z, F);
    Obj("flips").a("x", x).a("F", F).a("r", z).emit();
    int s = rng.below(n), t = rng.in(s + 1, std::min(n, s + 64));
    Obj("slice").a("x", x).i("s", s).i("t", t).a("r", chunks(bv_to_size_type(x, s, t))).emit();
    if (n <= 64) Obj("slice").a("x", x).i("s", 0).i("t", n).a("r", chunks(bv_to_size_type(x, 0, n))).emit();
  }
  bit_vector_t z(x); bv_clear(z);
  Obj("clear").a("x", x).a("r", z).emit();
  std::vector<bool> y(n, rng.coin()); bit_vector_t back = rng.bv(n);
  bv_to_vector_bool(y, x); bv_from_vector_bool(back, y);
  Obj("packed").a("x", x).a("b", y).a("r", back).emit();
  if (n <= 64) {
    Obj("toint").a("x", x).a("r", chunks(bv_to_size_type(x))).emit();
    size_t u = rng.next();
    if (rng.coin()) u = bv_to_size_type(x);
    bit_vector_t w = rng.bv(n);
    bv_from_size_type(w, u);
    Obj("fromint").a("u", chunks(u)).i("n", n).a("r", w).emit();
  }
  std::ostringstream os; bv_display(x, os);
  std::istringstream is(os.str() + (rng.coin() ? "\n" : ""));
  Obj("string").a("x", x).a("s", chars(os.str())).a("r", bv_from_string(os.str())).a("rs", bv_from_stream(is)).emit();
}

static void binary(const bit_vector_t& x, const bit_vector_t& y, Rng& rng) {
  Obj("distance").a("x", x).a("y", y).i("r", bv_hamming_distance(x, y)).emit();
  Obj("dot").a("x", x).a("y", y).i("r", bv_dot_product(x, y)).i("rb", bv_dot_product(x, packed(y))).emit();
  bit_vector_t a(x), s(y), b = rng.bv(x.size());
  bv_add(a, s); bv_add(b, x, y);
  Obj("add").a("x", x).a("y", y).a("r2", a).a("r3", b).a("src", s).emit();
}

int main(int argc, char *argv[]) {
  init(argc, argv);
  const bool deep = ctx().thorough;
  Rng rng(0);
  for (int n = 0; n <= (deep ? 7 : 5); n++)
    for (unsigned long u = 0; u < (1UL << n); u++)
      if (scenario("unary", &rng)) unary(bv_of(u, n), rng);
  for (int n = 0; n <= (deep ? 5 : 4); n++)
    for (unsigned long u = 0; u < (1UL << n); u++)
      if (scenario("binary", &rng)) for (unsigned long v = 0; v < (1UL << n); v++) binary(bv_of(u, n), bv_of(v, n), rng);
  // sizes around machine-word and byte boundaries, and random ones; saturated and sparse operands
  std::vector<int> sizes = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300};
  for (int k = 0; k < (deep ? 200 : 10); k++) sizes.push_back(-1);
  for (int n0 : sizes)
    for (int rep = 0; rep < 4; rep++)
      if (scenario("large", &rng)) {
        int n = n0 < 0 ? rng.in(1, 140) : n0;
        bit_vector_t x = rng.bv(n), y = rng.bv(n);
        if (rep == 1) std::fill(x.begin(), x.end(), 1);
        if (rep == 2) { std::fill(x.begin(), x.end(), 0); x[n - 1] = 1; y = x; }
        if (rep == 3) { std::fill(x.begin(), x.end(), 1); std::fill(y.begin(), y.end(), 1); }
        unary(x, rng); binary(x, y, rng);
      }
  // text with several lines
  if (scenario("lines", &rng)) {
    std::istringstream is("0101\n\n1\n");
    Obj("lines").a("r", bv_from_stream(is)).a("x", std::vector<int>{0, 1, 0, 1}).emit();
    Obj("lines").a("r", bv_from_stream(is)).a("x", std::vector<int>{}).emit();
    Obj("lines").a("r", bv_from_stream(is)).a("x", std::vector<int>{1}).emit();
    Obj("lines").a("r", bv_from_stream(is)).a("x", std::vector<int>{}).emit();
  }
  // sparse vectors and permutations: all short integer sequences
  for (int len = 0; len <= 4; len++) {
    int base = 6, total = 1;
    for (int k = 0; k < len; k++) total *= base;
    for (int c = 0; c < total; c++) {
      if (c % 64 == 0 || c == 0) { if (!scenario("sequences", &rng)) { c |= 63; continue; } }
      std::vector<int> s; int q = c;
      for (int k = 0; k < len; k++) { s.push_back(q % base - 1); q /= base; }
      if (c % 3 == 0 || len < 4 || deep) Obj("sparse").a("s", s).i("n", 3).b("r", sbv_is_valid(s)).b("rn", sbv_is_valid(s, 3)).emit();
      if (c % 2 == 0 || len < 4 || deep) Obj("perm").a("s", s).b("r", perm_is_valid(s)).emit();
    }
  }
  for (int n : {0, 1, 2, 3, 5, 10, 33, 64, 100, 257})
    for (int rep = 0; rep < 3; rep++)
      if (scenario("permutations", &rng)) {
        permutation_t s(n, rng.below(9)); perm_identity(s);
        Obj("ident").i("n", n).a("r", s).emit();
        permutation_t p(n, 7); perm_random(p);
        Obj("permrand").i("n", n).a("r", p).emit();
        Obj("perm").a("s", p).b("r", perm_is_valid(p)).emit();
        if (n > 1) {
          permutation_t q(p); int a = rng.below(n), b = rng.below(n); q[a] = q[b];
          Obj("perm").a("s", q).b("r", perm_is_valid(q)).emit();
        }
        permutation_t q(p); perm_shuffle(q);
        Obj("shuffle").a("x", p).a("r", q).emit();
      }
  // random sampling
  for (int n : {1, 2, 3, 5, 8, 31, 64, 65, 100, 200})
    if (scenario("sampling", &rng)) {
      for (int rep = 0; rep < 6; rep++) { bit_vector_t x = rng.bv(n); bv_random(x); Obj("rand").i("n", n).a("r", x).emit(); }
      for (int rep = 0; rep < 12; rep++) {
        int k = rep == 0 ? 0 : rep == 1 ? n : rng.in(0, n);
        bit_vector_t x = rng.bv(n); bv_random(x, k); Obj("randw").i("n", n).i("k", k).a("r", x).emit();
      }
    }
  for (int n = 1; n <= 5; n++)
    for (int k = -1; k <= n; k++)
      if (scenario("support of random bit vectors", &rng)) {
        std::set<bit_vector_t> seen;
        for (int t = 0; t < 4000; t++) { bit_vector_t x = rng.bv(n); if (k < 0) bv_random(x); else bv_random(x, k); seen.insert(x); }
        std::vector<std::string> l; for (auto& x : seen) l.push_back(arr(x));
        Obj("support").i("n", n).i("k", k).l("seen", l).emit();
      }
  for (int n = 1; n <= 4; n++)
    if (scenario("support of random permutations", &rng)) {
      std::set<permutation_t> seen;
      for (int t = 0; t < 4000; t++) { permutation_t x(n); perm_random(x); seen.insert(x); }
      std::vector<std::string> l; for (auto& x : seen) l.push_back(arr(x));
      Obj("psupport").i("n", n).l("seen", l).emit();
    }
  if (scenario("uniform")) {
    std::vector<int> v;
    for (int t = 0; t < 2000; t++) v.push_back(int(std::floor(hnco::random::Generator::uniform() * 1000000)));
    Obj("uniform").a("v", v).emit();
  }
  return finish();
}
