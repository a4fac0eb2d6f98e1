// Bit matrices, transvections and maps.
#include "emit.hh"
#include <memory>
#include "hnco/bit-matrix.hh"
#include "hnco/maps/map.hh"

using namespace hnco;
using namespace hnco::map;
using namespace vf;

static std::string mat(const bit_matrix_t& M) { std::vector<std::string> l; for (auto& r : M) l.push_back(arr(r)); return list(l); }
static std::string vecs(const std::vector<bit_vector_t>& v) { std::vector<std::string> l; for (auto& r : v) l.push_back(arr(r)); return list(l); }
static std::string tvs(const Transvection& t) { return "[" + std::to_string(t.row_index) + "," + std::to_string(t.column_index) + "]"; }
static std::string tss(const transvection_sequence_t& ts) { std::vector<std::string> l; for (auto& t : ts) l.push_back(tvs(t)); return list(l); }

static bit_matrix_t random_matrix(Rng& rng, int r, int c) { bit_matrix_t M; for (int k = 0; k < r; k++) M.push_back(rng.bv(c)); return M; }

static void matrix_ops(const bit_matrix_t& M, Rng& rng, bool all) {
  int nr = M.size(), nc = M[0].size();
  bit_vector_t x = rng.bv(nc), y = rng.bv(nr);
  bm_multiply(y, M, x);
  Obj("multiply").raw("M", mat(M)).a("x", x).a("r", y).emit();
  bit_matrix_t T = random_matrix(rng, nc, nr);
  bm_transpose(T, M);
  Obj("transpose").raw("M", mat(M)).raw("r", mat(T)).raw("r2", mat(bm_transpose(M))).raw("tt", mat(bm_transpose(bm_transpose(M)))).emit();
  Obj("isid").raw("M", mat(M)).b("r", bm_is_identity(M)).emit();
  Obj("isupper").raw("M", mat(M)).b("r", bm_is_upper_triangular(M)).emit();
  Obj("isvalid").raw("M", mat(M)).b("r", bm_is_valid(M)).emit();
  Obj("issquare").raw("M", mat(M)).b("r", bm_is_square(M)).i("nr", bm_num_rows(M)).i("nc", bm_num_columns(M)).emit();
  bit_matrix_t A(M);
  int a = rng.below(nr), b = rng.below(nr);
  bm_swap_rows(A, a, b);
  Obj("swap").raw("M", mat(M)).i("a", a).i("b", b).raw("r", mat(A)).emit();
  if (nr > 1) {
    while (a == b) b = rng.below(nr);
    A = M; bm_add_rows(A, a, b);
    Obj("addrows").raw("M", mat(M)).i("a", a).i("b", b).raw("r", mat(A)).emit();
  }
  if (nc > 1) {
    a = rng.below(nc); do b = rng.below(nc); while (a == b);
    A = M; bm_add_columns(A, a, b);
    Obj("addcols").raw("M", mat(M)).i("a", a).i("b", b).raw("r", mat(A)).emit();
  }
  a = rng.below(nc);
  bit_vector_t col = rng.bv(nr);
  A = M; bm_set_column(A, a, col);
  Obj("setcol").raw("M", mat(M)).i("a", a).a("x", col).raw("r", mat(A)).emit();
  A = M; bm_clear(A);
  Obj("clear").raw("M", mat(M)).raw("r", mat(A)).emit();
  A = M; bm_row_echelon_form(A);
  Obj("echelon").raw("M", mat(M)).raw("r", mat(A)).emit();
  Obj("rank").raw("M", mat(M)).i("r", bm_rank(A)).emit();
  if (nr == nc) {
    for (int rep = 0; rep < (all ? 3 : 1); rep++) {
      bit_vector_t rhs = rng.bv(nr), s(rhs);
      A = M;
      bool ok = bm_solve(A, s);
      Obj("solve").raw("A", mat(M)).a("b", rhs).b("ok", ok).a("x", s).raw("after", mat(A)).emit();
    }
    A = M; bit_matrix_t N = random_matrix(rng, nr, nr);
    bool ok = bm_invert(A, N);
    Obj("invert").raw("M", mat(M)).b("ok", ok).raw("N", mat(N)).raw("after", mat(A)).emit();
    bit_matrix_t U(M);
    for (int i = 0; i < nr; i++) for (int j = 0; j < i; j++) U[i][j] = 0;
    if (rng.below(3)) for (int i = 0; i < nr; i++) U[i][i] = 1;
    bit_vector_t rhs = rng.bv(nr), s(rhs);
    A = U;
    ok = bm_solve_upper_triangular(A, s);
    Obj("solve").raw("A", mat(U)).a("b", rhs).b("ok", ok).a("x", s).raw("after", mat(A)).emit();
    A = M; bm_identity(A);
    Obj("identity").i("n", nr).raw("r", mat(A)).raw("r2", mat(bm_identity(nr))).emit();
  }
  std::ostringstream os; bm_display(M, os);
  std::istringstream is(os.str());
  std::vector<bit_vector_t> back;
  for (int k = 0; k < nr; k++) back.push_back(bv_from_stream(is));
  Obj("dispm").raw("M", mat(M)).raw("r", mat(back)).emit();
}

static void c13(Rng& rng) {
  bool deep = ctx().thorough;
  // every matrix up to 3x3 (thorough: 3x4, 4x3), sampled 4x4
  int maxcells = deep ? 12 : 9;
  for (int nr = 1; nr <= 4; nr++)
    for (int nc = 1; nc <= 4; nc++) {
      if (nr * nc > maxcells) continue;
      for (unsigned long u = 0; u < (1UL << (nr * nc)); u++) {
        if (!scenario("matrix " + std::to_string(nr) + "x" + std::to_string(nc) + " number " + std::to_string(u), &rng)) continue;
        if (!deep && nr * nc > 6 && nr != nc && u % 8) continue;
        bit_matrix_t M(nr, bit_vector_t(nc));
        for (int k = 0; k < nr * nc; k++) M[k / nc][k % nc] = (u >> k) & 1;
        matrix_ops(M, rng, true);
      }
    }
  for (int rep = 0; rep < (deep ? 600 : 90); rep++)
    if (scenario("random matrix", &rng)) {
      int nr = rng.in(1, 9), nc = rng.coin() ? nr : rng.in(1, 9);
      bit_matrix_t M = random_matrix(rng, nr, nc);
      if (rng.below(3) == 0 && nr > 2) { M[nr - 1] = M[0]; for (int j = 0; j < nc; j++) M[nr - 1][j] ^= M[1][j]; }
      if (rng.below(4) == 0 && nc > 1) { int j = rng.below(nc); for (auto& r : M) r[j] = 0; }
      if (nr == nc && rng.coin()) { M = bm_identity(nr); for (int k = 0; k < 30; k++) { int a = rng.below(nr), b = rng.below(nr); if (a != b) for (int j = 0; j < nc; j++) M[a][j] ^= M[b][j]; } }
      matrix_ops(M, rng, false);
    }
  for (int rep = 0; rep < (deep ? 60 : 14); rep++)   // larger shapes of any rank
    if (scenario("shape and rank", &rng)) {
      static const int sh[][2] = {{12, 12}, {16, 10}, {10, 17}, {20, 20}, {24, 9}, {9, 32}, {31, 31}, {33, 8}, {8, 70}, {70, 8}, {3, 130}, {130, 3}, {40, 20}, {20, 41}};
      int nr = sh[rep % 14][0], nc = sh[rep % 14][1], m = std::min(nr, nc), rk = rng.below(3) == 0 ? m : rng.in(1, m);
      bit_matrix_t M = random_matrix(rng, nr, nc);
      for (int i = rk; i < nr; i++) { M[i].assign(nc, 0); for (int l = 0; l < rk; l++) if (rng.coin()) for (int j = 0; j < nc; j++) M[i][j] ^= M[l][j]; }
      if (rng.coin()) { int z = rng.in(1, nc / 2); for (auto& r : M) for (int j = 0; j < z; j++) r[j] = rng.below(8) == 0 && z > 3 ? r[j] : 0; }   // leading columns almost empty
      for (int i = nr - 1; i > 0; i--) std::swap(M[i], M[rng.below(i + 1)]);
      matrix_ops(M, rng, false);
    }
  for (int n : {16, 33, 65})
    if (scenario("large matrix", &rng)) {
      bit_matrix_t M = bm_identity(n);
      for (int k = 0; k < 4 * n; k++) { int a = rng.below(n), b = rng.below(n); if (a != b) for (int j = 0; j < n; j++) M[a][j] ^= M[b][j]; }
      matrix_ops(M, rng, false);
      matrix_ops(random_matrix(rng, n / 2, n), rng, false);
    }
  for (int rep = 0; rep < (deep ? 80 : 16); rep++)   // few ones, far apart
    if (scenario("sparse matrix", &rng)) {
      int n = rng.in(12, 44), nc = rep % 4 == 3 ? rng.in(12, 60) : n;
      bit_matrix_t M(n, bit_vector_t(nc, 0));
      if (rep % 4 == 0) for (int i = 0; i < n; i++) M[n - 1 - i][i] = 1;                       // antidiagonal
      else if (rep % 4 == 1) { for (int i = 0; i < n; i++) for (int j = i; j < nc; j++) M[i][j] = i == j || rng.below(3) == 0; }
      else { std::vector<int> q(n); for (int i = 0; i < n; i++) q[i] = i; for (int i = n - 1; i > 0; i--) std::swap(q[i], q[rng.below(i + 1)]); for (int i = 0; i < n; i++) if (q[i] < nc) M[i][q[i]] = 1; }
      matrix_ops(M, rng, false);
      for (int k = 0; k < 3; k++) {
        bit_matrix_t Z(M);
        int i = k == 0 ? n - 1 : rng.below(n), j = k == 0 ? 0 : rng.below(nc);
        Z[i][j] ^= 1;
        Obj("isupper").raw("M", mat(Z)).b("r", bm_is_upper_triangular(Z)).emit();
        Obj("isid").raw("M", mat(Z)).b("r", bm_is_identity(Z)).emit();
        bit_matrix_t A(Z); bm_row_echelon_form(A);
        Obj("echelon").raw("M", mat(Z)).raw("r", mat(A)).emit();
        Obj("rank").raw("M", mat(Z)).i("r", bm_rank(A)).emit();
        A = Z; int a = k == 2 ? 0 : rng.below(n), b = k == 2 ? n - 1 : rng.below(n);
        bm_swap_rows(A, a, b);
        Obj("swap").raw("M", mat(Z)).i("a", a).i("b", b).raw("r", mat(A)).emit();
        A = bm_identity(n); A[i][j % n] ^= 1;
        bit_matrix_t I(A);
        Obj("isid").raw("M", mat(I)).b("r", bm_is_identity(I)).emit();
      }
    }
  for (int rep = 0; rep < 20; rep++)
    if (scenario("shapes", &rng)) {
      int nr = rng.in(1, 6), nc = rng.in(1, 6);
      bit_matrix_t M = bm_rectangular(nr, nc);
      Obj("clear").raw("M", mat(M)).raw("r", mat(M)).emit();
      nr = rng.in(1, 7); nc = rng.in(1, 7);
      bm_resize(M, nr, nc);
      Obj("resize").i("nr", nr).i("nc", nc).raw("r", mat(M)).emit();
      bm_random(M);
      Obj("random").i("nr", nr).i("nc", nc).raw("r", mat(M)).emit();
      bit_matrix_t Z(M);
      Z[rng.below(nr)][rng.below(nc)] = rng.in(0, 2);
      if (rng.coin()) Z[nr - 1].push_back(0);
      Obj("isvalid").raw("M", mat(Z)).b("r", bm_is_valid(Z)).emit();
    }
}

static Transvection tv_of(int r, int c) { Transvection t; t.row_index = r; t.column_index = c; return t; }

static void ts_sample(transvection_sequence_t& ts, int mode, int n, int t) {
  switch (mode) {
  case 0: ts_random(ts, n, t); break;
  case 1: ts_random_commuting(ts, n, t); break;
  case 2: ts_random_unique_source(ts, n, t); break;
  case 3: ts_random_unique_destination(ts, n, t); break;
  case 4: ts_random_disjoint(ts, n, t); break;
  case 5: ts_random_non_commuting(ts, n, t); break;
  }
}

static void ts_ops(const transvection_sequence_t& ts, int n, Rng& rng) {
  for (int rep = 0; rep < 2; rep++) {
    bit_vector_t x = rng.bv(n), y(x), z;
    transvection_sequence_t inv(ts);
    ts_invert(inv);
    ts_multiply(y, ts);
    z = y; ts_multiply(z, inv);
    Obj("tsvec").a("x", x).raw("ts", tss(ts)).raw("inv", tss(inv)).a("r", y).a("back", z).emit();
  }
  bit_matrix_t M = random_matrix(rng, n, rng.in(1, 5)), R(M);
  ts_multiply(R, ts);
  Obj("tsmat").raw("M", mat(M)).raw("ts", tss(ts)).raw("r", mat(R)).emit();
}

static std::vector<int> ints_in(const std::string& s) {
  std::vector<int> r; long cur = -1;
  for (char c : s + " ") { if (std::isdigit((unsigned char)c)) cur = (cur < 0 ? 0 : cur) * 10 + (c - '0'); else if (cur >= 0) { r.push_back(cur); cur = -1; } }
  return r;
}

static void c14(Rng& rng) {
  bool deep = ctx().thorough;
  for (int n = 2; n <= 4; n++)
    for (int a = 0; a < n * n; a++)
      if (scenario("pairs of transvections", &rng)) {
        Transvection t = tv_of(a / n - (n > 2 && a % 7 == 6), a % n + (a % 5 == 4));
        Obj("tv").raw("tv", tvs(t)).i("n", n).b("valid", t.is_valid()).b("validn", t.is_valid(n)).emit();
        t = tv_of(a / n, a % n);
        Obj("tv").raw("tv", tvs(t)).i("n", n).b("valid", t.is_valid()).b("validn", t.is_valid(n)).emit();
        Obj("tv").raw("tv", tvs(t)).i("n", n - 1).b("valid", t.is_valid()).b("validn", t.is_valid(n - 1)).emit();
        if (!t.is_valid(n)) continue;
        for (unsigned long u = 0; u < (1UL << n); u++) {
          bit_vector_t x = bv_of(u, n), y(x);
          t.multiply(y);
          Obj("tvvec").a("x", x).raw("tv", tvs(t)).a("r", y).emit();
        }
        bit_matrix_t M = random_matrix(rng, n, rng.in(1, 4)), R(M);
        t.multiply(R);
        Obj("tvmat").raw("M", mat(M)).raw("tv", tvs(t)).raw("r", mat(R)).emit();
        for (int b = 0; b < n * n; b++) {
          Transvection s = tv_of(b / n, b % n);
          if (!s.is_valid(n)) continue;
          Obj("commute").raw("a", tvs(t)).raw("b", tvs(s)).i("n", n).b("r", transvections_commute(t, s)).b("d", transvections_are_disjoint(t, s)).emit();
          if (n == 3) ts_ops({t, s, tv_of(rng.below(2), 2)}, n, rng);
        }
      }
  for (int mode = 0; mode < 6; mode++)
    for (int n = 2; n <= (deep ? 12 : 8); n++)
      if (scenario("sampling mode " + std::to_string(mode) + " dimension " + std::to_string(n), &rng)) {
        transvection_sequence_t ts;   // deliberately reused from one request to the next
        int tmax = std::min(n * n / 4 + 2, 20);
        for (int t = 0; t <= tmax; t++)
          for (int rep = 0; rep < (t < 4 || deep ? 3 : 1); rep++) {
            if (rng.below(4) == 0) ts.assign(rng.below(5), tv_of(0, 1));
            ts_sample(ts, mode, n, t);
            Obj("tsrand").i("mode", mode).i("n", n).i("t", t).raw("ts", tss(ts)).emit();
            if (rep == 0 && !ts.empty()) ts_ops(ts, n, rng);
          }
      }
  for (int rep = 0; rep < (deep ? 200 : 30); rep++)
    if (scenario("large sampling", &rng)) {
      int n = rep % 6 == 5 ? rng.in(41, 140) : rng.in(9, 40), mode = rng.below(6), t = rng.in(0, mode == 1 ? (n <= 24 ? n * n / 4 + 3 : n) : 2 * n);
      transvection_sequence_t ts;
      ts_sample(ts, mode, n, t);
      Obj("tsrand").i("mode", mode).i("n", n).i("t", t).raw("ts", tss(ts)).emit();
      ts_ops(ts, n, rng);
      transvection_sequence_t bad(ts);
      if (!bad.empty()) {
        int k = rng.below(bad.size());
        if (rng.coin()) bad[k].row_index = rng.in(-1, n); else bad[k].column_index = rng.in(-1, n);
        Obj("tsvalid").raw("ts", tss(bad)).i("n", n).b("r", ts_is_valid(bad)).b("rn", ts_is_valid(bad, n)).emit();
      }
      Obj("tsvalid").raw("ts", tss(ts)).i("n", n - 1).b("r", ts_is_valid(ts)).b("rn", ts_is_valid(ts, n - 1)).emit();
    }
  for (int n = 5; n <= (deep ? 40 : 26); n++)   // commuting sequences at the lengths where the split of the variables has to change
    if (scenario("commuting lengths n=" + std::to_string(n), &rng)) {
      std::set<int> ls;
      for (int m = 0; m <= n / 2; m++) for (int d = -1; d <= 1; d++) { int t = (n * n - (2 * m + n % 2) * (2 * m + n % 2)) / 4 + d; if (t > 0) ls.insert(t); }
      for (int t : ls) {
        if (n > 14 && !deep && t < n * n / 4 - 6 && rng.below(3)) continue;
        for (int rep = 0; rep < (t > n * n / 4 - 8 ? 6 : 2); rep++) {
          transvection_sequence_t ts; ts_random_commuting(ts, n, t);
          Obj("tsrand").i("mode", 1).i("n", n).i("t", t).raw("ts", tss(ts)).emit();
        }
      }
    }
  for (int n : {9, 15, 16, 21, 30, 41})   // whole range of lengths of the other modes
    for (int mode = 2; mode < 6; mode++)
      if (scenario("lengths of mode " + std::to_string(mode) + " n=" + std::to_string(n), &rng))
        for (int t : {1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n, n + 1, 3 * n})
          for (int rep = 0; rep < 2; rep++) {
            transvection_sequence_t ts; ts_sample(ts, mode, n, t);
            Obj("tsrand").i("mode", mode).i("n", n).i("t", t).raw("ts", tss(ts)).emit();
          }
  for (int rep = 0; rep < (deep ? 60 : 10); rep++)   // predicates on indices far apart
    if (scenario("distant transvections", &rng)) {
      int n = rng.in(9, 70), id[4]; for (int& k : id) k = rng.below(n);
      for (int a = 0; a < 16; a += 3) for (int b = 0; b < 16; b++) {
        Transvection t = tv_of(id[a / 4], id[a % 4]), s = tv_of(id[b / 4], id[b % 4]);
        if (!t.is_valid(n) || !s.is_valid(n)) continue;
        Obj("commute").raw("a", tvs(t)).raw("b", tvs(s)).i("n", n).b("r", transvections_commute(t, s)).b("d", transvections_are_disjoint(t, s)).emit();
        if (b % 4 == 0) { ts_ops({t, s, t}, n, rng); Transvection q; q.random_non_commuting(n, t); Obj("noncom").i("n", n).raw("a", tvs(t)).raw("tv", tvs(q)).emit(); }
      }
    }
  for (int n = 2; n <= 4; n++)
    if (scenario("supports", &rng)) {
      std::set<std::string> seen;
      for (int k = 0; k < 3000; k++) { Transvection t; t.random(n); seen.insert(tvs(t)); }
      Obj("tvsupp").i("n", n).l("seen", std::vector<std::string>(seen.begin(), seen.end())).emit();
      for (int a = 0; a < n * n; a++) {
        Transvection t = tv_of(a / n, a % n);
        if (!t.is_valid(n)) continue;
        std::set<std::string> s2;
        for (int k = 0; k < 1500; k++) {
          Transvection s; s.random_non_commuting(n, t);
          if (k < 5) Obj("noncom").i("n", n).raw("a", tvs(t)).raw("tv", tvs(s)).emit();
          s2.insert(tvs(s));
        }
        Obj("nonsupp").i("n", n).raw("a", tvs(t)).l("seen", std::vector<std::string>(s2.begin(), s2.end())).emit();
      }
    }
  // affine maps built on sampled sequences, the object being reused
  for (int mode = 0; mode < 6; mode++)
    for (int rep = 0; rep < (deep ? 40 : 6); rep++)
      if (scenario("transvection map mode " + std::to_string(mode), &rng)) {
        TsAffineMap f;
        for (int again = 0; again < 3; again++) {
          int n = rep % 6 == 5 && again == 2 ? rng.in(20, 70) : rng.in(2, 9), t = again == 1 && rng.coin() ? 0 : rng.in(0, n + 3);
          f.random(n, t, mode);
          std::ostringstream os; f.display(os);
          auto v = ints_in(os.str());
          transvection_sequence_t ts;
          for (size_t k = 0; k + 1 < v.size(); k += 2) ts.push_back(tv_of(v[k], v[k + 1]));
          TsAffineMap g = f; g.invert();
          std::vector<bit_vector_t> xs, ys, back;
          bit_vector_t b(n); f.map(bit_vector_t(n, 0), b);
          for (int k = 0; k < (n <= 4 ? 1 << n : 12); k++) {
            bit_vector_t x = n <= 4 ? bv_of(k, n) : rng.bv(n), y = rng.bv(n), z = rng.bv(n);
            f.map(x, y);
            if (rng.coin()) g.map(y, z); else { g.map(x, z); bit_vector_t w = rng.bv(n); f.map(z, w); z = w; }
            xs.push_back(x); ys.push_back(y); back.push_back(z);
          }
          Obj("tsmap").i("mode", mode).i("n", n).i("t", t).raw("ts", tss(ts)).i("inp", f.get_input_size()).i("out", f.get_output_size())
            .b("sur", f.is_surjective()).a("b", b).raw("xs", vecs(xs)).raw("ys", vecs(ys)).raw("back", vecs(back)).emit();
        }
      }
}

struct Samples { std::vector<bit_vector_t> xs, ys; };
static Samples apply(Map& f, int nin, int nout, Rng& rng) {
  Samples s;
  int total = nin <= 4 ? 1 << nin : 10;
  for (int k = 0; k < total; k++) {
    bit_vector_t x = nin <= 4 ? bv_of(k, nin) : rng.bv(nin), y = rng.bv(nout);
    f.map(x, y);
    s.xs.push_back(x); s.ys.push_back(y);
  }
  return s;
}
static void emit_affine(const char *kind, Map& f, int rows, int cols, bool want, Rng& rng) {
  int nin = f.get_input_size(), nout = f.get_output_size();
  bit_vector_t img0 = rng.bv(rows);
  std::vector<bit_vector_t> img;
  f.map(bit_vector_t(cols, 0), img0);
  for (int k = 0; k < cols; k++) { bit_vector_t e(cols, 0), y = rng.bv(rows); e[k] = 1; f.map(e, y); img.push_back(y); }
  Samples s = apply(f, cols, rows, rng);
  Obj(kind).i("n", cols).i("rows", rows).i("cols", cols).i("inp", nin).i("out", nout).b("sur", f.is_surjective()).b("want", want)
    .a("img0", img0).raw("img", vecs(img)).raw("xs", vecs(s.xs)).raw("ys", vecs(s.ys)).emit();
}

static std::vector<int> positions(Rng& rng, int m, int n) {
  std::vector<int> all; for (int k = 0; k < n; k++) all.push_back(k);
  for (int k = n - 1; k > 0; k--) std::swap(all[k], all[rng.below(k + 1)]);
  all.resize(m);
  return all;
}

static void c15(Rng& rng) {
  bool deep = ctx().thorough;
  int reps = deep ? 300 : 50;
  for (int rep = 0; rep < reps; rep++)
    if (scenario("translations and permutations", &rng)) {
      int n = rep < 20 ? 1 + rep % 5 : rng.in(1, 70);
      Translation f; bit_vector_t b = rng.bv(n);
      if (rng.coin()) f.set_bv(b); else { f.random(rng.in(1, 8)); f.random(n); f.map(bit_vector_t(n, 0), b); }
      Samples s = apply(f, n, n, rng);
      Obj("translation").i("n", n).i("inp", f.get_input_size()).i("out", f.get_output_size()).b("sur", f.is_surjective()).a("b", b)
        .raw("xs", vecs(s.xs)).raw("ys", vecs(s.ys)).emit();
      Permutation p; if (rng.coin()) p.random(rng.in(1, 9)); p.random(n);
      emit_affine("permutation", p, n, n, true, rng);
    }
  for (int rep = 0; rep < 3 * reps; rep++)
    if (scenario("linear and affine maps", &rng)) {
      int cols = rng.in(1, 5), rows = rng.in(1, 5);
      if (rep % 10 == 9) { cols = rng.in(6, 20); rows = rng.in(4, 20); }
      if (rep % 15 == 14) { cols = rng.in(21, rng.coin() ? 70 : 140); rows = rng.coin() && cols <= 70 ? cols - rng.below(3) : rng.in(2, 12); }
      bool want = rng.coin();
      if (want && rows > cols) std::swap(rows, cols);
      LinearMap f; AffineMap g;
      if (rng.coin()) { f.random(rng.in(1, 4), rng.in(1, 4), false); g.random(rng.in(1, 4), rng.in(1, 4), false); }
      f.random(rows, cols, want); g.random(rows, cols, want);
      emit_affine("linear", f, rows, cols, want, rng);
      emit_affine("affine", g, rows, cols, want, rng);
      if (cols <= 4) {
        Samples s = apply(g, cols, rows, rng);
        Obj("surjall").b("sur", g.is_surjective()).i("out", rows).raw("ys", vecs(s.ys)).emit();
        s = apply(f, cols, rows, rng);
        Obj("surjall").b("sur", f.is_surjective()).i("out", rows).raw("ys", vecs(s.ys)).emit();
      }
    }
  for (int rep = 0; rep < 6; rep++)
    if (scenario("impossible surjections", &rng)) {
      bool r1 = false, r2 = false;
      int cols = rng.in(1, 4), rows = cols + rng.in(1, 3);
      try { LinearMap f; f.random(rows, cols, true); } catch (const std::runtime_error&) { r1 = true; }
      try { AffineMap f; f.random(rows, cols, true); } catch (const std::runtime_error&) { r2 = true; }
      Obj("refused").b("r", r1).emit(); Obj("refused").b("r", r2).emit();
      r1 = r2 = false;
      try { Injection f(std::vector<int>(rows, 0), cols); } catch (const std::runtime_error&) { r1 = true; }
      try { Projection f(std::vector<int>(rows, 0), cols); } catch (const std::runtime_error&) { r2 = true; }
      Obj("refused").b("r", r1).emit(); Obj("refused").b("r", r2).emit();
    }
  for (int rep = 0; rep < 2 * reps; rep++)
    if (scenario("injections and projections", &rng)) {
      int n = rng.in(1, rep % 8 == 0 ? 70 : 6), m = rng.in(1, n);
      if (rng.below(4) == 0) m = n;
      auto pos = positions(rng, m, n);
      Injection in(pos, n); Projection pr(pos, n);
      Samples s = apply(in, m, n, rng);
      Obj("injection").a("pos", pos).i("n", n).i("inp", in.get_input_size()).i("out", in.get_output_size()).b("sur", in.is_surjective())
        .raw("xs", vecs(s.xs)).raw("ys", vecs(s.ys)).emit();
      Samples t = apply(pr, n, m, rng);
      Obj("projection").a("pos", pos).i("n", n).i("inp", pr.get_input_size()).i("out", pr.get_output_size()).b("sur", pr.is_surjective())
        .raw("xs", vecs(t.xs)).raw("ys", vecs(t.ys)).emit();
      MapComposition c(&pr, &in);
      Samples u = apply(c, m, m, rng);
      Obj("projinj").raw("xs", vecs(u.xs)).raw("ys", vecs(u.ys)).emit();
    }
  for (int rep = 0; rep < 2 * reps; rep++)
    if (scenario("compositions", &rng)) {
      int a = rng.in(1, 5), b = rng.in(1, 5), c = rng.in(1, 5);
      int wide = rng.below(10); if (wide == 0) a = rng.in(6, 140); if (wide == 1) b = rng.in(6, 140); if (wide == 2) c = rng.in(6, 140);
      AffineMap f; f.random(b, a, false);
      AffineMap g; g.random(c, b, false);
      Translation t; t.random(c);
      MapComposition fg(&g, &f), tfg(&t, &fg);
      Map *outer = &g, *inner = &f; MapComposition *comp = &fg;
      if (rng.coin()) { outer = &t; inner = &fg; comp = &tfg; }
      // or any two maps of the other kinds
      std::unique_ptr<Map> m1, m2; std::unique_ptr<MapComposition> mc;
      if (rng.coin()) {
        auto any = [&](int nin, int nout, int k) -> Map * {
          if (nin == nout && k == 0) { auto *q = new Permutation; q->random(nin); return q; }
          if (nin == nout && k == 1) { auto *q = new Translation; q->random(nin); return q; }
          if (nin == nout && k == 2 && nin > 1) { auto *q = new TsAffineMap; q->random(nin, rng.in(0, 6), rng.below(6)); return q; }
          if (nin <= nout && k <= 3) return new Injection(positions(rng, nin, nout), nout);
          if (nin >= nout && k <= 4) return new Projection(positions(rng, nout, nin), nin);
          if (k == 5) { auto *q = new LinearMap; q->random(nout, nin, nout <= nin && rng.coin()); return q; }
          auto *q = new AffineMap; q->random(nout, nin, nout <= nin && rng.coin()); return q;
        };
        if (rng.coin()) b = a; if (rng.coin()) c = b;
        m1.reset(any(a, b, rng.below(7))); m2.reset(any(b, c, rng.below(7))); mc.reset(new MapComposition(m2.get(), m1.get()));
        outer = m2.get(); inner = m1.get(); comp = mc.get();
      }
      Samples s;
      std::vector<bit_vector_t> zs;
      for (int k = 0; k < 8; k++) {
        bit_vector_t x = rng.bv(a), m(inner->get_output_size()), y = rng.bv(c), z(y);   // injections leave the other bits alone
        comp->map(x, z);
        inner->map(x, m); outer->map(m, y);
        s.xs.push_back(x); s.ys.push_back(y); zs.push_back(z);
      }
      Obj("composition").i("ninp", a).i("nout", c).i("inp", comp->get_input_size()).i("out", comp->get_output_size())
        .b("sur", comp->is_surjective()).b("osur", outer->is_surjective()).b("isur", inner->is_surjective())
        .raw("xs", vecs(s.xs)).raw("ys", vecs(s.ys)).raw("zs", vecs(zs)).emit();
      if (a <= 4) {
        Samples q = apply(*comp, a, c, rng);
        Obj("surjall").b("sur", comp->is_surjective()).i("out", c).raw("ys", vecs(q.ys)).emit();
      }
    }
}

int main(int argc, char *argv[]) {
  init(argc, argv);
  Rng rng(0);
  if (ctx().mode == "C13") c13(rng);
  if (ctx().mode == "C14") c14(rng);
  if (ctx().mode == "C15") c15(rng);
  return finish();
}
