// Iterators (C11) and neighborhoods (C12).
#include <memory>
#include "emit.hh"
#include "hnco/iterator.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
#include "hnco/neighborhoods/neighborhood.hh"

using namespace hnco;
using namespace hnco::neighborhood;
using namespace vf;

static std::string vecs(const std::vector<bit_vector_t>& v) { std::vector<std::string> l; for (auto& r : v) l.push_back(arr(r)); return list(l); }

static Iterator *make_it(const std::string& kind, int n, int r) {
  if (kind == "hypercube") return new HypercubeIterator(n);
  if (kind == "extended") return new ExtendedHypercubeIterator(n);
  if (kind == "single") return new SingleBitFlipIterator(n);
  return new HammingSphereIterator(n, r);
}
static bool is_nb(const std::string& kind) { return kind == "single" || kind == "sphere"; }

// one history: a program over m (has_next), n (next if possible), i (init), o (set_origin + init), O (init + set_origin), d (drain)
static void history(const std::string& kind, int n, int r, const std::string& prog, Rng& rng) {
  std::unique_ptr<Iterator> it(make_it(kind, n, r));
  auto *nit = dynamic_cast<NeighborhoodIterator *>(it.get());
  Obj("it").str("kind", kind).i("n", n).i("r", r).emit();
  auto more = [&]() { bool b = it->has_next(); Obj("more").b("b", b).emit(); return b; };
  auto next = [&]() { bit_vector_t x = it->next(); Obj("next").a("x", x).emit(); };
  for (char c : prog) {
    switch (c) {
    case 'm': more(); break;
    case 'n': if (more()) next(); break;
    case 'N': if (it->has_next()) next(); break;
    case 'i': it->init(); Obj("init").emit(); break;
    case 'o': { bit_vector_t x = rng.bv(n); nit->set_origin(x); Obj("origin").a("x", x).emit(); it->init(); Obj("init").emit(); break; }
    case 'O': { bit_vector_t x = rng.bv(n); it->init(); Obj("init").emit(); nit->set_origin(x); Obj("origin").a("x", x).emit(); break; }
    case 'd': while (more()) next(); more(); break;
    }
  }
}

static void c11() {
  Rng rng(1);
  const int maxn = ctx().thorough ? 6 : 5;
  for (std::string kind : {"hypercube", "extended", "single", "sphere"})
    for (int n = 0; n <= maxn; n++)
      for (int r = (kind == "sphere" ? 0 : 1); r <= (kind == "sphere" ? n : 1); r++) {
        bool nb = is_nb(kind);
        std::vector<std::string> progs = {"d", "did", "iid", "mmnd", "nmid", "nnid", "nnnid", "didid", "nninid", "dmm", "NNNNm"};
        if (nb) for (std::string s : {"od", "Od", "odod", "onod", "nod", "nnnod", "onnOd", "onid", "ododid", "odnd"}) progs.push_back(s);
        for (auto& p : progs)
          if (scenario("iterator " + kind + " n=" + num(n) + " r=" + num(r) + " " + p, &rng)) history(kind, n, r, p, rng);
        for (int k = 0; k < (ctx().thorough ? 30 : 4); k++)
          if (scenario("random history " + kind + " n=" + num(n), &rng)) {
            std::string p;
            for (int j = 0; j < 12; j++) { char c = "mnNnnnidoO"[rng.below(nb ? 10 : 8)]; p += c; }
            history(kind, n, r, p, rng);
          }
      }
  // every program of length 4 on small sizes
  for (std::string kind : {"hypercube", "single", "sphere"}) {
    std::string alpha = is_nb(kind) ? "nido" : "nid";
    int A = alpha.size();
    for (int n = 1; n <= 3; n++)
      for (int r = 1; r <= (kind == "sphere" ? n : 1); r++)
        if (scenario("all programs " + kind + " n=" + num(n) + " r=" + num(r), &rng)) {
          int len = ctx().thorough ? 4 : 3, total = 1;
          for (int k = 0; k < len; k++) total *= A;
          for (int u = 0; u < total; u++) {
            std::string p; int v = u;
            for (int k = 0; k < len; k++, v /= A) p += alpha[v % A];
            history(kind, n, r, p + "d", rng);
          }
        }
  }
  // whole enumerations in larger dimensions
  struct Big { const char *kind; int n, r; };
  std::vector<Big> bigs = {{"hypercube", 8, 1}, {"hypercube", 9, 1}, {"extended", 8, 1}, {"single", 7, 1}, {"single", 8, 1}, {"single", 9, 1}, {"single", 63, 1}, {"single", 64, 1}, {"single", 65, 1}, {"single", 130, 1},
    {"sphere", 7, 3}, {"sphere", 8, 4}, {"sphere", 9, 2}, {"sphere", 9, 8}, {"sphere", 9, 9}, {"sphere", 10, 3}, {"sphere", 17, 16}, {"sphere", 24, 2}, {"sphere", 65, 1}, {"sphere", 33, 32}, {"sphere", 12, 10}};
  if (ctx().thorough) for (Big b : {Big{"hypercube", 12, 1}, Big{"sphere", 12, 5}, Big{"sphere", 40, 2}, Big{"sphere", 16, 3}, Big{"sphere", 65, 64}, Big{"extended", 11, 1}}) bigs.push_back(b);
  for (auto& b : bigs)
    for (int rep = 0; rep < 2; rep++)
      if (scenario(std::string("enumerate ") + b.kind + " n=" + num(b.n) + " r=" + num(b.r), &rng)) {
        std::unique_ptr<Iterator> it(make_it(b.kind, b.n, b.r));
        bit_vector_t o(b.n);
        auto *nit = dynamic_cast<NeighborhoodIterator *>(it.get());
        for (int round = 0; round < 2; round++) {
          if (rep) for (int k = 0; k < 5 && it->has_next(); k++) it->next();  // abandoned enumeration
          o = rng.bv(b.n);
          if (nit) nit->set_origin(o);
          it->init();
          std::vector<bit_vector_t> xs;
          while (it->has_next() && xs.size() < 20000) xs.push_back(it->next());
          Obj("enum").str("kind", b.kind).i("n", b.n).i("r", b.r).a("origin", o).raw("xs", vecs(xs)).emit();
        }
      }
}

static void c11_far() {
  // enumerations too long to record whole: their length, and the points visited at some positions, which must differ
  Rng rng(11);
  struct Big { const char *kind; int n, r; };
  std::vector<Big> bigs = {{"hypercube", 13, 1}, {"hypercube", 16, 1}, {"hypercube", 17, 1}, {"extended", 15, 1}, {"extended", 17, 1}, {"sphere", 20, 6}, {"sphere", 26, 22}, {"sphere", 60, 3}, {"sphere", 33, 28}};
  if (ctx().thorough) for (Big b : {Big{"hypercube", 20, 1}, Big{"extended", 20, 1}, Big{"sphere", 24, 12}, Big{"sphere", 130, 3}, Big{"sphere", 70, 4}}) bigs.push_back(b);
  for (auto& b : bigs)
    if (scenario(std::string("long enumeration ") + b.kind + " n=" + num(b.n) + " r=" + num(b.r), &rng)) {
      std::unique_ptr<Iterator> it(make_it(b.kind, b.n, b.r));
      auto *nit = dynamic_cast<NeighborhoodIterator *>(it.get());
      bit_vector_t o = rng.bv(b.n);
      if (nit) nit->set_origin(o);
      it->init();
      std::set<bit_vector_t> seen;
      std::vector<bit_vector_t> xs; long count = 0;
      while (it->has_next() && count < 4000000) { const bit_vector_t& x = it->next(); count++; seen.insert(x); if (xs.size() < 20 || rng.below(4000) == 0) xs.push_back(x); }
      Obj("long").str("kind", b.kind).i("n", b.n).i("r", b.r).a("origin", o).i("count", count).i("different", seen.size()).raw("xs", vecs(xs)).emit();
    }
}

struct Nb {
  std::string kind; int n, r; double p;
  std::unique_ptr<Neighborhood> h;
  StandardBitMutation *sbm = nullptr; HammingSphere *sph = nullptr;
  Nb(std::string k, int n_, int r_, int variant = 0, double p_ = -1) : kind(k), n(n_), r(r_), p(p_) {
    if (k == "single") h.reset(new SingleBitFlip(n));
    else if (k == "sphere") { sph = new HammingSphere(n, r); h.reset(sph); }
    else if (k == "ball") h.reset(new HammingBall(n, r));
    else {
      if (variant == 0 && p >= 0) sbm = new StandardBitMutation(n, p); else sbm = new StandardBitMutation(n);
      h.reset(sbm);
      if (variant == 1 && p >= 0) sbm->set_mutation_rate(p);
      if (variant == 3) { sbm->set_mutation_rate(0.9); sbm->set_allow_no_mutation(k != "sbm0"); }
      if (k == "sbm0") sbm->set_allow_no_mutation(true);
      else if (variant) sbm->set_allow_no_mutation(false);
      if (variant >= 2 && p >= 0) sbm->set_mutation_rate(p);
    }
  }
  Obj& obs(Obj& o) { return o.a("o", h->get_origin()).a("c", h->get_candidate()); }
  void begin() { Obj("nb").str("kind", kind).i("n", n).i("r", r).emit(); }
  void set(const bit_vector_t& x) { h->set_origin(x); Obj o("set"); o.a("x", x); obs(o).emit(); }
  void propose() { h->propose(); Obj o("propose"); o.a("f", h->get_flipped_bits()); obs(o).emit(); }
  void keep() { h->keep(); Obj o("keep"); obs(o).emit(); }
  void forget() { h->forget(); Obj o("forget"); obs(o).emit(); }
  void mutate(const bit_vector_t& x) { bit_vector_t y(x); h->mutate(y); Obj o("mutate"); o.a("x", x).a("y", y); obs(o).emit(); }
  void map(const bit_vector_t& x, bit_vector_t y) { bit_vector_t in(x); h->map(in, y); Obj o("mutate"); o.a("x", x).a("y", y).a("in", in); obs(o).emit(); }
};

static void nb_history(Nb& nb, Rng& rng, int len) {
  nb.begin();
  nb.set(rng.bv(nb.n));
  bool open = false;
  for (int k = 0; k < len; k++) {
    if (open) { open = false; if (rng.coin()) nb.keep(); else nb.forget(); continue; }
    switch (rng.below(9)) {
    case 0: nb.set(rng.bv(nb.n)); break;
    case 1: nb.mutate(rng.bv(nb.n)); break;
    case 2: nb.map(rng.bv(nb.n), rng.bv(nb.n)); break;
    case 3:
      if (nb.sph) { nb.r = rng.in(1, nb.n); nb.sph->set_radius(nb.r); Obj("config").str("kind", nb.kind).i("r", nb.r).emit(); }
      else if (nb.sbm) {
        nb.sbm->set_mutation_rate(std::vector<double>{0.9, 0.5, 1.0 / nb.n, 0.2, 2.0 / (nb.n + 1)}[rng.below(5)]);
        bool z = rng.coin(); nb.sbm->set_allow_no_mutation(z); nb.kind = z ? "sbm0" : "sbm";
        Obj("config").str("kind", nb.kind).i("r", nb.r).emit();
      }
      break;
    default:
      nb.propose();
      if (rng.below(12) == 0) nb.set(rng.bv(nb.n));   // a proposal abandoned by a new origin
      else open = true;
    }
  }
}

static void c12() {
  Rng rng(2);
  const bool th = ctx().thorough;
  struct Cfg { std::string kind; int n, r, variant; double p; };
  std::vector<Cfg> cfgs;
  for (int n : {1, 2, 3, 4, 5, 8, 9, 17, 64, 65, 130}) {
    cfgs.push_back({"single", n, 1, 0, -1});
    std::set<int> rs = {1, 2, 3, n / 2, n - 1, n, int(std::sqrt(double(n))), int(std::sqrt(double(n))) + 1};
    for (int r : rs) if (r >= 1 && r <= n) { cfgs.push_back({"sphere", n, r, 0, -1}); cfgs.push_back({"ball", n, r, 0, -1}); }
    for (std::string k : {"sbm", "sbm0"})
      for (int v = 0; v < 4; v++)
        for (double p : {-1.0, 0.5, 0.1, 1.0, 0.02}) if (v < 2 || (p >= 0 && n > 8)) cfgs.push_back({k, n, 1, v, p});
  }
  for (auto& c : cfgs)
    for (int rep = 0; rep < (th ? 4 : 1); rep++)
      if (scenario("neighborhood " + c.kind + " n=" + num(c.n) + " r=" + num(c.r) + " variant " + num(c.variant) + " p=" + num(c.p), &rng)) {
        Nb nb(c.kind, c.n, c.r, c.variant, c.p);
        nb_history(nb, rng, c.n > 60 ? 15 : 40);
      }
  // supports and frequencies, small dimensions
  struct S { std::string kind; int n, r, variant; double p; };
  std::vector<S> ss;
  for (int n = 1; n <= 5; n++) {
    ss.push_back({"single", n, 1, 0, -1});
    for (int r = 1; r <= n; r++) { ss.push_back({"sphere", n, r, 0, -1}); ss.push_back({"ball", n, r, 0, -1}); }
    if (n <= 4) for (std::string k : {"sbm", "sbm0"}) for (int v = 0; v < 4; v++) for (double p : {0.5, 0.35}) if (n > 1 || v == 0) ss.push_back({k, n, 1, v, p});
  }
  for (auto& s : ss)
    for (int how = 0; how < 3; how++)
      if (scenario("support " + s.kind + " n=" + num(s.n) + " r=" + num(s.r) + " how " + num(how), &rng)) {
        Nb nb(s.kind, s.n, s.r, s.variant, s.p);
        bit_vector_t x = rng.bv(s.n), y(s.n);
        nb.h->set_origin(x);
        const int N = 12000;
        std::map<int, int> count;
        for (int k = 0; k < N; k++) {
          if (how == 0) { nb.h->propose(); y = nb.h->get_candidate(); nb.h->forget(); }
          else if (how == 1) { y = x; nb.h->mutate(y); }
          else nb.h->map(x, y);
          bit_vector_t z(s.n); for (int j = 0; j < s.n; j++) z[j] = x[j] != y[j];
          count[bv_index(z)]++;
        }
        std::vector<int> seen; for (auto& c : count) seen.push_back(c.first);
        Obj("support").str("kind", s.kind).i("n", s.n).i("r", s.r).a("seen", seen).emit();
        if (s.kind == "single" || s.kind == "sphere") {
          std::vector<int> c; for (auto& q : count) c.push_back(q.second);
          long K = 1; for (int j = 0; j < s.r; j++) K = K * (s.n - j) / (j + 1);
          Obj("uniform").i("k", K).i("N", N).a("c", c).emit();
        }
        if (s.kind == "ball") {
          std::vector<int> c(s.r, 0); for (auto& q : count) { int w = __builtin_popcount(q.first); if (w >= 1 && w <= s.r) c[w - 1] += q.second; }
          Obj("uniform").i("k", s.r).i("N", N).a("c", c).emit();
        }
      }
  // frequencies with the other sampling method: large dimension, small radius; positions are uniform
  for (std::string kind : {"sphere", "ball", "single"})
    for (int r : {1, 2, 3, 5, 9})
      if (scenario("positions " + kind + " r=" + num(r), &rng)) {
        if (kind == "single" && r > 1) continue;
        const int n = 10;
        Nb nb(kind, n, r);
        bit_vector_t x = rng.bv(n), y(n);
        std::vector<int> c(n, 0), ck(r, 0); long T = 0; const int N = 12000;
        for (int k = 0; k < N; k++) {
          nb.h->map(x, y); int w = 0;
          for (int j = 0; j < n; j++) if (x[j] != y[j]) { c[j]++; T++; w++; }
          if (w >= 1 && w <= r) ck[w - 1]++;
        }
        Obj("uniform").i("k", n).i("N", T).a("c", c).emit();
        if (kind == "ball") Obj("uniform").i("k", r).i("N", N).a("c", ck).emit();
      }
  for (int n : {26, 50, 100, 170})   // many dimensions: every number of flips of a ball, every position
    for (std::string kind : {"sphere", "ball"})
      for (int r : {1, 3, 4, 7, 8, 9, 10, 12, 13, 14, 20})
        if (scenario("positions " + kind + " n=" + num(n) + " r=" + num(r), &rng)) {
          Nb nb(kind, n, r);
          bit_vector_t x = rng.bv(n), y(n);
          std::vector<int> c(n, 0), ck(r, 0); long T = 0; const int N = 600 * n / r + 3000 * (kind == "ball" ? r : 1);
          for (int k = 0; k < N; k++) {
            nb.h->map(x, y); int w = 0;
            for (int j = 0; j < n; j++) if (x[j] != y[j]) { c[j]++; T++; w++; }
            if (w >= 1 && w <= r) ck[w - 1]++;
          }
          Obj("spread").i("k", n).i("N", T).a("c", c).emit();
          if (kind == "ball") Obj("uniform").i("k", r).i("N", N).a("c", ck).emit();
        }
  for (int n : {1, 2, 4, 9})
    for (int q : {2, 4, 8})
      for (int v = 0; v < 4; v++)
        for (int z = 0; z < 2; z++)
          if (scenario("rate n=" + num(n) + " 1/" + num(q), &rng)) {
            if (n * std::log2(double(q)) > 14) continue;   // stay within the model's integers
            Nb nb(z ? "sbm0" : "sbm", n, 1, v, 1.0 / q);
            bit_vector_t x = rng.bv(n), y(n); const int N = 20000; long T = 0;
            for (int k = 0; k < N; k++) { nb.h->map(x, y); for (int j = 0; j < n; j++) T += x[j] != y[j]; }
            Obj("rate").i("n", n).i("q", q).b("zero", z).i("N", N).i("T", T).emit();
          }
}

int main(int argc, char *argv[]) {
  init(argc, argv);
  if (ctx().mode == "C11") { c11(); c11_far(); } else c12();
  return finish();
}
