// Local searches: C19. Every evaluation of every run is followed by the specification.
#include "search.hh"

#include "hnco/algorithms/complete-search.hh"
#include "hnco/algorithms/local-search/all.hh"
#include "hnco/algorithms/evolutionary-algorithms/all.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"

using namespace vf;
using namespace hnco::algorithm;
using namespace hnco::neighborhood;

struct Conf {
  std::string alg = "rls", nb = "single", accept = "maybe";
  int n = 3, r = 1, patience = 0, N = 0, start = -1, trials = 0, T = 0, k0 = 0, kmin = 0, kmax = 0, gain = 0, cool = 0;
  bool strict = false, wide = false;
  bit_vector_t from;
  std::string json() const {
    Obj o;
    o.str("alg", alg).str("nb", nb).str("accept", accept).i("n", n).i("r", r).i("patience", patience).i("N", N).i("start", start)
     .i("trials", trials).i("T", T).i("k0", k0).i("kmin", kmin).i("kmax", kmax).i("gain", gain).b("strict", strict).b("wide", wide).a("from", from).i("cool", cool);
    return o.get();
  }
};

static std::shared_ptr<Neighborhood> make_nb(const Conf& c) {
  if (c.nb == "single") return std::make_shared<SingleBitFlip>(c.n);
  if (c.nb == "ball") return std::make_shared<HammingBall>(c.n, c.r);
  if (c.nb == "sphere") return std::make_shared<HammingSphere>(c.n, c.r);
  auto a = std::make_shared<StandardBitMutation>(c.n);
  a->set_allow_no_mutation(c.nb == "sbm0");
  return a;
}

static std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> v; std::istringstream is(s); std::string l;
  while (std::getline(is, l)) v.push_back(l);
  return v;
}

// extra[i]: records to insert after evaluation i
static void report(const Conf& c, const Table& t, const Outcome& o, const std::map<size_t, std::string>& extra = {}) {
  Obj("begin").raw("c", c.json()).emit();
  if (c.wide) {   // points as bits
    std::vector<bit_vector_t> at(t.ids.size() + 1); for (auto& q : t.ids) at[q.second] = q.first;
    auto pt = [&](int id) { return id > 0 && id < (int)at.size() ? arr(at[id]) : std::string("[]"); };
    for (auto& e : o.evs) Obj("eval").raw("x", pt(e.x)).i("v", e.r).b("inc", e.inc).raw("ox", pt(e.ox)).i("ov", e.inc ? t.rank_of(e.ov) : 0).emit();
    Obj(o.cause == "done" ? "done" : "stop").raw("x", pt(o.x)).i("v", o.r).emit();
    return;
  }
  for (size_t i = 0; i < o.evs.size(); i++) {
    auto& e = o.evs[i];
    Obj("eval").i("x", e.x).i("v", e.r).b("inc", e.inc).i("ox", e.ox).i("ov", e.inc ? t.rank_of(e.ov) : 0).emit();
    auto it = extra.find(i);
    if (it != extra.end()) { std::fputs((it->second + "\n").c_str(), ctx().out); ctx().events++; }
  }
  Obj(o.cause == "done" ? "done" : "stop").i("x", o.x).i("v", o.r).emit();
}

static std::string table_json(const Table& t) {
  std::vector<int> f; for (double d : t.v) f.push_back(t.rank_of(d));
  return arr(f);
}

static Table two_levels(int n, Rng& rng) {
  std::vector<double> v(1u << n);
  for (size_t i = 0; i < v.size(); i++) v[i] = __builtin_popcount((unsigned)i) & 1;
  double a = rng.in(-5, 5), b = rng.in(1, 9);
  for (auto& d : v) d = a + b * d;
  return Table(n, v);
}
static Table some_table(int n, Rng& rng) { return make_table(n, rng.below(NUM_TABLE_KINDS + 2), rng); }

int main(int argc, char *argv[]) {
  init(argc, argv);
  if (ctx().mode != "C19") return 64;
  const int reps = ctx().thorough ? 12 : 3;
  const char *nbs[] = {"single", "ball", "sphere", "sbm", "sbm0"};

  auto setup = [](auto& a, const Conf& c) {
    a.set_num_iterations(c.N);
    if (c.start >= 0) { a.set_random_initialization(false); a.set_starting_point(bv_of(c.start, c.n)); }
  };
  auto random_conf = [&](Rng& rng, const std::string& alg, const std::string& nb) {
    Conf c; c.alg = alg; c.nb = nb;
    c.n = rng.in(nb == "sphere" || nb == "ball" ? 2 : 1, rng.below(6) ? 5 : 9);
    c.r = nb == "sphere" || nb == "ball" ? rng.in(1, c.n) : 1;
    c.N = rng.coin() ? rng.in(1, 30) : 0;
    c.start = rng.coin() ? rng.below(1 << c.n) : -1;
    return c;
  };

  // random local search
  for (auto nb : nbs) for (int strict = 0; strict < 2; strict++) for (int inc = 0; inc < 2; inc++)
    for (int patience : {0, 1, 4, 50}) for (int rep = 0; rep < reps; rep++) {
      Rng rng(1);
      if (!scenario(std::string("rls ") + nb, &rng)) continue;
      Conf c = random_conf(rng, "rls", nb);
      c.patience = patience; c.strict = strict;
      Table t = some_table(c.n, rng);
      auto h = make_nb(c);
      RandomLocalSearch a(c.n, h.get());
      setup(a, c);
      if (strict) a.set_compare(std::greater<double>());
      if (patience != 50) a.set_patience(patience);
      a.set_incremental_evaluation(inc);
      for (int run = 0; run < 2; run++)
        report(c, t, run_algorithm(a, t, rng.next() % 1000000007, 150, -1, 1, inc));
    }
  // (1+1) EA
  for (int rep = 0; rep < 8 * reps; rep++) {
    Rng rng(1);
    if (!scenario("one plus one", &rng)) continue;
    Conf c = random_conf(rng, "rls", rep % 2 ? "sbm" : "sbm0");
    c.start = -1;
    bool inc = rng.coin();
    OnePlusOneEa a(c.n);
    a.set_num_iterations(c.N);
    a.set_allow_no_mutation(rep % 2 == 0);
    a.set_incremental_evaluation(inc);
    if (rep % 4 == 3) { a.set_mutation_rate(1); c.nb = "sphere"; c.r = c.n; }
    Table t = some_table(c.n, rng);
    for (int run = 0; run < 2; run++)
      report(c, t, run_algorithm(a, t, rng.next() % 1000000007, 100, -1, 1, inc));
  }
  // self-adjusting (1+1) EA, with its rate
  for (int rep = 0; rep < 10 * reps; rep++) {
    Rng rng(1);
    if (!scenario("self adjusting", &rng)) continue;
    Conf c = random_conf(rng, "rls", rep % 2 ? "sbm" : "sbm0");
    c.start = -1;
    bool inc = rng.coin();
    c.kmin = rng.in(1, 3); c.k0 = c.kmin + rng.below(4); c.kmax = c.k0 + rng.below(5); c.gain = rng.in(1, 4);
    SelfAdjustingOnePlusOneEa a(c.n);
    a.set_num_iterations(c.N);
    a.set_allow_no_mutation(rep % 2 == 0);
    a.set_incremental_evaluation(inc);
    a.set_mutation_rate_init(std::ldexp(1, -c.k0));
    a.set_mutation_rate_min(std::ldexp(1, -c.kmax));
    a.set_mutation_rate_max(std::ldexp(1, -c.kmin));
    a.set_update_strength(2);
    a.set_success_ratio(c.gain);
    a.set_log_mutation_rate(true);
    Table t = some_table(c.n, rng);
    for (int run = 0; run < 2; run++) {
      Outcome o; std::vector<std::string> ls;
      { Quiet q; o = run_algorithm(a, t, rng.next() % 1000000007, 80, -1, 1, inc); ls = lines(q.os.str()); }
      std::map<size_t, std::string> extra;
      // one line per complete iteration
      bool all = ls.size() + 1 == o.evs.size();
      for (size_t i = 0; i + 1 < o.evs.size(); i++) {
        double rate = all ? std::strtod(ls[i].c_str(), nullptr) : 0;
        double k = rate > 0 ? -std::log2(rate) : 1e6;
        int ki = std::fabs(k - std::round(k)) < 1e-4 ? (int)std::round(k) : BAD;
        extra[i + 1] = Obj("rate").i("k", ki).get();
      }
      report(c, t, o, extra);
    }
  }
  // random walk
  for (auto nb : nbs) for (int inc = 0; inc < 2; inc++) for (int rep = 0; rep < 2 * reps; rep++) {
    Rng rng(1);
    if (!scenario(std::string("walk ") + nb, &rng)) continue;
    Conf c = random_conf(rng, "walk", nb);
    auto h = make_nb(c);
    RandomWalk a(c.n, h.get());
    setup(a, c);
    a.set_incremental_evaluation(inc);
    bool log = rng.coin();
    if (log) a.set_log_value();
    Table t = log ? make_table(c.n, 0, rng) : some_table(c.n, rng);   // printed values are small integers
    for (int run = 0; run < 2; run++) {
      Outcome o; std::vector<std::string> ls;
      { Quiet q; o = run_algorithm(a, t, rng.next() % 1000000007, 80, -1, 1, inc); ls = lines(q.os.str()); }
      std::map<size_t, std::string> extra;
      if (log) for (size_t i = 0; i + 1 < o.evs.size(); i++)
        extra[i + 1] = Obj("value").i("v", ls.size() + 1 == o.evs.size() ? t.rank_of(std::strtod(ls[i].c_str(), nullptr)) : BAD).get();
      report(c, t, o, extra);
    }
  }
  // climbers
  for (int steep = 0; steep < 2; steep++) for (auto nb : {"single", "sphere"}) for (int rep = 0; rep < 20 * reps; rep++) {
    Rng rng(1);
    if (!scenario(std::string(steep ? "steepest " : "first ") + nb, &rng)) continue;
    Conf c = random_conf(rng, steep ? "steepest" : "first", nb);
    if (c.N) c.N = rng.in(1, 4);
    std::shared_ptr<NeighborhoodIterator> h;
    if (c.nb == "single") h = std::make_shared<SingleBitFlipIterator>(c.n);
    else h = std::make_shared<HammingSphereIterator>(c.n, c.r);
    Table t = some_table(c.n, rng);
    auto go = [&](auto& a) {
      setup(a, c);
      for (int run = 0; run < 3; run++) {
        Outcome o = run_algorithm(a, t, rng.next() % 1000000007, run == 1 ? rng.in(1, 12) : 3000, -1);
        report(c, t, o);
        if (o.cause == "done") Obj("top").raw("f", table_json(t)).i("x", o.x).emit();
      }
    };
    if (steep) { SteepestAscentHillClimbing a(c.n, h.get()); go(a); }
    else { FirstAscentHillClimbing a(c.n, h.get()); go(a); }
  }
  // simulated annealing
  for (auto nb : nbs) for (auto accept : {"maybe", "always", "never", "count"}) for (int rep = 0; rep < 3 * reps; rep++) {
    Rng rng(1);
    if (!scenario(std::string("annealing ") + nb + " " + accept, &rng)) continue;
    Conf c = random_conf(rng, "sa", nb);
    c.n = std::max(c.n, 3);
    c.accept = accept; c.trials = rng.in(1, 12);
    auto h = make_nb(c);
    SimulatedAnnealing a(c.n, h.get());
    setup(a, c);
    a.set_num_trials(c.trials);
    // integer values: worsenings between 1 and 1000
    Table t = make_table(c.n, rng.coin() ? 0 : 9, rng);
    int T = rng.in(1, 6);
    a.set_num_transitions(T);
    if (c.accept == "maybe") a.set_initial_acceptance_probability(0.5);
    if (c.accept == "always") a.set_initial_acceptance_probability(1);
    if (c.accept == "never") { a.set_initial_acceptance_probability(1e-300); a.set_num_transitions(1000000); }
    if (c.accept == "count") { a.set_initial_acceptance_probability(1 - 1e-12); a.set_beta_ratio(1e20); c.T = T; }
    Outcome o = run_algorithm(a, t, rng.next() % 1000000007, 2 * c.trials + 60, -1);
    // without a worsening trial the temperature is not defined
    bool worse = false; double all = 0;
    for (int i = 0; i < c.trials && (size_t)(2 * i + 2) < o.evs.size(); i++) {
      double u = t.v[o.evs[2 * i + 1].x], w = t.v[o.evs[2 * i + 2].x];
      if (w < u) { worse = true; all += u - w; }
    }
    if (!worse) c.accept = "maybe";
    report(c, t, o);
  }
  for (int rep = 0; rep < (ctx().thorough ? 16 : 8); rep++) {
    Rng rng(1);
    if (!scenario("acceptance probability", &rng)) continue;
    Conf c; c.alg = "sa"; c.nb = "single"; c.n = rng.in(3, 5); c.trials = 40; c.N = ctx().thorough ? 6000 : 2500;
    int p = rng.in(2, 8) * 10;
    auto h = make_nb(c);
    SimulatedAnnealing a(c.n, h.get());
    setup(a, c);
    a.set_num_trials(c.trials);
    a.set_num_transitions(1000000);
    a.set_initial_acceptance_probability(p / 100.0);
    Table t = two_levels(c.n, rng);
    Outcome o = run_algorithm(a, t, rng.next() % 1000000007, -1, -1);
    report(c, t, o);
    // at least a third of the proposals are worse; 9% is more than six standard deviations
    Obj("share").i("p", p).i("tol", 11).i("least", c.N / 4).emit();
  }
  // cooling
  for (int rep = 0; rep < (ctx().thorough ? 10 : 3); rep++) {
    Rng rng(1);
    if (!scenario("cooling", &rng)) continue;
    Conf c; c.alg = "sa"; c.nb = "single"; c.n = rng.in(3, 5); c.trials = 30; c.N = 8000; c.cool = 700;
    int p = rng.in(8, 9) * 100, ratio = rng.in(2, 3);
    auto h = make_nb(c);
    SimulatedAnnealing a(c.n, h.get());
    setup(a, c);
    a.set_num_trials(c.trials); a.set_num_transitions(c.cool); a.set_initial_acceptance_probability(p / 1000.0); a.set_beta_ratio(ratio);
    Table t = two_levels(c.n, rng);
    for (int run = 0; run < 2; run++) {
      Outcome o = run_algorithm(a, t, rng.next() % 1000000007, -1, -1);
      report(c, t, o);
      // 700 acceptances: one standard deviation is below four per cent
      Obj("stages").i("p", p).i("ratio", ratio).i("tol", 27).i("least", 3).emit();
    }
  }
  // many bits
  for (auto alg : {"rls", "walk", "first", "steepest", "sa", "ea"}) for (int rep = 0; rep < (std::string(alg) == "rls" ? 10 : 5) * (ctx().thorough ? 6 : 1); rep++) {
    Rng rng(1);
    if (!scenario(std::string("many bits ") + alg, &rng)) continue;
    const std::string al = alg; Conf c; c.alg = al == "ea" ? "rls" : al; c.wide = true; c.n = rng.in(10, rng.coin() ? 140 : 40);
    const bool climb = al == "first" || al == "steepest", inc = rng.coin() && !climb && al != "sa";
    c.nb = climb ? (rng.below(3) ? "single" : "sphere") : al == "ea" ? (rng.coin() ? "sbm" : "sbm0") : nbs[rng.below(5)];
    if (climb && c.nb == "sphere") c.n = rng.in(8, 13);
    c.r = c.nb == "sphere" || c.nb == "ball" ? rng.in(1, climb ? 2 : std::min(c.n, 40)) : 1;
    c.N = rng.coin() ? rng.in(1, climb ? 6 : 400) : 0; c.strict = al == "rls" && rng.coin(); c.patience = al == "rls" ? (rng.coin() ? 0 : rng.in(5, 150)) : 0;
    if (al != "ea" && rng.coin()) c.from = rng.bv(c.n);
    if (al == "sa") { c.trials = rng.in(1, 30); c.accept = "maybe"; }
    Table t(c.n, rng.below(3));
    const long budget = 400;
    auto go = [&](auto& a) { a.set_num_iterations(c.N); for (int run = 0; run < 2; run++) report(c, t, run_algorithm(a, t, rng.next() % 1000000007, budget, -1, 1, inc)); };
    auto begin = [&](auto& a) { if (!c.from.empty()) { a.set_random_initialization(false); a.set_starting_point(c.from); } };
    auto h = climb ? nullptr : make_nb(c);
    if (al == "rls") { RandomLocalSearch a(c.n, h.get()); begin(a); if (c.strict) a.set_compare(std::greater<double>()); a.set_patience(c.patience); a.set_incremental_evaluation(inc); go(a); }
    if (al == "ea") { OnePlusOneEa a(c.n); a.set_allow_no_mutation(c.nb == "sbm0"); a.set_incremental_evaluation(inc); go(a); }
    if (al == "walk") { RandomWalk a(c.n, h.get()); begin(a); a.set_incremental_evaluation(inc); go(a); }
    if (al == "sa") { SimulatedAnnealing a(c.n, h.get()); begin(a); a.set_num_trials(c.trials); go(a); }
    if (climb) {
      std::shared_ptr<NeighborhoodIterator> it;
      if (c.nb == "single") it = std::make_shared<SingleBitFlipIterator>(c.n); else it = std::make_shared<HammingSphereIterator>(c.n, c.r);
      if (al == "steepest") { SteepestAscentHillClimbing a(c.n, it.get()); begin(a); go(a); } else { FirstAscentHillClimbing a(c.n, it.get()); begin(a); go(a); }
    }
  }
  // complete search
  for (int n = 1; n <= (ctx().thorough ? 11 : 9); n++) for (int rep = 0; rep < (n > 7 ? 1 : 2); rep++) {
    Rng rng(1);
    if (!scenario("complete", &rng)) continue;
    Conf c; c.alg = "complete"; c.n = n;
    Table t = some_table(n, rng);
    CompleteSearch a(n);
    report(c, t, run_algorithm(a, t, rng.next() % 1000000007, -1, -1));
  }
  // starting points
  for (int n = 1; n <= 4; n++) {
    Rng rng(1);
    if (!scenario("starts", &rng)) continue;
    Obj("forget").emit();
    for (int k = 0; k < 400; k++) {
      Conf c; c.n = n; c.nb = "single"; c.N = 1;
      Table t = some_table(n, rng);
      auto h = make_nb(c);
      RandomLocalSearch a(n, h.get());
      a.set_num_iterations(1);
      report(c, t, run_algorithm(a, t, rng.next() % 1000000007, -1, -1));
    }
    Obj("starts").emit();
  }
  return finish();
}
