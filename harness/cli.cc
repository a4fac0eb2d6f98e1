// C27: the command line programs. The application is run in child processes, once with the
// evaluations of the concrete function recorded, and as the real executable.
#include "emit.hh"
#include <algorithm>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <mutex>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include "hnco/algorithms/all.hh"
#include "hnco/exception.hh"
#include "hnco/functions/all.hh"
#include "hnco/maps/map.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/app/hnco-options.hh"
#include "hnco/app/algorithm-factory.hh"
#include "hnco/app/function-factory.hh"
#include "hnco/app/application.hh"

using namespace hnco;
using namespace vf;
using function::Function;
using algorithm::Algorithm;
typedef std::vector<std::string> Args;

// ---------------------------------------------------------------- processes

static std::string scratch;                  // directory of this shard
static std::string exe_dir;
static std::string path_of(const std::string& name) { return scratch + "/" + name; }
static std::string slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::ostringstream s; s << f.rdbuf();
  return s.str();
}
static bool exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }
static void put(const std::string& p, const std::string& c) { std::ofstream f(p, std::ios::binary); f << c; }
static std::vector<std::string> lines_of(const std::string& s) {
  std::vector<std::string> r; std::istringstream is(s); std::string l;
  while (std::getline(is, l)) r.push_back(l);
  return r;
}

struct Done { int rc = -1; std::string out, err; };

static std::string child_log;
static std::mutex log_mutex;
static std::string child_log_path;
static void child_exit(int status, void *) {
  std::cout.flush(); std::fflush(stdout); std::fflush(stderr);
  if (!child_log_path.empty()) put(child_log_path, child_log);
  _exit(status & 255);
}

// Run body in a child process; its standard output and error are kept.
static Done in_child(const std::function<int()>& body, const std::string& input = "", int secs = 30) {
  std::fflush(ctx().out); std::fflush(stdout);
  std::string o = path_of("out.txt"), e = path_of("err.txt"), in = path_of("in.txt");
  put(in, input);
  pid_t pid = fork();
  if (pid < 0) { std::perror("fork"); std::exit(70); }
  if (pid == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) std::signal(s, SIG_DFL);
    int fi = open(in.c_str(), O_RDONLY), fo = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644), fe = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fi, 0); dup2(fo, 1); dup2(fe, 2);
    if (chdir(scratch.c_str()) != 0) _exit(99);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 64u << 20; setrlimit(RLIMIT_FSIZE, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    alarm(secs);
    int r = body();
    std::exit(r);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  Done d;
  d.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  d.out = slurp(o); d.err = slurp(e);
  if (d.rc == 1000 + SIGALRM) {     // it does not end: no need to look further
    Obj("hang").str("out", d.out.substr(0, 200)).str("err", d.err.substr(0, 200)).emit();
    std::fflush(ctx().out);
    std::exit(0);
  }
  return d;
}

static Done program(const std::string& name, const Args& args, const std::string& input = "") {
  std::string exe = exe_dir + "/repo_app__" + name + "_cc.exe";
  return in_child([&]() {
    std::vector<char *> a;
    a.push_back(const_cast<char *>(name.c_str()));
    for (auto& s : args) a.push_back(const_cast<char *>(s.c_str()));
    a.push_back(nullptr);
    execv(exe.c_str(), a.data());
    return 98;
  }, input);
}

// ---------------------------------------------------------------- the recorded application

// Everything reaches the function it stands for; evaluations that count are recorded.
struct Recorder : Function {
  Function *f;
  int copy;
  Recorder(Function *f_, int copy_) : f(f_), copy(copy_) {}
  static void note(char kind, unsigned long x, double v) {
    char b[96]; std::snprintf(b, sizeof b, "%c %lu %.17g\n", kind, x, v);
    std::lock_guard<std::mutex> l(log_mutex);
    child_log += b;
  }
  int get_bv_size() const override { return f->get_bv_size(); }
  double get_maximum() const override { return f->get_maximum(); }
  bool has_known_maximum() const override { return f->has_known_maximum(); }
  bool provides_incremental_evaluation() const override { return f->provides_incremental_evaluation(); }
  double evaluate(const bit_vector_t& x) override { double v = f->evaluate(x); note('e', bv_index(x), v); return v; }
  double evaluate_incrementally(const bit_vector_t& x, double value, const sparse_bit_vector_t& fl) override {
    double v = f->evaluate_incrementally(x, value, fl);
    bit_vector_t y = x;
    for (auto i : fl) y[i] ^= 1;
    note('i', bv_index(y), v);
    return v;
  }
  double evaluate_safely(const bit_vector_t& x) override { double v = f->evaluate_safely(x); note('s', bv_index(x), v); return v; }
  void update(const bit_vector_t& x, double v) override { f->update(x, v); note('u', bv_index(x), v); }
  void display(std::ostream& s) const override { f->display(s); }
  void describe(const bit_vector_t& x, std::ostream& s) override { f->describe(x, s); }
};

struct RecordingFactory : hnco::app::FunctionFactory {
  hnco::app::CommandLineFunctionFactory inner;
  int copies = 0;
  explicit RecordingFactory(const hnco::app::HncoOptions& o) : inner(o) {}
  Function *make() override { return new Recorder(inner.make(), copies++); }
};

struct Ev { char kind; unsigned long x; double v; };

// Like the program, but with recorded evaluations and possibly another algorithm.
static Done application(const Args& args, std::vector<Ev>& evs, hnco::app::AlgorithmFactory *algo = nullptr, const std::string& input = "") {
  std::string lp = path_of("log.txt");
  put(lp, "");
  Done d = in_child([&]() {
    child_log.clear(); child_log_path = lp;
    on_exit(child_exit, nullptr);
    std::vector<char *> a;
    static std::string name = "hnco";
    a.push_back(&name[0]);
    for (auto& s : args) a.push_back(const_cast<char *>(s.c_str()));
    int argc = (int)a.size();
    a.push_back(nullptr);
    hnco::app::HncoOptions options(argc, a.data());
    RecordingFactory ff(options);
    hnco::app::CommandLineAlgorithmFactory af(options);
    hnco::app::CommandLineApplication app(options, ff, algo ? *algo : (hnco::app::AlgorithmFactory&)af);
    try { app.run(); }
    catch (const std::runtime_error& e) { std::cerr << e.what() << std::endl; return 1; }
    return 0;
  }, input);
  evs.clear();
  std::istringstream is(slurp(lp));
  std::string k; unsigned long x; std::string v;
  while (is >> k >> x >> v) evs.push_back(Ev{k[0], x, std::strtod(v.c_str(), nullptr)});
  return d;
}

static std::string S(int v) { return std::to_string(v); }
static std::string S(double v) { char b[64]; std::snprintf(b, sizeof b, "%.12g", v); return b; }

// ---------------------------------------------------------------- configurations of algorithms

struct P {
  int alg = 100, it = 0, nbh = 0, nbi = 0, radius = 2, patience = 50;
  bool strict = false, inc = false, rwlog = false;
  double rate = -1; bool nomut = false;
  int lambda = 100, mu = 10, tourn = 2;
  double xbias = 0.5, xprob = 0.5, rmax = 0.5, rmin = -1, sratio = 4, ustr = 1.01;
  int ithw = 0, itrep = 0; bool lograte = false, logcenter = false;
  int pop = 10, sel = 1; double lr = 0.001;
  bool logent = false, logpv = false; int comps = 5;
  double ramx = 0.1, ramlat = 0.5, ramdist = 0.1; int ramlen = 10, ramper = 10000, ramlow = 0, rammode = 0, ramup = 20;
  bool mstrict = false;
  bool hbound = true, hrand = true; int hreset = 0; bool hl1 = false, hl2 = false, hl3 = false, hl4 = false;
  int cyc = 1, steps = 100, breset = 1, bsamp = 1; bool nps = false, bl1 = false, bl2 = false;
  int trans = 50, trials = 100; double iap = 0.6, beta = 1.2;
};

static Args args_of(const P& p, bool shorts) {
  P d; Args a;
  auto I = [&](const char *o, int v, int dv) { if (v != dv) { a.push_back(std::string("--") + o); a.push_back(S(v)); } };
  auto D = [&](const char *o, double v, double dv) { if (v != dv) { a.push_back(std::string("--") + o); a.push_back(S(v)); } };
  auto B = [&](const char *o, bool v, bool dv) { if (v != dv) a.push_back(std::string("--") + o); };
  if (shorts) { a.push_back("-A"); a.push_back(S(p.alg)); } else I("algorithm", p.alg, -1);
  if (shorts && p.it != d.it) { a.push_back("-i"); a.push_back(S(p.it)); } else I("num-iterations", p.it, d.it);
  if (shorts && p.nbh != d.nbh) { a.push_back("-N"); a.push_back(S(p.nbh)); } else I("neighborhood", p.nbh, d.nbh);
  I("neighborhood-iterator", p.nbi, d.nbi); I("radius", p.radius, d.radius);
  I("rls-patience", p.patience, d.patience); B("rls-strict", p.strict, d.strict); B("incremental-evaluation", p.inc, d.inc); B("rw-log-value", p.rwlog, d.rwlog);
  if (shorts && p.rate != d.rate) { a.push_back("-m"); a.push_back(S(p.rate)); } else D("ea-mutation-rate", p.rate, d.rate);
  B("ea-allow-no-mutation", p.nomut, d.nomut);
  I("ea-lambda", p.lambda, d.lambda); I("ea-mu", p.mu, d.mu); I("ea-tournament-size", p.tourn, d.tourn);
  D("ea-crossover-bias", p.xbias, d.xbias); D("ea-crossover-probability", p.xprob, d.xprob); D("ea-mutation-rate-max", p.rmax, d.rmax);
  D("ea-mutation-rate-min", p.rmin, d.rmin); D("ea-success-ratio", p.sratio, d.sratio); D("ea-update-strength", p.ustr, d.ustr);
  I("ea-it-initial-hamming-weight", p.ithw, d.ithw); I("ea-it-replacement", p.itrep, d.itrep); B("ea-log-mutation-rate", p.lograte, d.lograte); B("ea-it-log-center-fitness", p.logcenter, d.logcenter);
  if (shorts && p.pop != d.pop) { a.push_back("-x"); a.push_back(S(p.pop)); } else I("population-size", p.pop, d.pop);
  if (shorts && p.sel != d.sel) { a.push_back("-y"); a.push_back(S(p.sel)); } else I("selection-size", p.sel, d.sel);
  if (shorts && p.lr != d.lr) { a.push_back("-l"); a.push_back(S(p.lr)); } else D("learning-rate", p.lr, d.lr);
  B("pv-log-entropy", p.logent, d.logent); B("pv-log-pv", p.logpv, d.logpv); I("pv-log-num-components", p.comps, d.comps);
  D("ram-crossover-probability", p.ramx, d.ramx); D("ram-latent-space-probability", p.ramlat, d.ramlat); D("ram-ts-length-distribution-parameter", p.ramdist, d.ramdist);
  I("ram-ts-length", p.ramlen, d.ramlen); I("ram-ts-length-increment-period", p.ramper, d.ramper); I("ram-ts-length-lower-bound", p.ramlow, d.ramlow);
  I("ram-ts-length-mode", p.rammode, d.rammode); I("ram-ts-length-upper-bound", p.ramup, d.ramup);
  B("mmas-strict", p.mstrict, d.mstrict);
  if (!p.hbound) { a.push_back("--hea-bound-moment"); a.push_back("false"); }
  if (!p.hrand) { a.push_back("--hea-randomize-bit-order"); a.push_back("false"); }
  I("hea-reset-period", p.hreset, d.hreset);
  B("hea-log-delta-norm", p.hl1, d.hl1); B("hea-log-herding-error", p.hl2, d.hl2); B("hea-log-target", p.hl3, d.hl3); B("hea-log-target-norm", p.hl4, d.hl4);
  I("bm-num-gs-cycles", p.cyc, d.cyc); I("bm-num-gs-steps", p.steps, d.steps); I("bm-reset-mode", p.breset, d.breset); I("bm-sampling-mode", p.bsamp, d.bsamp);
  B("bm-negative-positive-selection", p.nps, d.nps); B("bm-log-norm-1", p.bl1, d.bl1); B("bm-log-norm-infinite", p.bl2, d.bl2);
  I("sa-num-transitions", p.trans, d.trans); I("sa-num-trials", p.trials, d.trials); D("sa-initial-acceptance-probability", p.iap, d.iap); D("sa-beta-ratio", p.beta, d.beta);
  return a;
}

static neighborhood::Neighborhood *the_neighborhood(const P& p, int n) {
  using namespace neighborhood;
  switch (p.nbh) {
  case 0: return new SingleBitFlip(n);
  case 1: { auto x = new StandardBitMutation(n); x->set_allow_no_mutation(p.nomut); if (p.rate >= 0) x->set_mutation_rate(p.rate); return x; }
  case 2: return new HammingBall(n, p.radius);
  default: return new HammingSphere(n, p.radius);
  }
}
static neighborhood::NeighborhoodIterator *the_iterator(const P& p, int n) {
  using namespace neighborhood;
  if (p.nbi == 0) return new SingleBitFlipIterator(n);
  return new HammingSphereIterator(n, p.radius);
}

// The library algorithm that the options ask for.
struct Direct : hnco::app::AlgorithmFactory {
  P p;
  explicit Direct(const P& p_) : p(p_) {}
  template<class T> T *pv(T *a) { a->set_num_iterations(p.it); a->set_log_entropy(p.logent); a->set_log_pv(p.logpv); a->set_log_num_components(p.comps); return a; }
  template<class T> T *ram(T *a) {
    a->set_selection_size(p.sel); a->set_ts_length(p.ramlen); a->set_ts_length_distribution_parameter(p.ramdist); a->set_ts_length_increment_period(p.ramper);
    a->set_ts_length_lower_bound(p.ramlow); a->set_ts_length_mode(p.rammode); a->set_ts_length_upper_bound(p.ramup); return a;
  }
  template<class T> T *hea(T *a) {
    a->set_bound_moment(p.hbound); a->set_learning_rate(p.lr); a->set_num_iterations(p.it); a->set_randomize_bit_order(p.hrand); a->set_reset_period(p.hreset); a->set_selection_size(p.sel);
    a->set_log_delta_norm(p.hl1); a->set_log_herding_error(p.hl2); a->set_log_target(p.hl3); a->set_log_target_norm(p.hl4); return a;
  }
  template<class T> T *bm(T *a) {
    a->set_learning_rate(p.lr); a->set_num_gs_cycles(p.cyc); a->set_num_gs_steps(p.steps); a->set_num_iterations(p.it); a->set_reset_mode(p.breset); a->set_sampling_mode(p.bsamp);
    a->set_selection_size(p.sel); a->set_log_norm_1(p.bl1); a->set_log_norm_infinite(p.bl2); a->set_negative_positive_selection(p.nps); return a;
  }
  Algorithm *make(int n) override {
    using namespace hnco::algorithm;
    switch (p.alg) {
    case 0: return new CompleteSearch(n);
    case 10: { auto a = new RandomSearch(n); a->set_num_iterations(p.it); return a; }
    case 20: { auto a = new RandomWalk(n, the_neighborhood(p, n)); a->set_num_iterations(p.it); a->set_incremental_evaluation(p.inc); if (p.rwlog) a->set_log_value(); return a; }
    case 100: { auto a = new RandomLocalSearch(n, the_neighborhood(p, n)); a->set_num_iterations(p.it); a->set_patience(p.patience); a->set_incremental_evaluation(p.inc); if (p.strict) a->set_compare(std::greater<double>()); return a; }
    case 150: { auto a = new SteepestAscentHillClimbing(n, the_iterator(p, n)); a->set_num_iterations(p.it); return a; }
    case 160: { auto a = new FirstAscentHillClimbing(n, the_iterator(p, n)); a->set_num_iterations(p.it); return a; }
    case 200: { auto a = new SimulatedAnnealing(n, the_neighborhood(p, n)); a->set_num_iterations(p.it); a->set_num_transitions(p.trans); a->set_num_trials(p.trials); a->set_initial_acceptance_probability(p.iap); a->set_beta_ratio(p.beta); return a; }
    case 300: { auto a = new OnePlusOneEa(n); a->set_num_iterations(p.it); a->set_allow_no_mutation(p.nomut); a->set_incremental_evaluation(p.inc); if (p.rate >= 0) a->set_mutation_rate(p.rate); return a; }
    case 301: { auto a = new SelfAdjustingOnePlusOneEa(n); a->set_num_iterations(p.it); a->set_allow_no_mutation(p.nomut); a->set_incremental_evaluation(p.inc); a->set_log_mutation_rate(p.lograte);
      a->set_mutation_rate_max(p.rmax); a->set_success_ratio(p.sratio); a->set_update_strength(p.ustr); if (p.rate >= 0) a->set_mutation_rate_init(p.rate); if (p.rmin >= 0) a->set_mutation_rate_min(p.rmin); return a; }
    case 310: { auto a = new MuPlusLambdaEa(n, p.mu, p.lambda); a->set_num_iterations(p.it); a->set_allow_no_mutation(p.nomut); if (p.rate >= 0) a->set_mutation_rate(p.rate); return a; }
    case 320: { auto a = new MuCommaLambdaEa(n, p.mu, p.lambda); a->set_num_iterations(p.it); a->set_allow_no_mutation(p.nomut); if (p.rate >= 0) a->set_mutation_rate(p.rate); return a; }
    case 330: { auto a = new TwoRateOnePlusLambdaEa(n, p.lambda); a->set_num_iterations(p.it); a->set_allow_no_mutation(p.nomut); a->set_log_mutation_rate(p.lograte); if (p.rate >= 0) a->set_mutation_rate_init(p.rate); return a; }
    case 340: { auto a = new InformationTheoreticEa(n, p.pop); a->set_initial_hamming_weight(p.ithw); a->set_learning_rate(p.lr); a->set_mutation_rate_max(p.rmax); a->set_num_iterations(p.it);
      a->set_replacement(p.itrep); a->set_selection_size(p.sel); a->set_allow_no_mutation(p.nomut); a->set_log_center_fitness(p.logcenter); a->set_log_mutation_rate(p.lograte);
      if (p.rate >= 0) a->set_mutation_rate_init(p.rate); if (p.rmin >= 0) a->set_mutation_rate_min(p.rmin); return a; }
    case 400: { auto a = new GeneticAlgorithm(n, p.mu); a->set_crossover_probability(p.xprob); a->set_num_iterations(p.it); a->set_tournament_size(p.tourn); a->set_allow_no_mutation(p.nomut); if (p.rate >= 0) a->set_mutation_rate(p.rate); return a; }
    case 450: { auto a = new OnePlusLambdaCommaLambdaGa(n, p.mu); a->set_crossover_bias(p.xbias); a->set_num_iterations(p.it); if (p.rate >= 0) a->set_mutation_rate(p.rate); return a; }
    case 500: { auto a = pv(new Pbil(n, p.pop)); a->set_learning_rate(p.lr); a->set_selection_size(p.sel); return a; }
    case 501: { auto a = pv(new NpsPbil(n, p.pop)); a->set_learning_rate(p.lr); a->set_selection_size(p.sel); return a; }
    case 600: { auto a = pv(new Umda(n, p.pop)); a->set_selection_size(p.sel); return a; }
    case 610: return ram(pv(new RamUmda(n, p.pop)));
    case 612: { auto a = ram(pv(new RamUmda2(n, p.pop))); a->set_crossover_probability(p.ramx); a->set_latent_space_probability(p.ramlat); return a; }
    case 700: { auto a = pv(new CompactGa(n)); a->set_learning_rate(p.lr); return a; }
    case 800: { auto a = pv(new Mmas(n)); a->set_learning_rate(p.lr); if (p.mstrict) a->set_compare(std::greater<double>()); return a; }
    case 900: return hea(new walsh_moment::Hea<walsh_moment::FullMomentHerding>(n, p.pop));
    case 901: return hea(new walsh_moment::Hea<walsh_moment::TriangularMomentHerding>(n, p.pop));
    case 1000: return bm(new walsh_moment::BmPbil<walsh_moment::FullMomentGibbsSampler>(n, p.pop));
    case 1001: return bm(new walsh_moment::BmPbil<walsh_moment::TriangularMomentGibbsSampler>(n, p.pop));
    case 1100: { auto a = new Mimic(n, p.pop); a->set_num_iterations(p.it); a->set_selection_size(p.sel); return a; }
    case 1110: { auto a = new fast_efficient_p3::Hboa(n); a->set_population_size(p.pop); return a; }
    case 1200: { auto a = new fast_efficient_p3::Ltga(n); a->set_population_size(p.pop); return a; }
    case 1250: return new hnco::algorithm::gomea::Gomea(n);
    case 1300: return new fast_efficient_p3::ParameterLessPopulationPyramid(n);
    }
    throw std::runtime_error("no such algorithm");
  }
};

static const std::vector<int>& algorithms() {
  static std::vector<int> v = {0, 10, 20, 100, 150, 160, 200, 300, 301, 310, 320, 330, 340, 400, 450, 500, 501, 600, 610, 612,
                               700, 800, 900, 901, 1000, 1001, 1100, 1110, 1200, 1250, 1300};
  return v;
}

// Options the algorithm understands, at random; the others keep their defaults.
static P random_params(int alg, int n, Rng& r) {
  static const double rates[] = {0.1, 0.25, 0.4}, probs[] = {0.2, 0.7, 0.9}, lrs[] = {0.05, 0.2, 0.4};
  P p;
  p.alg = alg;
  p.it = r.below(5) == 0 ? 0 : r.in(1, 12);
  auto nb = [&]() { p.nbh = r.below(4); p.radius = r.in(1, 3); };
  auto mut = [&]() { p.nomut = r.coin(); if (r.coin()) p.rate = rates[r.below(3)]; };
  auto eda = [&]() { p.pop = r.in(5, 12); p.sel = r.in(1, p.pop / 2); };
  auto pvl = [&]() { p.logent = r.coin(); p.logpv = r.coin(); p.comps = r.in(1, n / 2); };
  switch (alg) {
  case 20: nb(); mut(); p.inc = r.coin(); p.rwlog = r.coin(); break;
  case 100: nb(); mut(); p.inc = r.coin(); p.strict = r.coin(); p.patience = r.in(0, 20); break;
  case 150: case 160: p.nbi = r.below(2); p.radius = r.in(1, 3); break;
  case 200: nb(); mut(); p.trans = r.in(1, 8); p.trials = r.in(10, 30); p.iap = probs[r.below(3)]; p.beta = 1.1 + 0.2 * r.below(4); break;
  case 300: mut(); p.inc = r.coin(); break;
  case 301: mut(); p.inc = r.coin(); p.lograte = r.coin(); if (r.coin()) p.rmin = 0.05; p.rmax = r.below(3) == 0 ? 0.6 : 0.15 + 0.1 * r.below(3); p.sratio = r.in(2, 6); p.ustr = 1.05 + 0.25 * r.below(4); break;
  case 310: mut(); p.mu = r.in(1, 6); p.lambda = r.in(1, 8); break;
  case 320: mut(); p.mu = r.in(1, 4); p.lambda = p.mu + r.in(0, 4); break;
  case 330: p.nomut = r.coin(); if (r.coin()) p.rate = 0.25; p.lambda = 2 * r.in(1, 4); p.lograte = r.coin(); break;
  case 340: eda(); p.nomut = r.coin(); if (r.below(3)) p.rate = r.coin() ? 0.25 : 0.4; p.ithw = r.in(0, n - 1); p.itrep = r.below(3) == 0 ? 4 : r.below(5); p.lograte = r.coin(); p.logcenter = r.coin();
    p.lr = lrs[r.below(3)]; if (r.coin()) p.rmin = 0.05; if (r.below(4)) p.rmax = r.coin() ? 0.15 : r.coin() ? 0.2 : 0.45; break;
  case 400: mut(); p.mu = r.in(4, 7); p.tourn = r.in(2, 3); p.xprob = probs[r.below(3)]; break;
  case 450: p.mu = r.in(2, 5); p.xbias = probs[r.below(3)]; if (r.coin()) p.rate = rates[r.below(3)]; break;
  case 500: case 501: eda(); pvl(); p.lr = lrs[r.below(3)]; break;
  case 600: eda(); pvl(); break;
  case 610: case 612: eda(); pvl(); p.rammode = r.below(5); p.ramlow = r.in(0, 3); p.ramup = p.ramlow + r.in(0, 8); p.ramlen = r.in(p.ramlow, p.ramup); p.ramper = r.in(1, 3);
    p.ramdist = probs[r.below(3)]; if (alg == 612) { p.ramx = probs[r.below(3)]; p.ramlat = probs[r.below(3)]; } break;
  case 700: pvl(); p.lr = lrs[r.below(3)]; break;
  case 800: pvl(); p.lr = lrs[r.below(3)]; p.mstrict = r.coin(); break;
  case 900: case 901: eda(); p.lr = lrs[r.below(3)]; p.hbound = r.coin(); p.hrand = r.coin(); p.hreset = r.in(0, 3); p.hl1 = r.coin(); p.hl2 = r.coin(); p.hl3 = r.coin(); p.hl4 = r.coin(); break;
  case 1000: case 1001: eda(); p.lr = lrs[r.below(3)]; p.cyc = r.in(1, 3); p.steps = r.in(1, 40); p.breset = r.below(3); p.bsamp = r.below(3); p.nps = r.coin(); p.bl1 = r.coin(); p.bl2 = r.coin(); break;
  case 1100: eda(); break;
  case 1110: case 1200: p.pop = 2 * r.in(3, 8); break;
  }
  return p;
}

// ---------------------------------------------------------------- configurations of functions

struct F { int id = 0, n = 8, thr = 10, traps = 10, prefix = 2; };
static Args args_of(const F& f, bool shorts) {
  F d; Args a;
  a.push_back(shorts ? "-F" : "--function"); a.push_back(S(f.id));
  a.push_back(shorts ? "-s" : "--bv-size"); a.push_back(S(f.n));
  if (f.thr != d.thr) { a.push_back(shorts ? "-t" : "--fn-threshold"); a.push_back(S(f.thr)); }
  if (f.traps != d.traps) { a.push_back("--fn-num-traps"); a.push_back(S(f.traps)); }
  if (f.prefix != d.prefix) { a.push_back("--fn-prefix-length"); a.push_back(S(f.prefix)); }
  return a;
}
static std::unique_ptr<Function> make_f(const F& f) {
  using namespace hnco::function;
  switch (f.id) {
  case 0: return std::make_unique<OneMax>(f.n);
  case 5: { auto l = std::make_unique<LinearFunction>(); double w = 1; l->generate(f.n, [&w]() { double r = w; w *= 2; return r; }); return l; }
  case 10: return std::make_unique<LeadingOnes>(f.n);
  case 11: return std::make_unique<Ridge>(f.n);
  case 20: return std::make_unique<Needle>(f.n);
  case 30: return std::make_unique<Jump>(f.n, f.thr);
  case 31: return std::make_unique<DeceptiveJump>(f.n, f.thr);
  case 40: return std::make_unique<FourPeaks>(f.n, f.thr);
  case 41: return std::make_unique<SixPeaks>(f.n, f.thr);
  case 80: return std::make_unique<Labs>(f.n);
  case 81: { auto l = std::make_unique<Labs>(f.n); l->set_merit_factor_flag(true); return l; }
  case 100: return std::make_unique<SummationCancellation>(f.n);
  case 101: return std::make_unique<SinusSummationCancellation>(f.n);
  case 110: return std::make_unique<Trap>(f.n, f.traps);
  case 120: return std::make_unique<Hiff>(f.n);
  case 130: return std::make_unique<Plateau>(f.n);
  case 140: return std::make_unique<LongPath>(f.n, f.prefix);
  }
  throw std::runtime_error("no such function");
}
static F random_f(Rng& r, bool integer_only = true) {
  static const int ids[] = {0, 5, 10, 11, 20, 30, 31, 40, 41, 80, 110, 120, 130, 140};
  F f; f.id = ids[r.below(14)]; f.n = 8;
  if (f.id == 30 || f.id == 31) f.thr = r.in(1, 6);
  if (f.id == 40 || f.id == 41) f.thr = r.in(1, 3);
  if (f.id == 110) f.traps = r.coin() ? 2 : 4;
  if (f.id == 140) { f.prefix = r.coin() ? 2 : 4; }
  if (f.id == 0 || f.id == 10 || f.id == 20) f.n = r.in(8, 9);
  return f;
}

static std::vector<double> table_of(Function& f) {
  int n = f.get_bv_size();
  std::vector<double> t(1u << n);
  for (size_t i = 0; i < t.size(); i++) t[i] = f.evaluate(bv_of(i, n));
  return t;
}

// ---------------------------------------------------------------- what is printed

struct Results { bool ok = false; int value = BAD, num = BAD, total = BAD, success = -1, ratio = -1; bool extra = false; };
static int read_int(const std::string& s) {
  char *e; double d = std::strtod(s.c_str(), &e);
  if (e == s.c_str() || *e) return BAD;
  return iv(d);
}
// {"key": value, ...}: every key once, in any layout.
static Results parse_results(const std::string& s) {
  Results r;
  std::map<std::string, std::string> kv;
  size_t i = s.find('{'), j = s.rfind('}');
  if (i == std::string::npos || j == std::string::npos) return r;
  std::string body = s.substr(i + 1, j - i - 1), item;
  std::istringstream is(body);
  while (std::getline(is, item, ',')) {
    size_t c = item.find(':');
    if (c == std::string::npos) return r;
    std::string k = item.substr(0, c), v = item.substr(c + 1);
    auto strip = [](std::string t) { std::string o; for (char ch : t) if (!isspace((unsigned char)ch)) o += ch; return o; };
    k = strip(k); v = strip(v);
    if (k.size() < 2 || k[0] != '"' || k.back() != '"' || kv.count(k)) return r;
    kv[k.substr(1, k.size() - 2)] = v;
  }
  if (!kv.count("value") || !kv.count("num_evaluations") || !kv.count("total_num_evaluations")) return r;
  r.ok = true;
  r.value = read_int(kv["value"]); r.num = read_int(kv["num_evaluations"]); r.total = read_int(kv["total_num_evaluations"]);
  if (kv.count("success")) r.success = kv["success"] == "true" ? 1 : kv["success"] == "false" ? 0 : 2;
  if (kv.count("lookup_ratio")) r.ratio = (int)std::floor(std::strtod(kv["lookup_ratio"].c_str(), nullptr) * 100000 + 0.5);
  return r;
}
static std::string rec(const Results& r) {
  return Obj().b("ok", r.ok).i("value", r.value).i("num", r.num).i("total", r.total).i("success", r.success).i("ratio", r.ratio).get();
}
static int parse_bv(const std::string& s, int n) {
  if ((int)s.size() != n) return BAD;
  int u = 0;
  for (int i = 0; i < n; i++) { if (s[i] == '1') u |= 1 << i; else if (s[i] != '0') return BAD; }
  return u;
}

static Args cat(std::initializer_list<Args> l) { Args r; for (auto& a : l) r.insert(r.end(), a.begin(), a.end()); return r; }

// ---------------------------------------------------------------- runs

static const char *exprs[] = {"x", "2*x+3", "x*x-4*x", "-x"};

static std::vector<int> make_map_file(int kind, int out, int in, const std::string& path, Rng& r) {
  using namespace hnco::map;
  std::ofstream s(path);
  boost::archive::text_oarchive ar(s);
  std::unique_ptr<Map> m; std::unique_ptr<Permutation> p; std::unique_ptr<Translation> t;
  switch (kind) {
  case 1: { auto x = std::make_unique<Translation>(); x->random(out); ar << *x; m = std::move(x); break; }
  case 2: { auto x = std::make_unique<Permutation>(); x->random(out); ar << *x; m = std::move(x); break; }
  case 3: { p = std::make_unique<Permutation>(); t = std::make_unique<Translation>(); p->random(out); t->random(out); ar << *p << *t; m = std::make_unique<MapComposition>(p.get(), t.get()); break; }
  case 4: { auto x = std::make_unique<LinearMap>(); x->random(out, in, false); ar << *x; m = std::move(x); break; }
  case 5: { auto x = std::make_unique<AffineMap>(); x->random(out, in, false); ar << *x; m = std::move(x); break; }
  default: { auto x = std::make_unique<TsAffineMap>(); x->random(out, 5, TsAffineMap::SamplingMode::unconstrained); ar << *x; m = std::move(x); break; }
  }
  int ni = m->get_input_size();
  std::vector<int> tab(1u << ni);
  bit_vector_t y(m->get_output_size());
  for (size_t i = 0; i < tab.size(); i++) { m->map(bv_of(i, ni), y); tab[i] = (int)bv_index(y); }
  return tab;
}

static void run_records(Rng& r, int alg) {
  F f = random_f(r);
  auto fn = make_f(f);
  auto tab = table_of(*fn);
  int n = f.n, ni = n;
  double top = *std::max_element(tab.begin(), tab.end()), low = *std::min_element(tab.begin(), tab.end());
  P p = random_params(alg, n, r);
  // logging of the algorithm itself is the subject of other records
  p.rwlog = p.lograte = p.logcenter = p.logent = p.logpv = p.hl1 = p.hl2 = p.hl3 = p.hl4 = p.bl1 = p.bl2 = false;
  bool shorts = r.coin();
  Args a = cat({args_of(f, shorts), args_of(p, shorts)});
  auto flag = [&](const char *o) { a.push_back(o); };
  auto opt = [&](const char *o, const std::string& v) { a.push_back(o); a.push_back(v); };
  int expr = r.below(3) == 0 ? r.in(1, 3) : 0;
  bool mini = r.below(3) == 0;
  std::vector<int> map;
  int kind = r.below(3) == 0 ? r.in(1, 6) : 0;
  int threads = 1;
  if (kind == 0 && expr == 0 && !mini && r.below(4) == 0) threads = r.in(2, 4);
  if (expr) { flag("--parsed-modifier"); opt("--expression", exprs[expr]); }
  if (mini) flag("--minimize");
  if (kind) {
    ni = kind == 4 || kind == 5 ? r.in(8, 10) : n;
    map = make_map_file(kind, n, ni, path_of("map.txt"), r);
    if (shorts) opt("-M", S(kind)); else opt("--map", S(kind));
    opt("--map-path", path_of("map.txt"));
  }
  if (threads > 1) opt("--num-threads", S(threads));
  auto deco = [&](double v) {
    if (expr == 1) v = 2 * v + 3; if (expr == 2) v = v * v - 4 * v; if (expr == 3) v = -v;
    return mini ? -v : v;
  };
  int budget = r.below(6) == 0 ? 0 : r.in(1, 120);
  int stop = r.below(3);
  bool endless = p.it == 0 || alg >= 1100;
  bool restart = r.below(6) == 0 && alg != 1110;
  if ((endless || restart) && budget == 0) budget = r.in(50, 300);
  bool cache = r.below(3) == 0, cbud = r.coin();
  // a cache counted below the budget lets an endless run go on for ever
  if (cache && !cbud && (endless || restart)) cbud = true;
  if (alg == 0 && budget == 0) budget = 5000;
  a.push_back(shorts ? "-b" : "--budget"); a.push_back(S(budget));
  if (cache) flag("--cache");
  if (cbud) flag("--cache-budget");
  int goal = 0;
  bool known = fn->has_known_maximum() && expr == 0 && !mini && (kind == 0 || kind == 1 || kind == 2 || kind == 3 || kind == 6);
  if (stop == 1 && !known) stop = 2;
  if (stop == 1) { flag("--stop-on-maximum"); goal = iv(top); if (r.below(4) == 0) opt("--target", S((int)low - 5)); }
  if (stop == 2) {
    double v = deco(tab[r.below((int)tab.size())]);
    for (int q = r.below(12); q > 0; q--) v = std::max(v, deco(tab[r.below((int)tab.size())]));
    goal = (int)v + (r.below(3) == 0 ? 1 : 0);
    opt("--target", S(goal));
  }
  if (restart) flag("--restart");
  bool logi = r.below(4) == 0, pres = r.below(8) != 0, psol = r.coin(), sres = r.coin(), ssol = r.coin(), conc = kind && r.coin(), pdesc = r.below(4) == 0;
  if (logi) flag("--log-improvement");
  if (pres) flag("--print-results");
  if (psol) flag("--print-solution");
  if (conc) flag("--concrete-solution");
  std::string rp = path_of("r.json"), sp = path_of("s.txt"), dp = path_of("d.txt");
  for (auto& q : {rp, sp, dp}) std::remove(q.c_str());
  if (sres) { flag("--save-results"); opt("--results-path", rp); }
  if (ssol) { flag("--save-solution"); opt("--solution-path", sp); }
  if (pdesc) { flag("--save-description"); opt("--description-path", dp); }
  int seed = r.in(1, 1000000);
  opt("--seed", S(seed));
  // options may come in any order: rotate at an option boundary
  std::vector<Ev> evs;
  Done d = application(a, evs);

  // standard output: improvement lines, results, solution
  std::string out = d.out;
  std::vector<std::string> imp;
  int psolv = -1;
  bool clean = true;
  {
    std::vector<std::string> ls = lines_of(out);
    size_t i = 0;
    while (logi && i < ls.size() && ls[i].find('{') == std::string::npos && ls[i].find(' ') != std::string::npos) {
      std::istringstream is(ls[i]); std::string k, v; is >> k >> v;
      imp.push_back(arr(std::vector<int>{read_int(k), read_int(v)}));
      i++;
    }
    std::string js;
    if (pres) while (i < ls.size()) { js += ls[i] + "\n"; if (ls[i++].find('}') != std::string::npos) break; }
    Results pr = pres ? parse_results(js) : Results();
    if (psol) { psolv = i < ls.size() ? parse_bv(ls[i], conc ? n : ni) : BAD; i++; }
    if (i != ls.size()) clean = false;
    Results sr = sres ? parse_results(slurp(rp)) : Results();
    int ssolv = -1;
    if (ssol) { auto sl = lines_of(slurp(sp)); ssolv = sl.size() == 1 ? parse_bv(sl[0], conc ? n : ni) : BAD; }
    // the program itself does the same
    std::string keep_r = slurp(rp), keep_s = slurp(sp), keep_d = slurp(dp);
    for (auto& q : {rp, sp, dp}) std::remove(q.c_str());
    Done m = program("hnco", a);
    bool same = m.rc == d.rc && m.out == d.out && slurp(rp) == keep_r && slurp(sp) == keep_s && slurp(dp) == keep_d;
    bool files = exists(rp) == sres && exists(sp) == ssol && exists(dp) == pdesc;
    // the saved solution can be loaded and has the value announced
    int reload = -1;
    if (ssol && !conc) {
      Args b = cat({args_of(f, shorts)});
      if (expr) { b.push_back("--parsed-modifier"); b.push_back("--expression"); b.push_back(exprs[expr]); }
      if (mini) b.push_back("--minimize");
      if (kind) { b.push_back("--map"); b.push_back(S(kind)); b.push_back("--map-path"); b.push_back(path_of("map.txt")); }
      if (r.coin()) { b.push_back("--budget"); b.push_back("1"); }
      b.push_back("--load-solution"); b.push_back("--solution-path"); b.push_back(sp); b.push_back("--print-results");
      Done l = program("hnco", b);
      auto ll = lines_of(l.out);
      reload = l.rc == 0 && ll.size() == 1 ? read_int(ll[0]) : BAD;
    }
    // what counts is what reaches the tracker: evaluations, or updates after a parallel evaluation
    Obj("start").raw("c", Obj().i("alg", alg).i("n", n).i("expr", expr).b("min", mini).a("map", map).i("budget", budget).b("cache", cache).b("cbud", cbud)
      .i("stop", stop).i("goal", goal).b("restart", restart).i("threads", threads).b("conc", conc).b("endless", endless).i("it", p.it).b("logi", logi)
      .b("pres", pres).b("psol", psol).b("sres", sres).b("ssol", ssol).get()).emit();
    for (auto& e : evs) if (e.kind != 's') Obj("ev").i("x", (long)e.x).d("v", e.v).d("f", tab[e.x]).emit();
    Obj("end").i("rc", d.rc).raw("p", rec(pr)).raw("s", rec(sr)).i("psol", psolv).i("ssol", ssolv).l("imp", imp)
      .b("clean", clean).b("same", same).b("files", files).i("reload", reload).emit();
  }
}

// The same seed gives the same random map: what was saved by a run can be read by another one.
static void reload_records(Rng& r) {
  F f = random_f(r); f.n = 8;
  if (f.id == 40 || f.id == 41) f.thr = 2;
  int kind = r.in(1, 6);
  std::string sp = path_of("s.txt");
  Args a = cat({args_of(f, true), {"--map", S(kind), "--map-random", "--map-input-size", S(kind == 4 || kind == 5 ? r.in(6, 12) : 8), "--seed", S(r.in(1, 1000000))}});
  if (kind == 6) { a.push_back("--map-ts-length"); a.push_back(S(r.in(1, 12))); a.push_back("--map-ts-sampling-mode"); a.push_back(S(r.below(2))); }
  if (r.coin()) a.push_back("--minimize");
  Args b = cat({a, {"-A", "310", "--ea-mu", "3", "--ea-lambda", "4", "-i", "8", "--num-threads", S(r.in(1, 3)), "--print-results", "--save-solution", "--solution-path", sp}});
  std::remove(sp.c_str());
  Done d = program("hnco", b);
  Results q = parse_results(d.out);
  Done l = program("hnco", cat({a, {"--load-solution", "--solution-path", sp, "--print-results"}}));
  auto ll = lines_of(l.out);
  Done d2 = program("hnco", b);
  Obj("reload").i("rc", d.rc).i("value", q.value).i("again", l.rc == 0 && ll.size() == 1 ? read_int(ll[0]) : BAD - 1).b("twice", d2.out == d.out && d2.rc == d.rc).emit();
}

// ---------------------------------------------------------------- noise and random maps

// An algorithm that asks the same question again and again.
struct Insist : Algorithm {
  bit_vector_t x; int times;
  Insist(int n, unsigned long u, int t) : Algorithm(n), x(bv_of(u, n)), times(t) {}
  void maximize(const std::vector<Function *>& fs) override {
    set_functions(fs);
    for (int k = 0; k < times; k++) { double v = _function->evaluate(x); Recorder::note('v', bv_index(x), v); if (k == 0) set_solution(x, v); else update_solution(x, v); }
  }
};
struct InsistFactory : hnco::app::AlgorithmFactory {
  unsigned long u; int times;
  InsistFactory(unsigned long u_, int t) : u(u_), times(t) {}
  Algorithm *make(int n) override { return new Insist(n, u, times); }
};

static void noise_records(Rng& r, int kind) {
  static const double rates[] = {0.1, 0.25, 0.4};
  const int n = r.in(4, 7), T = 1500;
  unsigned long u = r.below(1 << n);
  InsistFactory f(u, T);
  int radius = r.in(1, 3), q = r.below(3); bool zero = r.coin(), given = r.coin();
  // without prior noise, the radius and rates of the search must not matter either
  Args a = {"-F", "5", "-s", S(n), "--seed", S(r.in(1, 1000000)), "--radius", S(radius % 3 + 1), "-m", "0.5"};
  if (r.coin()) a.push_back("--ea-allow-no-mutation");
  if (kind < 4) {
    a = cat({a, {"--prior-noise", "--pn-neighborhood", S(kind)}});
    if (kind == 1 && zero) a.push_back("--pn-allow-no-mutation");
    if (kind == 1 && given) a = cat({a, {"--pn-mutation-rate", S(rates[q])}});
    if (kind >= 2) a = cat({a, {"--pn-radius", S(radius)}});
  }
  int sd = r.in(1, 9);
  if (kind == 4) a = cat({a, {"--additive-gaussian-noise", "--noise-stddev", S(sd)}});
  if (r.coin()) a = cat({a, {"--budget", S(T)}});
  std::vector<Ev> evs;
  Done d = application(a, evs, &f);
  std::vector<int> weights(n + 1), flips(n); int num = 0, one = 0, two = 0, up = 0; bool right = true; double last = 0;
  for (auto& e : evs) {
    if (e.kind == 'e') { num++; last = e.v; unsigned long y = e.x ^ u; int w = 0; for (int k = 0; k < n; k++) if (y >> k & 1) { w++; flips[k]++; } weights[w]++; if (e.v != double(e.x)) right = false; }
    if (e.kind == 'v') { double dv = std::fabs(e.v - last); if (dv <= sd) one++; if (dv <= 2 * sd) two++; if (e.v > last) up++; if (kind != 4 && dv != 0) right = false; }
  }
  Obj("noise").i("rc", d.rc).i("kind", kind).i("n", n).i("num", num).i("T", T).i("radius", radius).i("rate", given ? (int)std::lround(rates[q] * 1000000) : 1000000 / n).b("zero", zero)
    .a("weights", weights).a("flips", flips).i("one", one).i("two", two).i("up", up).b("right", right).emit();
}

// Every point, through a random map.
static void random_map_records(Rng& r) {
  int kind = r.in(1, 6), out = r.in(2, 7), in = kind == 4 || kind == 5 ? r.in(2, 8) : out;
  bool sur = r.below(3) != 0 && in >= out;
  Args fa = {"-F", "5", "-s", S(out), r.coin() ? "-M" : "--map", S(kind), "--map-random", "--map-input-size", S(in), "--seed", S(r.in(1, 99999))};
  if (sur) fa.push_back("--map-surjective");
  if (kind == 6) fa = cat({fa, {"--map-ts-length", S(r.in(0, 6)), "--map-ts-sampling-mode", S(r.below(6))}});
  Done z = program("hnco", cat({fa, {"--fn-get-bv-size"}}));
  std::vector<Ev> evs;
  Done c = application(cat({fa, {"-A", "0", "-b", "0"}}), evs);
  std::vector<int> img; for (auto& e : evs) img.push_back((int)e.x);
  Obj("mapgen").i("rc", z.rc).i("kind", kind).i("n", out).i("ni", in).b("sur", sur).str("size", z.out).str("want", S(in) + "\n").i("rcs", c.rc).a("img", img).emit();
}

// ---------------------------------------------------------------- the human algorithm

static void human_records(Rng& r) {
  const int n = r.in(3, 6), lines = r.in(1, 9), it = r.coin() ? 0 : r.in(1, 6), budget = r.coin() ? 0 : r.in(1, 6);
  std::string input; std::vector<std::string> ins;
  bool first = true;
  for (int k = 0; k < lines; k++) {
    int len = r.below(3) ? n : r.in(1, n + 3); if (first && k == lines - 1) len = n;
    std::string t; int x = 0;
    for (int j = 0; j < len; j++) { int b = r.below(2); t += char('0' + b); if (j < n) x |= b << j; }
    if (len >= n) first = false;
    input += t + (r.below(4) ? "\n" : " ");
    ins.push_back(Obj().i("len", len).i("x", x).get());
  }
  if (r.coin()) input += "quit\n";
  std::vector<Ev> evs;
  Done d = application({"-A", "30", "-F", "5", "-s", S(n), "-i", S(it), "-b", S(budget), "--print-results", "--print-solution"}, evs, nullptr, input);
  auto ls = lines_of(d.out);
  size_t k = 0; while (k < ls.size() && ls[k].find('{') == std::string::npos) k++;
  std::string js; while (k < ls.size()) { js += ls[k] + "\n"; if (ls[k++].find('}') != std::string::npos) break; }
  Results q = parse_results(js.empty() ? js : js.substr(js.find('{')));
  std::vector<int> xs; for (auto& e : evs) xs.push_back((int)e.x);
  Obj("human").i("rc", d.rc).i("n", n).i("it", it).i("budget", budget).l("ins", ins).a("xs", xs).raw("p", rec(q)).i("sol", k < ls.size() ? parse_bv(ls[k], n) : BAD).emit();
}

// ---------------------------------------------------------------- parsed functions

static void parsed_records(Rng& r, int id) {
  static const char *ex[] = {"x+2*y", "x*y-3", "y*y-4*x", "x+y::x-y", "2*x::y-5::x*y", "x"};
  static const char *cx[] = {"z+1", "z*z", "z::z-2"};
  bool cplx = id % 10 == 2, several = id >= 520;
  int k = cplx ? (several ? r.below(3) : r.below(2)) : several ? r.below(6) : r.below(3);
  std::string reps;
  switch (id % 10) {
  case 0: reps = "x: double(-2, 2, size = 2); y: double(0, 4, size = 2)"; break;
  case 1: reps = "x: long(-2, 1); y: long(0, 3)"; break;
  case 2: reps = "z_re: double(-2, 2, size = 2); z_im: double(0, 4, size = 2)"; break;
  case 3: reps = "x: int(-2, 1); y: int(0, 3)"; break;
  default: reps = r.coin() ? "x: long(-2, 1); y: double(0, 4, size = 2)" : "x: set(-2, -1, 0, 1); y: long(0, 3)"; break;
  }
  std::vector<Ev> evs;
  Args a = {"-F", S(id)};
  std::string e = cplx ? cx[k] : ex[k];
  std::vector<int> X = {-2, -1, 0, 1}, Y = {0, 1, 2, 3};
  put(path_of("e.txt"), e); put(path_of("reps.txt"), reps);
  if (r.coin()) a = cat({a, {"--fp-expression", e}}); else a = cat({a, {"-p", path_of("e.txt")}});
  switch (r.below(3)) {
  case 0: a = cat({a, {"--fp-representations", reps}}); break;
  case 1: a = cat({a, {"--fp-representations-path", path_of("reps.txt")}}); break;
  default:   // a representation by default, for both variables
    X = Y;
    a = cat({a, {"--fp-default-double-rep", id % 10 == 3 || id % 10 == 1 ? "double(-7, 9, size = 2)" : "double(0, 4, size = 2)",
                 "--fp-default-int-rep", id % 10 == 3 ? "int(0, 3)" : "int(5, 9)", "--fp-default-long-rep", id % 10 == 1 ? "long(0, 3)" : "long(5, 9)", "--fp-representations", ""}});
  }
  Done d = application(cat({a, {"-A", "0", "-b", "0"}}), evs);
  std::vector<int> vals; for (auto& q : evs) vals.push_back(iv(q.v));
  Obj("parsed").i("rc", d.rc).i("id", id).b("cplx", cplx).i("ex", k).a("X", X).a("Y", Y).a("vals", vals).emit();
}

// ---------------------------------------------------------------- options reach the library algorithm

static std::string log_rec(const Done& d, const std::vector<Ev>& evs) {
  std::vector<std::string> es;
  for (auto& e : evs) if (e.kind != 's') es.push_back(S((int)e.x * 2 + (e.kind == 'i')));
  return Obj().i("rc", d.rc).str("out", d.out).l("evs", es).get();
}
static void same_records(Rng& r, int alg, bool defaults) {
  F f; f.id = r.below(3) == 0 ? 80 : r.coin() ? 5 : 10; f.n = alg == 330 ? 16 : alg == 450 ? 12 : r.in(8, 10);
  P p;
  if (defaults) { p.alg = alg; if (alg == 340) { p.ithw = 0; } } else p = random_params(alg, f.n, r);
  bool shorts = r.coin();
  Args base = cat({args_of(f, shorts), {"--budget", S(defaults ? 400 : r.in(60, 200)), "--seed", S(r.in(1, 1000000)), "--print-results", "--print-solution"}});
  if (r.below(5) == 0) base.push_back("--restart");
  if (r.below(5) == 0) { base.push_back("--num-threads"); base.push_back("2"); }
  std::vector<Ev> e1, e2;
  Done d1 = application(cat({base, args_of(p, shorts)}), e1);
  Direct direct(p);
  Done d2 = application(cat({base, {"--algorithm", "77777"}}), e2, &direct);
  Obj("same").i("alg", alg).b("defaults", defaults).raw("a", log_rec(d1, e1)).raw("b", log_rec(d2, e2)).emit();
}

// ---------------------------------------------------------------- functions

static std::string bits(double v) { unsigned long long u; std::memcpy(&u, &v, 8); char b[32]; std::snprintf(b, sizeof b, "%016llx", u); return b; }

// The values of the function made by the program, through a complete search.
static void fn_record(const Args& fa, Function& ref, const std::string& what, const Args& info = {}) {
  int n = ref.get_bv_size();
  std::vector<Ev> evs;
  Done d = application(cat({fa, {"-A", "0", "-b", "0", "--seed", "3"}}), evs);
  std::vector<std::string> got(1u << n, "none"), want;
  bool once = evs.size() == (1u << n);
  for (auto& e : evs) if (e.x < got.size()) { if (got[e.x] != "none") once = false; got[e.x] = bits(e.v); }
  for (double v : table_of(ref)) want.push_back(bits(v));
  std::vector<std::string> gq, wq;
  for (auto& x : got) gq.push_back(quote(x));
  for (auto& x : want) wq.push_back(quote(x));
  Done s = program("hnco", cat({fa, {"--fn-get-bv-size"}}));
  Done k = program("hnco", cat({fa, {"--fn-has-known-maximum"}}));
  Done m = program("hnco", cat({fa, {"--fn-get-maximum"}}));
  Done i = program("hnco", cat({fa, {"--fn-provides-incremental-evaluation"}}));
  Done disp = program("hnco", cat({fa, {"--fn-display"}}));
  std::ostringstream ds; ref.display(ds);
  std::ostringstream mx; if (ref.has_known_maximum()) mx << ref.get_maximum() << "\n";
  Obj("fn").str("what", what).i("rc", d.rc).b("once", once).l("got", gq).l("want", wq).i("n", n)
    .raw("size", Obj().i("rc", s.rc).str("out", s.out).get()).b("known", ref.has_known_maximum())
    .raw("has", Obj().i("rc", k.rc).str("out", k.out).get()).raw("max", Obj().i("rc", m.rc).str("out", m.out).get()).str("top", mx.str())
    .b("incr", ref.provides_incremental_evaluation()).raw("inc", Obj().i("rc", i.rc).str("out", i.out).get())
    .b("disp", disp.rc == 0 && disp.out == ds.str()).str("sz", S(n) + "\n").emit();
}

template<class T> static void file_fn(int id, T& inst, const std::string& what) {
  std::string p = path_of("fn.txt");
  inst.save(p);
  fn_record({"-F", S(id), "-p", p, "-s", S(inst.get_bv_size())}, inst, what);
}

static void fn_records(Rng& r) {
  using namespace hnco::function;
  static const int ids[] = {0, 5, 10, 11, 20, 30, 31, 40, 41, 80, 81, 100, 101, 110, 120, 130, 140};
  for (int id : ids)
    for (int k = 0; k < 2; k++) if (scenario("function " + S(id), &r)) {
      F f; f.id = id; f.n = k ? 8 : 4;
      if (id == 0 || id == 10 || id == 11 || id == 20 || id == 5 || id == 130 || id == 80 || id == 81) f.n = r.in(2, 9);
      f.thr = id == 40 || id == 41 ? 1 + k : r.in(1, f.n - 1);
      f.traps = 2; f.prefix = 2;
      if (id == 110 && k) f.traps = 4;
      if (id == 140 && k) f.prefix = 4;
      if (id == 100 || id == 101) f.n = 9 * 1;
      try { auto fn = make_f(f); fn_record(args_of(f, k), *fn, "function " + S(id)); }
      catch (const std::runtime_error&) {
        Done d = program("hnco", cat({args_of(f, k), {"-b", "10"}}));
        Obj("refuse").str("what", "function " + S(id)).i("rc", d.rc).str("out", d.out).emit();
      }
    }
  auto gen = [&]() { return double(r.in(-8, 8)); };
  int reps = ctx().thorough ? 4 : 1;
  for (int k = 0; k < reps; k++) {
    if (scenario("linear function", &r)) { LinearFunction f; f.generate(r.in(2, 8), gen); file_fn(1, f, "linear"); }
    if (scenario("nk landscape", &r)) { NkLandscape f; f.generate(r.in(4, 8), 2, gen); file_fn(60, f, "nk"); }
    if (scenario("max sat", &r)) { MaxSat f; f.random(r.in(4, 8), 3, 9); file_fn(70, f, "maxsat"); }
    if (scenario("equal products", &r)) { EqualProducts f; f.generate(r.in(2, 8), [&]() { return double(r.in(1, 9)); }); file_fn(90, f, "products"); }
    if (scenario("partition", &r)) { Partition f; f.random(r.in(2, 8), 20); file_fn(91, f, "partition"); }
    if (scenario("walsh", &r)) { WalshExpansion f; f.generate(r.in(2, 8), 6, gen); file_fn(160, f, "walsh"); }
    if (scenario("walsh1", &r)) { WalshExpansion1 f; f.generate(r.in(2, 8), gen); file_fn(161, f, "walsh1"); }
    if (scenario("walsh2", &r)) { WalshExpansion2 f; f.generate(r.in(2, 8), gen, gen); file_fn(162, f, "walsh2"); }
    if (scenario("nn1", &r)) { NearestNeighborIsingModel1 f; f.generate(r.in(2, 8), gen, gen); f.set_periodic_boundary_conditions(r.coin()); file_fn(171, f, "nn1"); }
    if (scenario("nn2", &r)) { NearestNeighborIsingModel2 f; f.generate(2, r.in(2, 4), gen, gen); f.set_periodic_boundary_conditions(r.coin()); file_fn(172, f, "nn2"); }
    if (scenario("nae3sat", &r)) {
      put(path_of("nae.cnf"), "c x\np cnf 5 3\n1 -2 3 0\n-1 4 5 0\n2 3 -5 0\n");
      MaxNae3Sat f; f.load(path_of("nae.cnf"));
      fn_record({"-F", "71", "-p", path_of("nae.cnf"), "-s", "5"}, f, "nae3sat");
    }
    if (scenario("qubo", &r)) {
      put(path_of("q.txt"), "c qubo\np qubo 0 4 3 2\n0 0 3\n1 1 -2\n3 3 1\n0 1 4\n2 3 -5\n");
      try {
        Qubo f; f.load(path_of("q.txt"));
        fn_record({"-F", "50", "-p", path_of("q.txt"), "-s", "4"}, f, "qubo");
      } catch (const std::runtime_error&) {}
    }
  }
}

// ---------------------------------------------------------------- queries

static void walsh_record(Rng& r) {
  F f = random_f(r); f.n = f.id == 120 || f.id == 140 || f.id == 110 || f.id == 40 || f.id == 41 ? 8 : r.in(3, 7);
  if (f.id == 40 || f.id == 41) f.thr = 1;
  if (f.id == 30 || f.id == 31) f.thr = r.in(1, f.n - 1);
  auto fn = make_f(f);
  auto t = table_of(*fn);
  Args a = cat({args_of(f, true), {"--fn-walsh-transform"}});
  bool mini = r.coin();
  if (mini) a.push_back("--minimize");
  // a constant function has no other coefficient than the mean
  int flat = r.below(8);
  if (flat < 2) { a = cat({args_of(f, true), {"--fn-walsh-transform", "--parsed-modifier", "--expression", flat ? "3" : "0"}}); std::fill(t.begin(), t.end(), flat ? 3 : 0); }
  // controllers are for runs
  switch (r.below(5)) {
  case 0: a.push_back("--budget"); a.push_back(S(r.in(1, 12))); break;
  case 1: a.push_back("--target"); a.push_back(S(r.in(-20, 5))); break;
  case 2: if (flat >= 2 && !mini && fn->has_known_maximum()) a.push_back("--stop-on-maximum"); break;
  case 3: a.push_back("--cache"); break;
  }
  Done d = program("hnco", a);
  std::vector<std::string> rows;
  for (auto& l : lines_of(d.out)) {
    std::istringstream is(l); std::string w, v, x; is >> w >> v; bool bad = bool(is >> x);
    rows.push_back(arr(std::vector<int>{bad ? BAD : read_int(w), (int)std::floor(std::strtod(v.c_str(), nullptr) * 100000 + 0.5)}));
  }
  // coefficients, scaled by the number of points
  size_t N = t.size();
  std::vector<double> c = t;
  for (size_t h = 1; h < N; h *= 2) for (size_t i = 0; i < N; i += 2 * h) for (size_t j = i; j < i + h; j++) { double x = c[j], y = c[j + h]; c[j] = x + y; c[j + h] = x - y; }
  Obj("walsh").i("rc", d.rc).i("n", f.n).raw("c", dvals(c)).l("rows", rows).emit();
}

// ---------------------------------------------------------------- parameters

static std::vector<std::string> params_of(const std::string& s) {
  std::vector<std::string> v;
  for (auto& l : lines_of(s)) if (l.compare(0, 2, "# ") == 0) {
    std::string t = l.substr(2), name, val = "set";
    size_t e = t.find(" = ");
    if (e != std::string::npos) { name = t.substr(0, e); val = t.substr(e + 3); } else { name = t; while (!name.empty() && name.back() == ' ') name.pop_back(); }
    if (name == "exec_name" || name == "version" || name == "Generated from hnco.json" || name == "last_parameter" || name == "print_parameters" || name.compare(0, 9, "Generated") == 0) continue;
    v.push_back("[" + quote(name) + "," + quote(val) + "]");
  }
  return v;
}

struct Help { std::string name, type, def; char letter; };
static std::vector<Help> help_of(const std::string& prog) {
  std::vector<Help> hs;
  Done h = program(prog, {"--help"});
  std::string all = h.out + h.err;
  for (auto& l : lines_of(h.out + h.err)) { size_t i = l.find("--help-"); if (i != std::string::npos) { Done q = program(prog, {l.substr(i)}); all += q.out + q.err; } }
  for (auto& l : lines_of(all)) {
    size_t i = l.find("--");
    if (i == std::string::npos || i > 8 || l.compare(0, 2, "  ") != 0 || l.compare(i, 7, "--help-") == 0) continue;
    Help x; x.letter = 0;
    if (i >= 4 && l[i - 4] == '-') x.letter = l[i - 3];
    size_t e = l.find(' ', i);
    x.name = l.substr(i + 2, e == std::string::npos ? e : e - i - 2);
    size_t t = l.find("(type ");
    if (t != std::string::npos) { size_t q = l.find(',', t); x.type = l.substr(t + 6, q - t - 6); size_t u = l.find("default to ", q); x.def = u == std::string::npos ? "none" : l.substr(u + 11, l.rfind(')') - u - 11); }
    else { x.type = "flag"; x.def = "none"; }
    hs.push_back(x);
  }
  return hs;
}
static std::string under(std::string s) { for (auto& c : s) if (c == '-') c = '_'; return s; }

static void param_records(const std::string& prog, Rng& r, const Args& harmless) {
  if (!scenario("parameters of " + prog, &r)) return;
  auto hs = help_of(prog);
  Done d = program(prog, {"--print-default-parameters"});
  auto def = params_of(d.out);
  std::vector<std::string> doc;
  for (auto& h : hs) if (h.type != "flag" && h.def != "none") {
    std::string v = h.def;
    if (h.type == "double") { std::ostringstream o; o << std::strtod(v.c_str(), nullptr); v = o.str(); }
    doc.push_back("[" + quote(under(h.name)) + "," + quote(v) + "]");
  }
  Obj("defaults").str("prog", prog).i("least", prog == "hnco" ? 60 : 10).i("rc", d.rc).i("nopt", (long)hs.size()).l("doc", doc).l("def", def).emit();
  // harmless: options that make the program print its parameters and end quickly
  Done b = program(prog, cat({harmless, {"--print-parameters"}}));
  auto before = params_of(b.out);
  std::set<std::string> fixed;
  for (auto& x : harmless) if (x.compare(0, 2, "--") == 0) fixed.insert(x.substr(2));
  int v = 0;
  for (auto& h : hs) {
    if (fixed.count(h.name) || h.name == "help" || h.name == "version") continue;
    if (h.type == "flag" && (h.name.compare(0, 3, "fn-") == 0 || h.name == "load-solution" || h.name == "map-display" || h.name == "stop-on-maximum" || h.name == "print-parameters" || h.name == "print-default-parameters")) continue;
    if (h.name == "map" || h.name == "num-threads" || h.name == "function" || h.name == "algorithm" || h.name == "bv-size" || h.name == "num-iterations" || h.name == "budget") continue;
    v++;
    std::string val = h.name == "fp-default-long-rep" ? "long(-3, 4)" : h.name == "fp-default-int-rep" ? "int(-3, 4)" : h.name == "fp-default-double-rep" ? "double(0, 2, size = 4)" : h.type == "string" ? "t" + S(v) : h.type == "bool" ? "false" : h.type == "double" ? S(prog == "hnco" ? v * 0.25 : v / 64.0) : S(v + 3);
    std::string shown = h.type == "string" ? "\"" + val + "\"" : h.type == "flag" ? "set" : h.type == "bool" ? "false" : val;
    for (int s = 0; s < (h.letter ? 2 : 1); s++) {
      Args a = harmless; a.push_back("--print-parameters");
      a.push_back(s ? std::string("-") + h.letter : "--" + h.name);
      if (h.type != "flag") a.push_back(val);
      Done q = program(prog, a);
      Obj("param").str("prog", prog).str("name", under(h.name)).str("val", shown).i("rc", q.rc == 0 || q.rc == 3 ? 0 : q.rc).l("before", before).l("after", params_of(q.out)).emit();
    }
  }
}

// ---------------------------------------------------------------- refusals

static void refuse_records(Rng& r) {
  std::string nowhere = path_of("absent/none.txt");
  put(path_of("short.txt"), "0101\n");
  put(path_of("empty.txt"), "");
  put(path_of("junk.txt"), "this is no archive\n");
  std::vector<std::pair<std::string, Args>> cases = {
    {"unknown function", {"-F", "9999"}}, {"unknown function", {"-F", "2"}}, {"unknown algorithm", {"-A", "9999"}}, {"unknown algorithm", {"-A", "1"}},
    {"unknown map", {"-M", "7", "--map-random"}}, {"unknown map", {"-M", "99", "--map-path", path_of("short.txt")}},
    {"unknown neighborhood", {"-A", "100", "-N", "4"}}, {"unknown neighborhood", {"-A", "200", "-N", "17"}},
    {"unknown iterator", {"-A", "150", "--neighborhood-iterator", "2"}}, {"unknown iterator", {"-A", "160", "--neighborhood-iterator", "9"}},
    {"unknown prior noise", {"--prior-noise", "--pn-neighborhood", "4"}},
    {"size zero", {"-s", "0"}}, {"negative size", {"-s", "-3"}}, {"no thread", {"--num-threads", "0"}}, {"negative threads", {"--num-threads", "-2"}},
    {"no file", {"-F", "1", "-p", nowhere}}, {"no file", {"-F", "60", "-p", nowhere}}, {"no file", {"-F", "70", "-p", nowhere}}, {"no file", {"-F", "90", "-p", nowhere}},
    {"no file", {"-F", "50", "-p", nowhere}}, {"no file", {"-F", "160", "-p", nowhere}}, {"no file", {"-F", "172", "-p", nowhere}}, {"no file", {"-F", "190", "-p", nowhere}}, {"no file", {"-F", "200", "-p", nowhere}},
    {"not an archive", {"-F", "1", "-p", path_of("junk.txt")}}, {"not an archive", {"-F", "161", "-p", path_of("junk.txt")}}, {"not a formula", {"-F", "70", "-p", path_of("junk.txt")}},
    {"no map file", {"-M", "1", "--map-path", nowhere}}, {"no map file", {"-M", "3", "--map-path", nowhere}}, {"no map file", {"-M", "5", "--map-path", nowhere}},
    {"not a map", {"-M", "2", "--map-path", path_of("junk.txt")}}, {"not a map", {"-M", "3", "--map-path", path_of("junk.txt")}}, {"not a map", {"-M", "4", "--map-path", path_of("empty.txt")}},
    {"map input size", {"-M", "4", "--map-random", "--map-input-size", "0"}}, {"map input size", {"-M", "5", "--map-random", "--map-input-size", "-1"}},
    {"unknown maximum", {"-F", "80", "--stop-on-maximum"}}, {"unknown maximum", {"-F", "0", "--minimize", "--stop-on-maximum"}}, {"unknown maximum", {"-F", "80", "--fn-get-maximum"}},
    {"unknown maximum", {"--parsed-modifier", "--expression", "2*x", "--stop-on-maximum"}},
    {"solution too short", {"--load-solution", "--solution-path", path_of("short.txt"), "--print-results"}}, {"no solution", {"--load-solution", "--solution-path", nowhere, "--print-results"}},
    {"empty solution", {"--load-solution", "--solution-path", path_of("empty.txt"), "--print-results"}},
    {"unknown option", {"--no-such-option"}}, {"missing argument", {"--budget"}}, {"not a boolean", {"-A", "900", "--hea-bound-moment", "maybe"}},
    {"bad expression", {"--parsed-modifier", "--expression", "2*+x)"}}, {"bad expression", {"-F", "500", "--fp-expression", "x+*y"}},
    {"bad representation", {"-F", "501", "--fp-expression", "x+y", "--fp-representations", "x: int(1)"}},
    {"illegal threshold", {"-F", "30", "-t", "0"}}, {"illegal traps", {"-F", "110", "--fn-num-traps", "3"}}, {"illegal size", {"-F", "120", "-s", "6"}},
  };
  for (auto& c : cases) if (scenario(c.first, &r)) {
    Args a = {"-F", "0", "-s", "8", "-b", "40", "--seed", "1", "--print-solution"};
    bool res = std::find(c.second.begin(), c.second.end(), "--load-solution") == c.second.end();
    if (res) a.push_back("--print-results");
    Done d = program("hnco", cat({a, c.second}));
    Obj("refuse").str("what", c.first).i("rc", d.rc).str("out", d.out).emit();
  }
}

// ---------------------------------------------------------------- generators

static void gen_records(Rng& r) {
  using namespace hnco::function;
  std::string p = path_of("gen.txt");
  auto gen = [&](const std::string& what, Args a, Function& f, int want, const std::function<void()>& load) {
    std::remove(p.c_str());
    int seed = r.in(1, 100000);
    a = cat({a, {"--path", p, "--seed", S(seed)}});
    Done d = program("ffgen", a);
    std::string c1 = slurp(p);
    Done d2 = program("ffgen", a);
    bool loaded = true;
    int n = -1;
    try { load(); n = f.get_bv_size(); } catch (const std::exception&) { loaded = false; }
    Obj("gen").str("what", what).i("rc", d.rc).b("again", slurp(p) == c1 && d2.rc == 0).b("loaded", loaded).i("n", n).i("want", want).emit();
  };
#define GEN(what, T, id, n, ...) if (scenario("ffgen " what, &r)) { T f; int size = n; gen(what, cat({{"-F", id, "-s", S(size)}, __VA_ARGS__}), f, size, [&]() { f.load(p); }); }
  GEN("linear", LinearFunction, "1", r.in(2, 40), Args{})
  GEN("linear arithmetic", LinearFunction, "1", r.in(2, 12), Args{"--lin-generator", "1"})
  GEN("nk", NkLandscape, "60", r.in(5, 20), Args{"--nk-k", "3"})
  GEN("max sat", MaxSat, "70", r.in(5, 20), Args{"--ms-num-clauses", "12"})
  GEN("products", EqualProducts, "90", r.in(2, 20), Args{})
  GEN("partition", Partition, "91", r.in(2, 20), Args{})
  GEN("walsh", WalshExpansion, "160", r.in(2, 20), Args{"--walsh-num-features", "7"})
  GEN("walsh1", WalshExpansion1, "161", r.in(2, 20), Args{})
  GEN("walsh2", WalshExpansion2, "162", r.in(2, 20), Args{})
  GEN("walsh2 ising", WalshExpansion2, "162", r.in(2, 20), Args{"--walsh2-generator", "1"})
  GEN("nn1", NearestNeighborIsingModel1, "171", r.in(2, 20), Args{})
#undef GEN
  // progressions of weights
  if (scenario("ffgen progressions", &r)) for (int k = 1; k <= 2; k++) for (int q = 0; q < 3; q++) {
    int n = r.in(2, 7), w = r.in(1, 5), s = r.in(2, 3);
    Args a = {"-F", "1", "-s", S(n), "--lin-generator", S(k), "--lin-initial-weight", S(w), k == 1 ? "--lin-distance" : "--lin-ratio", S(s), "-p", p};
    Done d = program("ffgen", a);
    LinearFunction f; f.load(p);
    Obj("weights").i("rc", d.rc).i("k", k).i("w", w).i("s", s).i("n", f.get_bv_size()).i("want", n).raw("t", dvals(table_of(f))).emit();
  }
  // planted maximum
  for (int q = 0; q < 3; q++) if (scenario("ffgen planted", &r)) {
    int n = r.in(4, 9), m = r.in(5, 60), k = r.in(2, 4);
    Done d = program("ffgen", {"-F", "70", "-s", S(n), "--ms-num-clauses", S(m), "--ms-num-literals-per-clause", S(k), "--ms-planted-solution", "-p", p, "--seed", S(r.in(1, 9999))});
    MaxSat f; f.load(p);
    auto t = table_of(f);
    Obj("planted").i("rc", d.rc).i("m", m).d("top", *std::max_element(t.begin(), t.end())).i("n", f.get_bv_size()).i("want", n).emit();
  }
  // lattices with constant couplings and fields
  for (int g = 0; g < 4; g++) if (scenario("ffgen ising", &r)) {
    int n = r.in(3, 6), J = r.in(1, 5), h = r.in(1, 5); bool per = r.coin();
    Args a = {"-F", "171", "-s", S(n), "--nn1-generator", "3", "--coupling-constant", S(J), "--field-constant", S(h), "-p", p};
    if (per) a.push_back("--periodic-boundary-conditions");
    Done d = program("ffgen", a);
    NearestNeighborIsingModel1 f; f.load(p);
    Obj("ising").i("rc", d.rc).i("n", f.get_bv_size()).i("rows", 1).i("cols", n).i("J", J).i("h", h).b("per", per).raw("t", dvals(table_of(f))).emit();
    int rows = r.in(2, 3), cols = r.in(2, 3);
    Args b = {"-F", "172", "--nn2-num-rows", S(rows), "--nn2-num-columns", S(cols), "--nn2-generator", "3", "--coupling-constant", S(J), "--field-constant", S(h), "-p", p};
    if (per) b.push_back("--periodic-boundary-conditions");
    Done e = program("ffgen", b);
    NearestNeighborIsingModel2 f2; f2.load(p);
    Obj("ising").i("rc", e.rc).i("n", f2.get_bv_size()).i("rows", rows).i("cols", cols).i("J", J).i("h", h).b("per", per).raw("t", dvals(table_of(f2))).emit();
  }
  // number of clauses, literals and features, half random lattices, empty cells
  for (int q = 0; q < 4; q++) if (scenario("ffgen counts", &r)) {
    int n = r.in(4, 9), m = r.in(1, 40), k = r.in(1, 4);
    Done d = program("ffgen", {"-F", "70", "-s", S(n), "--ms-num-clauses", S(m), "--ms-num-literals-per-clause", S(k), "-p", p, "--seed", S(r.in(1, 9999))});
    MaxSat f; f.load(p);
    double sum = 0; for (double v : table_of(f)) sum += v;
    Obj("clauses").i("rc", d.rc).i("m", m).i("k", k).i("n", f.get_bv_size()).i("want", n).d("sum", sum).emit();
    int c = r.in(1, 40);
    Done e = program("ffgen", {"-F", "190", "--sudoku-num-empty-cells", S(c), "-p", p, "--seed", S(r.in(1, 9999))});
    Done z = program("hnco", {"-F", "190", "-p", p, "--fn-get-bv-size"});
    Done z1 = program("hnco", {"-F", "190", "-p", p, "--fn-get-bv-size", "--rep-categorical-representation", "1"});
    Obj("cells").i("rc", e.rc).str("size", z.out).str("want", S(4 * c) + "\n").b("same", z.rc == 0 && z1.rc == 0).emit();
  }
  for (int g = 1; g <= 2; g++) for (int q = 0; q < 3; q++) if (scenario("ffgen half random ising", &r)) {
    int n = r.in(3, 6), J = r.in(1, 5), h = r.in(1, 5); bool per = r.coin();
    auto scaled = [](Function& f) { std::vector<int> t; for (double v : table_of(f)) t.push_back((int)std::lround(v * 10000)); return t; };
    Args more = {"--coupling-constant", S(J), "--field-constant", S(h), "--stddev", S(r.in(1, 4)), "--seed", S(r.in(1, 9999)), "-p", p};
    if (per) more.push_back("--periodic-boundary-conditions");
    Done d = program("ffgen", cat({{"-F", "171", "-s", S(n), "--nn1-generator", S(g)}, more}));
    NearestNeighborIsingModel1 f; f.load(p);
    Obj("half").i("rc", d.rc).i("g", g).i("n", f.get_bv_size()).i("rows", 1).i("cols", n).i("J", J).i("h", h).b("per", per).a("t", scaled(f)).emit();
    int rows = r.in(2, 3), cols = r.in(2, 3);
    Done e = program("ffgen", cat({{"-F", "172", "--nn2-num-rows", S(rows), "--nn2-num-columns", S(cols), "--nn2-generator", S(g)}, more}));
    NearestNeighborIsingModel2 f2; f2.load(p);
    Obj("half").i("rc", e.rc).i("g", g).i("n", f2.get_bv_size()).i("rows", rows).i("cols", cols).i("J", J).i("h", h).b("per", per).a("t", scaled(f2)).emit();
  }
  // the scale of random coefficients: many of them
  for (int q = 0; q < 3; q++) if (scenario("ffgen scale", &r)) {
    int sd = r.in(1, 9), N = 900;
    Done d = program("ffgen", {"-F", "1", "-s", S(N), "--stddev", S(sd), "-p", p, "--seed", S(r.in(1, 9999))});
    LinearFunction f; f.load(p);
    int one = 0, two = 0, up = 0;
    bit_vector_t x(f.get_bv_size(), 0);
    double zero = f.evaluate(x);
    for (size_t k = 0; k < x.size(); k++) { x[k] = 1; double w = f.evaluate(x) - zero; x[k] = 0; if (std::fabs(w) <= sd) one++; if (std::fabs(w) <= 2 * sd) two++; if (w > 0) up++; }
    Obj("scale").i("rc", d.rc).i("n", f.get_bv_size()).i("want", N).i("one", one).i("two", two).i("up", up).emit();
  }
  for (const char *id : {"0", "3", "9999"}) if (scenario("ffgen refuses", &r)) {
    Done d = program("ffgen", {"-F", id, "-p", p});
    Obj("refuse").str("what", "ffgen").i("rc", d.rc).str("out", d.out).emit();
  }
  // maps
  for (int kind = 1; kind <= 6; kind++) for (int q = 0; q < 3; q++) if (scenario("mapgen", &r)) {
    int out = r.in(2, 7), in = kind >= 4 && kind <= 5 ? r.in(2, 7) : out;
    bool sur = r.coin() && in >= out;
    std::string mp = path_of("mg.txt");
    std::remove(mp.c_str());
    Args a = {"--map", S(kind), "--output-size", S(out), "--input-size", S(in), "--path", mp, "--seed", S(r.in(1, 99999))};
    if (kind == 6) { a.push_back("--ts-length"); a.push_back("4"); }
    if (sur) a.push_back("--surjective");
    Done d = program("mapgen", a);
    // the program reads it: size, and values at every point
    std::vector<Ev> evs;
    Args fa = {"-F", "5", "-s", S(out), "-M", S(kind), "--map-path", mp};
    Done z = program("hnco", cat({fa, {"--fn-get-bv-size"}}));
    Done c = application(cat({fa, {"-A", "0", "-b", "0"}}), evs);
    std::vector<int> img; for (auto& e : evs) img.push_back((int)e.x);
    Obj("mapgen").i("rc", d.rc).i("kind", kind).i("n", out).i("ni", in).b("sur", sur).str("size", z.out).str("want", S(in) + "\n").i("rcs", c.rc).a("img", img).emit();
  }
  if (scenario("mapgen refuses", &r)) {
    Done d = program("mapgen", {"--map", "9", "--path", p});
    Obj("refuse").str("what", "mapgen").i("rc", d.rc).str("out", "").emit();
  }
}

// ---------------------------------------------------------------- several objectives

static void mo_records(Rng& r) {
  static const char *ex[] = {"x+y::x-y", "x*x::(x-2)*(x-2)", "x::-x", "x+y::y-2*x::x*y", "x::y"};
  static const char *cx[] = {"z::z-2", "z+1::z-1::z*z"};
  for (int k = 0; k < (ctx().thorough ? 60 : 20); k++) if (scenario("several objectives", &r)) {
    int id = (k % 2 ? 530 : 520) + r.below(5);
    bool cplx = id % 10 == 2;
    int e = r.below(cplx ? 2 : 5);
    std::string x = cplx ? cx[e] : ex[e], reps;
    switch (id % 10) {
    case 0: reps = "x: double(-3, 5, size = 3); y: double(0, 4, size = 2)"; break;
    case 1: reps = "x: long(-3, 4); y: long(0, 3)"; break;
    case 2: reps = "z_re: double(-3, 5, size = 3); z_im: double(0, 4, size = 2)"; break;
    case 3: reps = "x: int(-3, 4); y: int(0, 3)"; break;
    default: reps = "x: long(-3, 4); y: double(0, 4, size = 2)"; break;
    }
    int mu = r.in(4, 12), it = r.in(1, 8);
    Args a = {"-F", S(id), "--fp-expression", x, "--fp-representations", reps, "--ea-mu", S(mu), "--num-iterations", S(it), "--seed", S(r.in(1, 99999)), "--ea-tournament-size", "2", "--num-threads", S(r.in(1, 3))};
    Done d = program("hnco-mo", cat({a, {"--print-pareto-front"}}));
    Done d2 = program("hnco-mo", cat({a, {"--print-pareto-front"}}));
    Done o = program("hnco-mo", cat({a, {"--fn-get-output-size"}}));
    Done s = program("hnco-mo", cat({a, {"--fn-get-bv-size"}}));
    Done t = program("hnco-mo", cat({a, {"--print-description"}}));
    int nobj = 1; for (size_t q = x.find("::"); q != std::string::npos; q = x.find("::", q + 2)) nobj++;
    int ny = cplx || x.find('y') != std::string::npos;
    std::vector<std::string> rows, desc;
    for (auto& l : lines_of(d.out)) { std::istringstream is(l); std::vector<int> v; std::string t; while (is >> t) v.push_back(read_int(t)); rows.push_back(arr(v)); }
    for (auto& l : lines_of(t.out)) if (l.compare(0, 11, "Objectives:") == 0) {
      std::string u; for (char c : l.substr(11)) u += isdigit((unsigned char)c) || c == '-' || c == '.' || c == 'e' ? c : ' ';
      std::istringstream is(u); std::vector<int> v; std::string w; while (is >> w) v.push_back(read_int(w)); desc.push_back(arr(v));
    }
    Obj("mo").i("rc", d.rc).i("id", id).b("cplx", cplx).i("ex", e).i("mu", mu).i("nobj", nobj).l("rows", rows).l("desc", desc).b("again", d2.out == d.out && d2.rc == d.rc)
      .str("osize", o.out).str("owant", S(nobj) + "\n").str("size", s.out).str("want", S(ny ? 5 : 3) + "\n").emit();
  }
  std::vector<Args> bad = {{"-F", "1"}, {"-A", "3"}, {"--num-threads", "0"}, {"--no-such"}};
  for (auto& b : bad) if (scenario("hnco-mo refuses", &r)) {
    Done d = program("hnco-mo", cat({{"-F", "521", "--fp-expression", "x::-x", "--num-iterations", "2", "--print-pareto-front"}, b}));
    Obj("refuse").str("what", "hnco-mo").i("rc", d.rc).str("out", d.out).emit();
  }
}

int main(int argc, char *argv[]) {
  vf::init(argc, argv);
  const char *ed = std::getenv("VF_EXE_DIR");
  exe_dir = ed ? ed : ".";
  scratch = std::string(argv[6]) + ".d";
  mkdir(scratch.c_str(), 0755);
  Rng r(1);
  int reps = ctx().thorough ? 150 : 25;
  for (int k = 0; k < reps; k++)
    for (int alg : algorithms()) if (scenario("run of algorithm " + S(alg), &r)) run_records(r, alg);
  int sreps = ctx().thorough ? 80 : 18;
  for (int k = 0; k < sreps; k++)
    for (int alg : algorithms()) if (scenario("options of algorithm " + S(alg), &r)) same_records(r, alg, k == 0);
  fn_records(r);
  for (int k = 0; k < (ctx().thorough ? 200 : 30); k++) if (scenario("random map", &r)) reload_records(r);
  for (int k = 0; k < (ctx().thorough ? 60 : 16); k++) if (scenario("walsh", &r)) walsh_record(r);
  for (int k = 0; k < (ctx().thorough ? 200 : 30); k++) if (scenario("human", &r)) human_records(r);
  for (int k = 0; k < (ctx().thorough ? 12 : 2); k++) for (int f = 500; f < 540; f += 10) for (int q = 0; q < 5; q++) if (scenario("parsed function", &r)) parsed_records(r, f + q);
  for (int k = 0; k < (ctx().thorough ? 300 : 40); k++) if (scenario("random map, every point", &r)) random_map_records(r);
  for (int k = 0; k < (ctx().thorough ? 60 : 8); k++) for (int q = 0; q < 6; q++) if (scenario("noise", &r)) noise_records(r, q);
  param_records("hnco", r, {"--algorithm", "10", "--num-iterations", "1", "--bv-size", "4", "--function", "0"});
  param_records("hnco-mo", r, {"--function", "521", "--fp-expression", "x::-x", "--fp-representations", "x: long(0, 3)", "--num-iterations", "1"});
  refuse_records(r);
  gen_records(r);
  mo_records(r);
  std::filesystem::remove_all(scratch);
  return vf::finish();
}
