// Checks that compare runs: what may not influence a run (C13), when a
// benchmark run evaluates, logs and ends (C14), agreement of all
// configurations (C16), equivalent ways to write a model (C17).
#include "checks.h"
#include <math.h>
#include <string.h>
#include <algorithm>
using namespace sim;
using std::string;
using std::vector;

static bool failed(Outcome &o, const SolveRun &r, const string &what = "") {
  if (abnormal(o, r.p, what)) return true;
  if (r.p.exitCode != 0 || r.p.signal) { o.bad("failed run", what + fmt("exit code %d, signal %d: ", r.p.exitCode, r.p.signal) + r.p.err.substr(0, 300)); return true; }
  return false;
}
static bool bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
// trial by trial; "" if the runs agree
static string differ(const Scenario &s, const SolveRun &a, const SolveRun &b) {
  size_t n = std::min(a.trials.size(), b.trials.size());
  for (size_t i = 0; i < n; i++) {
    const TrialRec &x = a.trials[i], &y = b.trials[i];
    if (x.backups != y.backups || x.done != y.done || x.touched != y.touched || x.expanded != y.expanded || !bits(x.ub, y.ub) || (s.maintainsLB() && !bits(x.lb, y.lb)))
      return fmt("trial %zu: bounds [%.15g, %.15g] after %ld backups, else [%.15g, %.15g] after %ld", i + 1, y.lb, y.ub, y.backups, x.lb, x.ub, x.backups);
  }
  if (a.trials.size() != b.trials.size()) return fmt("%zu trials, else %zu", b.trials.size(), a.trials.size());
  return "";
}

// =================================================================== C13
enum { V_CLOCK, V_HEAP, V_DEBUG, V_LOGS, V_BENCH, V_EVAL, V_CONFIG, V_CFGCMD, V_SHORT, V_READS, V_ORDER, V_LEFTOVER, V_DEFAULTS, V_STACK, V_N };
static const char *vName[] = {"clock", "uninitialised memory", "debugLevel", "search logs", "benchmark instead of solve", "evaluation options", "config file", "config file and command line",
                              "short option names", "sizes of reads", "order of options", "left-over files", "generated config file", "amount of stack"};
static void genC13(Rng &g, Scenario &s, bool th) {
  static const char *w[] = {"any", "any", "any", "pomdp", "general"};
  s.m = genModel(g, w[g.below(5)]);
  genSearchOpts(g, s);
  if (s.m.family == "general" && s.strategy() != "frtdp") s.setOpt("searchStrategy", "hsvi"), s.delOpt("maintainLowerBound");
  genPlan(g, s.plan);
  s.plan.cpuLimit = 60;
  s.plan.maxEvents = 40000000;
  static const char *c[] = {"5", "20", "60", "200", "600"};
  s.setOpt("terminateNumBackups", c[g.below(5)]);
  s.setOpt("policyOutputFile", "out.policy");
  s.par["vary"] = g.below(V_N);
  if (s.p("vary") == V_STACK && g.chance(0.3)) {   // trials of 10000 steps and more
    Model &m = s.m = Model();
    m.kind = K_MDP;
    m.family = "deep";
    m.D = 20;
    m.S = g.range(2, 3), m.A = g.range(1, 2);
    m.gamma = g.chance(0.5) ? 0.999995 : 0.999999;
    m.T.assign(m.A, vector<vector<int>>(m.S, vector<int>(m.S, 0)));
    m.R.assign(m.S, vector<int>(m.A, 0));
    for (int x = 0; x < m.S; x++)
      for (int a = 0; a < m.A; a++) {
        int p = g.range(5, 20);
        m.T[a][x][(x + 1) % m.S] += p;
        m.T[a][x][g.below(m.S)] += m.D - p;
        m.R[x][a] = g.range(-3, 3);
      }
    s.opts.clear();
    bool fr = g.chance(0.3);      // increases its depth step by step
    s.setOpt("searchStrategy", fr ? "frtdp" : "hsvi");
    s.setOpt("terminateNumBackups", fr ? "150000" : "5");
    s.setOpt("policyOutputFile", "out.policy");
  }
  s.par["a"] = g.u();
  s.par["b"] = g.u();
  s.par["c"] = g.u();
}
static const std::map<string, string> shortName = {{"debugLevel", "-d"}, {"useFastModelParser", "-f"}, {"evaluationTrialsPerEpoch", "-i"}, {"lowerBoundRepresentation", "-l"},
  {"policyOutputFile", "-o"}, {"terminateRegretBound", "-p"}, {"searchStrategy", "-s"}, {"terminateWallclockSeconds", "-t"}, {"upperBoundRepresentation", "-u"}};
static void runC13(const Scenario &s, Outcome &o) {
  common(s, o);
  Files f = s.files();
  SolveRun a = solveRun(o, s, f);
  if (failed(o, a)) return;
  int vary = (int)s.p("vary");
  double u = s.p("a"), v = s.p("b"), w = s.p("c");
  string st = s.strategy();
  bool draws = st == "rtdp" || st == "lrtdp";       // the search itself uses random numbers
  Scenario t = s;
  Files in = s.files(), g = in;
  vector<string> argv;
  auto optsArgv = [&](const Opts &os, bool shrt) {
    vector<string> r = {"zmdp", s.cmd};
    for (auto &x : os) {
      auto i = shortName.find(x.first);
      if (shrt && i != shortName.end() && (i->second != "-f" && i->second != "-d")) { r.push_back(i->second); r.push_back(x.second); }
      else if (shrt && i != shortName.end() && x.second == "1") r.push_back(i->second);
      else { r.push_back("--" + x.first); r.push_back(x.second); }
    }
    return r;
  };
  bool samePolicy = true;
  switch (vary) {
    case V_CLOCK: {
      static const long long steps[] = {1, 7, 400, 30000}, costs[] = {0, 3, 900, 2000000};
      t.plan.clockSeed ^= 0x5555;
      t.plan.clockStep = steps[(int)(u * 4)];
      t.plan.backupCost = costs[(int)(v * 4)];
      t.plan.clockStart += (long long)(w * 1e15);
      break;
    }
    case V_HEAP: t.plan.heapByte = s.plan.heapByte ? 0 : 1 + (int)(u * 254); break;
    case V_DEBUG: t.setOpt("debugLevel", s.opt("debugLevel", "0") == "1" ? "0" : "1"); break;
    case V_LOGS:
      if (u < 0.7) t.setOpt("useLogBackups", "1");
      if (u >= 0.4) t.setOpt("qValuesOutputFile", "q.log");
      break;
    case V_BENCH:
    case V_EVAL: {
      if (draws) { o.hit("evaluation shares the random numbers"); return; }
      t.cmd = "benchmark";
      static const char *tr[] = {"1", "7", "31", "100"}, *fe[] = {"0", "1e-5", "0.001", "1.0"}, *pm[] = {"1", "10", "100", "1000"};
      t.setOpt("evaluationTrialsPerEpoch", tr[(int)(u * 4)]);
      t.setOpt("evaluationFirstEpochWallclockSeconds", fe[(int)(v * 4)]);
      t.setOpt("evaluationEpochsPerMagnitude", pm[(int)(w * 4)]);
      t.setOpt("evaluationMaxStepsPerTrial", "10");
      if (vary == V_EVAL) {
        t.setOpt("useEvaluationCache", u < 0.5 ? "0" : "1");
        t.setOpt("simulationTracesToLogPerEpoch", w < 0.5 ? "0" : "-1");
        t.setOpt("storageOutputFile", "storage.plot");
        t.setOpt("policyOutputFile", "none");
        if (v < 0.3) t.setOpt("runTimeActionSelection", "upper");
      }
      samePolicy = false;   // only 'solve' prunes before it writes
      break;
    }
    case V_CONFIG:
    case V_CFGCMD: {
      string cfg = "# a config file\n\n";
      Opts rest;
      for (size_t i = 0; i < s.opts.size(); i++) {
        auto &x = s.opts[i];
        bool both = vary == V_CFGCMD && fmod(u * 1000 + i * 0.37, 1.0) < 0.5;
        if (both) {   // the command line overrides the file
          static const std::map<string, string> other = {{"searchStrategy", "rtdp"}, {"terminateNumBackups", "1"}, {"policyOutputFile", "wrong.policy"}, {"debugLevel", "1"}, {"terminateRegretBound", "1e9"}};
          auto k = other.find(x.first);
          cfg += x.first + (v < 0.5 ? " " : "\t") + (k == other.end() ? x.second : k->second) + "\n";
          rest.push_back(x);
        } else cfg += x.first + " " + x.second + (w < 0.5 ? "\n" : "  \n");
      }
      g["my.cfg"] = cfg;
      argv = {"zmdp", s.cmd};
      vector<string> r = optsArgv(rest, false), c = {u < 0.5 ? "-c" : "--config", "my.cfg"};
      if (v < 0.5) argv.insert(argv.end(), c.begin(), c.end());
      argv.insert(argv.end(), r.begin() + 2, r.end());
      if (v >= 0.5) argv.insert(argv.end(), c.begin(), c.end());
      argv.push_back(s.m.ext());
      break;
    }
    case V_SHORT: argv = optsArgv(s.opts, true); argv.push_back(s.m.ext()); if (u < 0.2) argv = {"zmdp", "--command", s.cmd, "--simulatorModel", s.m.ext()}, [&] { for (auto &x : s.opts) { argv.push_back("--" + x.first); argv.push_back(x.second); } }(); break;
    case V_READS: t.plan.chunkMax = 1 + (long)(u * u * 600); break;
    case V_ORDER: {
      Rng h((uint64_t)(u * 1e9));
      for (size_t i = t.opts.size(); i > 1; i--) std::swap(t.opts[i - 1], t.opts[h.below(i)]);
      argv = {"zmdp"};
      vector<string> r = optsArgv(t.opts, false);
      size_t split = 2 + 2 * (size_t)(v * (r.size() / 2));
      argv.insert(argv.end(), r.begin() + 1, r.begin() + std::min(split, r.size()));
      argv.push_back(s.m.ext());
      argv.insert(argv.end(), r.begin() + std::min(split, r.size()), r.end());
      break;
    }
    case V_LEFTOVER:
      g["out.policy"] = string((size_t)(u * 20000), 'x');
      g["out.policy.bak"] = "old\n";
      g["backups.log"] = "7\n";
      g["bounds.plot"] = g["inc.plot"] = "old\n";
      break;
    case V_DEFAULTS: {
      Files h;
      Proc p = exec(o, {"zmdp", "--genConfig", "d.cfg"}, s.plan, h);
      if (abnormal(o, p, "genConfig: ")) return;
      if (!h.count("d.cfg")) { o.bad("no config file generated", "zmdp --genConfig d.cfg left no file"); return; }
      g["d.cfg"] = h["d.cfg"];
      argv = s.argv();
      argv.insert(argv.begin() + 2, {"-c", "d.cfg"});
      break;
    }
    case V_STACK: if (st == "hdp") { o.hit("recursive"); return; } t.plan.stackKB = 1280 + (long)(u * 256); break;
  }
  string name = vName[vary];
  SolveRun b = argv.empty() ? solveRun(o, t, g) : solveRun(o, t, g, nullptr, &argv);
  if (failed(o, b, name + ": ")) return;
  // 'benchmark' also ends as soon as the bounds of the initial state are close
  if ((vary == V_BENCH || vary == V_EVAL) && s.maintainsLB() && !b.trials.empty() && b.trials.back().ub - b.trials.back().lb <= s.target() && a.trials.size() > b.trials.size()) {
    a.trials.resize(b.trials.size());
    o.hit("benchmark ended earlier");
  }
  string d = differ(s, a, b);
  if (!d.empty()) { o.bad("the search depends on: " + name, d); return; }
  if (s.convexLB() && samePolicy) {
    if (f["out.policy"].empty()) { o.bad("no policy", "the run wrote no policy"); return; }
    if (f["out.policy"] != g["out.policy"]) { o.bad("the policy depends on: " + name, fmt("policies of %zu and %zu bytes", f["out.policy"].size(), g["out.policy"].size())); return; }
    o.hit("policies compared");
  }
  o.hit("varied: " + name);
  o.hit("trials compared", a.trials.size());
  o.nontrivial = a.trials.size() >= 2;
}

// =================================================================== C14
static void genC14(Rng &g, Scenario &s, bool th) {
  static const char *w[] = {"any", "any", "pomdp", "general"};
  s.m = genModel(g, w[g.below(4)]);
  genSearchOpts(g, s);
  if (s.m.family == "general" && s.strategy() != "frtdp") s.setOpt("searchStrategy", "hsvi"), s.delOpt("maintainLowerBound");
  genPlan(g, s.plan);
  genBenchOpts(g, s);
  s.plan.clockStep = 0;     // only backups take time
  static const long long costs[] = {50, 1000, 20000, 700000};
  s.plan.backupCost = costs[g.below(4)];
  static const char *fe[] = {"0", "0.05", "0.5", "3", "1.0", "50"};
  s.setOpt("evaluationFirstEpochWallclockSeconds", fe[g.below(6)]);
  static const char *tr[] = {"1", "7", "31"};
  s.setOpt("evaluationTrialsPerEpoch", tr[g.below(3)]);
  if (g.chance(0.3)) s.setOpt("policyOutputFile", g.chance(0.7) ? "pol" : "none");
  s.par["end"] = g.below(5);      // 0,1 backups only, 2 time, 3 lower bound value, 4 upper bound value
  s.par["at"] = g.u();
  s.par["slow"] = g.chance(0.6) ? 1 + g.below(2000) : 0;    // time taken by each random number of the evaluation
}
static void runC14(const Scenario &s0, Outcome &o) {
  Scenario s = s0;
  common(s, o);
  string st = s.strategy();
  int end = (int)s.p("end");
  if (end >= 2) {   // somewhere within the run
    Files f = s.files();
    SolveRun d = solveRun(o, s, f);
    if (failed(o, d)) return;
    if (d.trials.size() < 2) { o.hit("run too short"); return; }
    size_t k = (size_t)(s.p("at") * (d.trials.size() - 1));
    if (end == 2) s.setOpt("terminateWallclockSeconds", fmt("%.6g", std::max(1e-4, (d.trials[k].t - s.plan.clockStart) * 1e-6 * (0.8 + 0.4 * s.p("at")))));
    else {
      double x = end == 3 ? d.trials[k].lb : d.trials[k].ub;
      if (!(fabs(x) < 1e15) || x == -999) { o.hit("bound not maintained"); return; }
      s.setOpt(end == 3 ? "terminateLowerBoundValue" : "terminateUpperBoundValue", fmt("%.17g", x));
    }
  }
  // evaluating takes time that does not count
  bool slow = s.p("slow") > 0 && st != "rtdp" && st != "lrtdp";
  Scenario t = s;
  if (slow) {
    Fault x;
    x.cls = C_RAND;
    x.act = A_JUMP;
    x.nth = 1;
    x.arg = (long long)s.p("slow");
    x.sticky = true;
    t.plan.faults.push_back(x);
    o.hit("slow evaluations");
  }
  Files f = t.files();
  SolveRun r = solveRun(o, t, f);
  if (failed(o, r)) return;
  if (r.trials.empty()) { o.bad("no trial", "the run ended without a single trial"); return; }
  // inc.plot
  vector<vector<double>> inc, bp, sto;
  for (auto &l : lines(f["inc.plot"])) if (!l.empty() && l[0] != '#') inc.push_back(numbers(l));
  for (auto &l : lines(f["bounds.plot"])) if (!l.empty() && l[0] != '#') bp.push_back(numbers(l));
  for (auto &x : inc) if (x.size() != 5) { o.bad("inc.plot is malformed", fmt("a line has %zu numbers", x.size())); return; }
  for (auto &x : bp) if (x.size() != 7) { o.bad("bounds.plot is malformed", fmt("a line has %zu numbers", x.size())); return; }
  if (inc.empty() || bp.empty()) { o.bad("progress log empty", inc.empty() ? "inc.plot" : "bounds.plot"); return; }
  // search time at the end of each trial
  vector<double> T;
  size_t n = r.trials.size();
  if (slow) {
    // the same search with evaluations that take no time
    Files h = s.files();
    SolveRun q = solveRun(o, s, h);
    if (failed(o, q)) return;
    for (auto &x : q.trials) T.push_back((x.t - s.plan.clockStart) * 1e-6);
    // what counts must agree with it
    if (h["inc.plot"] != f["inc.plot"]) { o.bad("time spent on evaluation counts", "inc.plot depends on how long evaluations take"); return; }
    if (h["bounds.plot"] != f["bounds.plot"]) { o.bad("time spent on evaluation counts", "bounds.plot depends on how long evaluations take"); return; }
    if (q.trials.size() != n) { o.bad("time spent on evaluation counts", fmt("%zu trials, %zu if evaluations take no time", n, q.trials.size())); return; }
  } else
    for (auto &x : r.trials) T.push_back((x.t - s.plan.clockStart) * 1e-6);
  // only rounding may differ
  auto sl = [&](double t) { return 1e-12 + 1e-9 * t; };
  auto lim = [&](const char *k, double d) { string x = s.opt(k); double v = x.empty() ? d : atof(x.c_str()); return v; };
  double first = lim("evaluationFirstEpochWallclockSeconds", 1), term = lim("terminateWallclockSeconds", -1), N = lim("evaluationEpochsPerMagnitude", 10);
  if (term <= 0) term = 1e300;
  double target = s.target(), tl = lim("terminateLowerBoundValue", -999), tu = lim("terminateUpperBoundValue", -999);
  long cap = (long)lim("terminateNumBackups", -1);
  if (cap <= 0) cap = (1L << 60);
  bool lb = s.maintainsLB();
  // where and why the run ended; strict: does it have to be over?
  auto over = [&](size_t k, bool strict) {
    const TrialRec &x = r.trials[k];
    double eps = strict ? 0 : 1e-12 * std::max(1.0, fabs(x.ub)), t = strict ? T[k] - sl(T[k]) : T[k] + sl(T[k]);
    if (x.done) return true;
    if (lb && target > 0 && x.ub - x.lb <= target + eps) return true;
    if (lb && tl != -999 && x.lb >= tl - eps) return true;
    if (tu != -999 && x.ub <= tu + eps) return true;
    if (x.backups >= cap) return true;
    return t >= term;
  };
  for (size_t k = 0; k + 1 < n; k++)
    if (over(k, true)) { o.bad("run goes on after its end", fmt("trial %zu of %zu met a condition to end the run: done %d, bounds [%.12g, %.12g], %ld backups, %.9g s", k + 1, n, r.trials[k].done, r.trials[k].lb, r.trials[k].ub, r.trials[k].backups, T[k])); return; }
  if (!over(n - 1, false)) { o.bad("run ended for no reason", fmt("after trial %zu with bounds [%.12g, %.12g], %ld backups, %.9g s", n, r.trials[n - 1].lb, r.trials[n - 1].ub, r.trials[n - 1].backups, T[n - 1])); return; }
  o.hit("ends checked");
  // bounds.plot: lines are trials, in order; none is left out for long
  size_t at = 0;
  double lastT = -1;
  for (size_t i = 0; i < bp.size(); i++) {
    size_t k = (size_t)bp[i][5];
    bool solvedHdp = i + 1 == bp.size() && st == "hdp" && r.trials[n - 1].done;
    if ((k < 1 && !solvedHdp) || k > n || bp[i][5] != (double)k) { o.bad("bounds.plot is wrong", fmt("line %zu is for trial %g of %zu", i + 1, bp[i][5], n)); return; }
    if (solvedHdp && k + 1 == n) k = n;   // that every state is solved is found without a trial
    if (k <= at) { o.bad("bounds.plot is wrong", fmt("line %zu is for trial %zu again", i + 1, k)); return; }
    const TrialRec &x = r.trials[k - 1];
    auto close = [](double a, double b) { return fabs(a - b) <= 1e-5 * fabs(b) + 1e-9 || (fabs(a) > 1e15 && fabs(b) > 1e15); };
    if ((lb && !close(bp[i][1], x.lb)) || !close(bp[i][2], x.ub) || bp[i][3] != x.touched || bp[i][4] != x.expanded || bp[i][6] != x.backups) {
      o.bad("bounds.plot is wrong", fmt("line %zu: [%g, %g] %g %g %g, trial %zu ended with [%.9g, %.9g] %ld %ld %ld", i + 1, bp[i][1], bp[i][2], bp[i][3], bp[i][4], bp[i][6], k, x.lb, x.ub, x.touched, x.expanded, x.backups));
      return;
    }
    if (fabs(bp[i][0] - T[k - 1]) > 1e-5 * T[k - 1] + 1e-9) { o.bad("bounds.plot has a wrong time", fmt("line %zu: %g s, trial %zu ended after %.9g s of search", i + 1, bp[i][0], k, T[k - 1])); return; }
    for (size_t j = at; j + 1 < k; j++)
      if (lastT <= 0 || T[j] > lastT * (1 + 1.1e-4)) { o.bad("bounds.plot leaves out a trial", fmt("trial %zu at %.9g s, the line before is at %.9g s", j + 1, T[j], lastT)); return; }
    at = k;
    lastT = T[k - 1];
  }
  for (size_t j = at; j < n; j++)
    if (r.trials[j].done || lastT <= 0 || T[j] > lastT * (1 + 1.1e-4)) { o.bad("bounds.plot leaves out a trial", fmt("trial %zu of %zu at %.9g s, the last line is at %.9g s", j + 1, n, T[j], lastT)); return; }
  o.hit("bounds lines compared", bp.size());
  // epochs
  double step = ::log(10) / N, last = -1;
  size_t e = 0;
  bool tie = false;
  for (size_t k = 0; k < n; k++) {
    double t = T[k], d = sl(t);
    if (t <= 0) t = 1e-20;
    double gap = last < 0 ? 1e9 : ::log(t) - ::log(last);
    bool fin = k + 1 == n, must = fin || (t > first + d && gap > step + 1e-7), may = fin || (t > first - d && gap > step - 1e-7);
    if (!must && may) tie = true;
    bool is = e < inc.size() && fabs(inc[e][0] - T[k]) <= 1e-5 * T[k] + 1e-12;
    if (must && !is) {
      if (tie) break;
      if (e < inc.size()) o.bad("evaluation at a wrong time", fmt("trial %zu of %zu ended after %.9g s, line %zu of inc.plot is for %.9g s", k + 1, n, T[k], e + 1, inc[e][0]));
      else o.bad("evaluation left out", fmt("trial %zu of %zu ended after %.9g s, the last evaluation was at %.9g s", k + 1, n, T[k], last));
      return;
    }
    if (must || (may && is)) last = t, e++;
  }
  if (e != inc.size() && !tie) { o.bad("evaluation out of schedule", fmt("%zu evaluations, %zu expected; the first is due after %g s, %g times per magnitude", inc.size(), e, first, N)); return; }
  o.hit("epochs checked", inc.size());
  // console: one set of batches per epoch; storage: one line per epoch
  if (s.opt("storageOutputFile", "none") != "none") {
    for (auto &l : lines(f[s.opt("storageOutputFile")])) if (!l.empty() && l[0] != '#') sto.push_back(numbers(l));
    if (sto.size() != inc.size()) { o.bad("storage log is incomplete", fmt("%zu lines for %zu epochs", sto.size(), inc.size())); return; }
    for (size_t i = 0; i < sto.size(); i++) {
      if (sto[i].size() != 10) { o.bad("storage log is malformed", fmt("a line has %zu numbers", sto[i].size())); return; }
      if (fabs(sto[i][0] - inc[i][0]) > 1e-5 * inc[i][0] + 2e-6 || sto[i][1] != sto[i][3] + sto[i][5] + sto[i][7] + sto[i][9]) { o.bad("storage log is wrong", fmt("line %zu: time %g, total %g of %g %g %g %g", i + 1, sto[i][0], sto[i][1], sto[i][3], sto[i][5], sto[i][7], sto[i][9])); return; }
    }
    o.hit("storage lines checked", sto.size());
  } else if (f.count("storage.plot")) { o.bad("storage log not asked for", "storage.plot"); return; }
  string pf = s.opt("policyOutputFile", "none");
  if (pf != "none" && s.convexLB() && !f.count(pf)) { o.bad("no policy", "the run wrote no policy"); return; }
  if ((pf == "none" || !s.convexLB()) && (f.count("out.policy") || (pf != "none" && f.count(pf)))) { o.bad("policy not asked for", "a policy was written"); return; }
  o.nontrivial = inc.size() >= 2;
}

// =================================================================== C16
static void genC16(Rng &g, Scenario &s, bool th) {
  static const char *w[] = {"general", "general", "general", "two", "pomdp", "any"};
  s.m = genModel(g, w[g.below(6)]);
  genPlan(g, s.plan);
  s.layout = g.chance(0.5) ? g.below(1000000) : 0;
  s.par["runs"] = 2 + g.below(3);
  s.par["optSeed"] = g.next() >> 20;
}
static void runC16(const Scenario &s, Outcome &o) {
  common(s, o);
  int K = (int)s.p("runs");
  double lo = -1e300, hi = 1e300, tolLo = 0, tolHi = 0;
  string whoLo, whoHi;
  for (int k = 0; k < K; k++) {
    Scenario t = s;
    Rng g((uint64_t)s.p("optSeed") * 31 + k);
    genSearchOpts(g, t);
    if (t.m.family == "general" && t.strategy() != "frtdp") t.setOpt("searchStrategy", "hsvi"), t.delOpt("maintainLowerBound");
    static const char *c[] = {"5", "40", "150", "500"};
    t.setOpt("terminateNumBackups", c[g.below(4)]);
    if (g.chance(0.5)) t.setOpt("terminateRegretBound", "1e-6");
    for (auto &x : s.opts) t.setOpt(x.first, x.second);
    Files f = t.files();
    SolveRun r = solveRun(o, t, f);
    if (failed(o, r)) return;
    if (r.trials.empty()) continue;
    // tolerance as for a reference value
    const Model &m = s.m;
    double disc = m.gamma < 1 ? 1 / (1 - m.gamma) : std::max(1, m.horizon), vmax = std::max(1.0, m.scale()) * disc;
    double tl = 1e-9 * vmax * disc + 1e-7 + (m.kind == K_POMDP ? 1.01e-2 * t.target() * disc : 0), tu = tl + (m.kind == K_POMDP ? 2.2e-6 * vmax * disc : 0);
    for (auto &x : r.trials) {
      if (t.maintainsLB() && x.lb - tl > lo - tolLo) { lo = x.lb; tolLo = tl; whoLo = fmt("run %d (%s, %ld backups)", k + 1, t.strategy().c_str(), x.backups); }
      if (x.ub + tu < hi + tolHi) { hi = x.ub; tolHi = tu; whoHi = fmt("run %d (%s, %ld backups)", k + 1, t.strategy().c_str(), x.backups); }
    }
    o.hit("runs combined");
  }
  o.nontrivial = whoLo != "" && whoHi != "" && whoLo.substr(0, 5) != whoHi.substr(0, 5);
  if (lo - tolLo > hi + tolHi) o.bad("configurations contradict each other", fmt("%s has lower bound %.12g, %s has upper bound %.12g", whoLo.c_str(), lo, whoHi.c_str(), hi));
}

// =================================================================== C17
static void genC17(Rng &g, Scenario &s, bool th) {
  static const char *w[] = {"pomdp", "pomdp", "general", "any"};
  s.m = genModel(g, w[g.below(4)]);
  genSearchOpts(g, s);
  if (s.m.family == "general" && s.strategy() != "frtdp") s.setOpt("searchStrategy", "hsvi"), s.delOpt("maintainLowerBound");
  s.delOpt("useFastModelParser");
  genPlan(g, s.plan);
  s.setOpt("terminateNumBackups", "60");
  s.par["l1"] = g.below(1000000);
  s.par["l2"] = 1 + g.below(1000000);
  s.par["chunk"] = g.chance(0.3) ? 1 + g.below(300) : 0;
}
static void runC17(const Scenario &s, Outcome &o) {
  common(s, o);
  if (s.m.kind != K_POMDP && s.m.kind != K_MDP) { o.hit("one notation only"); return; }
  Scenario t[3] = {s, s, s};
  t[0].layout = 0;
  t[1].layout = (uint64_t)s.p("l2");
  t[1].plan.chunkMax = (long)s.p("chunk");
  t[2].layout = 0;
  int n = 2;
  if (s.m.kind == K_POMDP) { t[2].setOpt("useFastModelParser", "1"); n = 3; }
  SolveRun r[3];
  Files f[3];
  for (int i = 0; i < n; i++) {
    f[i] = t[i].files();
    r[i] = solveRun(o, t[i], f[i]);
    if (failed(o, r[i], i == 0 ? "" : i == 1 ? "other layout: " : "fast parser: ")) return;
    if (!i) continue;
    string what = i == 1 ? "layout" : "parser";
    if (i == 2) {   // the parsers may round differently, so the searches may part at a tie; their bounds bracket the same value
      double lo = -1e300, hi = 1e300;
      for (int k = 0; k <= 2; k += 2)
        for (auto &x : r[k].trials) { if (s.maintainsLB()) lo = std::max(lo, x.lb); hi = std::min(hi, x.ub); }
      const Model &m = s.m;
      double disc = m.gamma < 1 ? 1 / (1 - m.gamma) : std::max(1, m.horizon), vmax = std::max(1.0, m.scale()) * disc;
      double tol = 2e-9 * vmax * disc + 2e-7 + 2 * (1.01e-2 * s.target() * disc) + 2.2e-6 * vmax * disc;
      if (lo > hi + tol) { o.bad("the parser of the model matters", fmt("lower bound %.12g, upper bound %.12g", lo, hi)); return; }
      if (differ(s, r[0], r[2]).empty()) o.hit("parsers agree to the last bit");
      o.hit("compared: " + what);
      continue;
    }
    string d = differ(s, r[0], r[i]);
    if (!d.empty()) { o.bad("the " + what + " of the model matters", d); return; }
    if (f[i]["out.policy"] != f[0]["out.policy"]) { o.bad("the " + what + " of the model matters", "another policy was written"); return; }
    o.hit("compared: " + what);
  }
  o.nontrivial = r[0].trials.size() >= 2;
}

extern const Check checksRuns[];
extern const int nChecksRuns;
const Check checksRuns[] = {
  {"C13", genC13, runC13, "non-trivial: at least 2 trials compared; distinct: sequence of backed-up states and process results"},
  {"C14", genC14, runC14, "non-trivial: at least 2 evaluation epochs; distinct: sequence of backed-up states and process results"},
  {"C16", genC16, runC16, "non-trivial: the best bounds come from different runs; distinct: sequence of backed-up states and process results"},
  {"C17", genC17, runC17, "non-trivial: at least 2 trials compared; distinct: sequence of backed-up states and process results"},
};
const int nChecksRuns = sizeof checksRuns / sizeof *checksRuns;
