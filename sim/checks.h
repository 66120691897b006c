// Scenarios, their outcomes, and the registry of property checks.
#pragma once
#include "env.h"
#include "json.h"
#include "model.h"
#include <functional>
#include <set>

typedef std::vector<std::pair<std::string, std::string>> Opts;

struct Scenario {
  std::string prop;
  uint64_t seed = 0;
  Model m;
  std::string cmd = "solve";
  Opts opts;
  sim::Plan plan;
  uint64_t layout = 0;            // how the model file is laid out
  std::map<std::string, double> par;   // check specific parameters
  std::map<std::string, std::string> text;
  double p(const std::string &k, double d = 0) const { auto i = par.find(k); return i == par.end() ? d : i->second; }
  std::string opt(const std::string &k, const std::string &d = "") const {
    for (auto &o : opts) if (o.first == k) return o.second;
    return d;
  }
  void setOpt(const std::string &k, const std::string &v) {
    for (auto &o : opts) if (o.first == k) { o.second = v; return; }
    opts.push_back({k, v});
  }
  void delOpt(const std::string &k) {
    for (size_t i = 0; i < opts.size(); i++) if (opts[i].first == k) { opts.erase(opts.begin() + i); return; }
  }
  std::vector<std::string> argv() const;
  sim::Files files() const;
  std::string modelText() const;
  bool maintainsLB() const;
  bool convexLB() const;         // lower bound planes, so that a policy is written
  std::string strategy() const { return opt("searchStrategy", "frtdp"); }
  double target() const { return atof(opt("terminateRegretBound", "1e-3").c_str()); }
  Json toJson() const;
  static Scenario fromJson(const Json &j);
};

struct Viol { std::string key, msg; };

struct Outcome {
  std::vector<Viol> viol;
  long procs = 0, events = 0, sims = 0;
  long fired[sim::A_NACT] = {0};
  long cnt[sim::C_NCLS] = {0};
  double simSeconds = 0;
  uint64_t hash = 1469598103934665603ull;   // all runs, everything observable
  uint64_t behave = 1469598103934665603ull; // the order of decisions taken
  bool nontrivial = false;
  std::map<std::string, long> reach;
  std::string note;                          // for samples
  std::vector<std::string> transcript;       // one line per simulated process
  void bad(const std::string &key, const std::string &msg) { viol.push_back({key, msg}); }
  void hit(const std::string &k, long n = 1) { reach[k] += n; }
};

// run one simulated process and account for it
sim::Proc exec(Outcome &o, const std::vector<std::string> &argv, const sim::Plan &p, sim::Files &f, sim::Observer *obs = nullptr);
// reports an abnormal end (assertion, signal, hang) that no injected fault
// explains; returns true if there was one
bool abnormal(Outcome &o, const sim::Proc &p, const std::string &what = "");
std::string abnormalKey(const sim::Proc &p);

struct Check {
  const char *id;
  std::function<void(sim::Rng &, Scenario &, bool thorough)> gen;
  std::function<void(const Scenario &, Outcome &)> run;
  const char *rule;
};
const Check *findCheck(const std::string &id);
std::vector<const Check *> allChecks();

// ---- shared generators
Model genModel(sim::Rng &g, const std::string &which);
void genSearchOpts(sim::Rng &g, Scenario &s, bool needPolicy = false);
void genPlan(sim::Rng &g, sim::Plan &p);
std::string str(double v);

// ---- readers of the program's output files
struct Plane { int action = -1; Sparse alpha; };
struct Policy {
  bool ok = false;
  std::string why;
  std::vector<Plane> planes;
};
Policy readPolicy(const std::string &text, int S, int A);
// the best applicable plane, -1 if there is none
int bestPlane(const Policy &p, const Sparse &b, double *val);
double planeValue(const Plane &p, const Sparse &b, bool &applicable);

struct SimStep { Sparse s; int a; Sparse sp; int o; bool truncS, truncSp; };
struct SimTrace { std::vector<SimStep> steps; bool terminated = false; };
bool readSim(const std::string &text, std::vector<SimTrace> &out, std::string &why);
std::vector<std::string> lines(const std::string &text);
std::vector<double> numbers(const std::string &line);

// ---- observer that forwards to lambdas
struct Obs : sim::Observer {
  std::function<void(const sim::SV *, unsigned, double, double, int)> backup;
  std::function<bool(const sim::TrialInfo &)> trial;
  std::function<void(const sim::SV *, unsigned, bool, double, double, double, double)> value;
  std::function<void()> trialEnd;
  std::function<void()> exitFn;
  void onBackup(const sim::SV *s, unsigned n, double lb, double ub, int nb) override { if (backup) backup(s, n, lb, ub, nb); }
  bool onTrial(const sim::TrialInfo &t) override { return trial ? trial(t) : false; }
  void onValue(const sim::SV *s, unsigned n, bool t, double lb, double ub, double lq, double uq) override { if (value) value(s, n, t, lb, ub, lq, uq); }
  void onTrialEnd() override { if (trialEnd) trialEnd(); }
  void onExit() override { if (exitFn) exitFn(); }
};
// tolerances
double lbTol(const Scenario &s, const Ref &r);
double ubTol(const Scenario &s, const Ref &r);
std::string svText(const sim::SV *s, unsigned n);

// ---- running 'solve' while recording every trial
struct TrialRec { bool done; double lb, ub; long backups, touched, expanded; long long t; };
struct SolveRun {
  sim::Proc p;
  std::vector<TrialRec> trials;
};
SolveRun solveRun(Outcome &o, const Scenario &s, sim::Files &f, Obs *more = nullptr, const std::vector<std::string> *argv = nullptr);
void genBenchOpts(sim::Rng &g, Scenario &s);
std::string fmt(const char *f, ...);
std::string capOpt(sim::Rng &g);
void common(const Scenario &s, Outcome &o);
// the reason 'solve' gives for ending; "" if none
std::string endReason(const std::string &out);
bool invariantFailed(Outcome &o, const sim::Proc &p);
// value of executing the policy's own action labels from node 0; act gets the
// choices, missing the index of a reached node without applicable plane
double labelPolicyValue(const Ref &ref, const Policy &pol, int *missing, std::vector<int> *act = nullptr);
double policyTol(const Policy &pol);
