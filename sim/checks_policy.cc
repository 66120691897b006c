// Checks over progress, interruption and the policy that a run leaves behind.
#include "checks.h"
#include <math.h>
#include <string.h>
#include <algorithm>
#define SIGINT_ 2
using namespace sim;
using std::string;
using std::vector;

// value of the policy at the initial belief, -inf if no plane applies
static double policyAt0(const Ref &ref, const Policy &pol, int *k = nullptr) {
  double v;
  int i = bestPlane(pol, ref.nodes[0].s, &v);
  if (k) *k = i;
  return i < 0 ? -1e300 : v;
}

// one-step lookahead on the policy's planes at a node; false if a reachable
// next belief has no applicable plane
static bool lookahead(const Ref &ref, const Policy &pol, int i, vector<double> &q) {
  const RefNode &n = ref.nodes[i];
  q.assign(ref.m->A, 0);
  for (int a = 0; a < ref.m->A; a++) {
    double v = 0;
    for (auto &e : n.succ[a]) {
      double x;
      if (bestPlane(pol, ref.nodes[e.to].s, &x) < 0) return false;
      v += e.p * x;
    }
    q[a] = n.rew[a] + ref.m->gamma * v;
  }
  return true;
}

// is what executing the policy earns at least `want`?
static bool earns(const Ref &ref, const Policy &pol, double want, double &earned, string &how) {
  int missing;
  earned = labelPolicyValue(ref, pol, &missing);
  how = "the policy's action labels";
  if (missing >= 0) { how = "undefined at a reached belief"; return false; }
  if (earned < want) return false;
  vector<int> act(ref.nodes.size(), -1), stack = {0};
  vector<char> seen(ref.nodes.size(), 0);
  seen[0] = 1;
  while (!stack.empty()) {
    int i = stack.back();
    stack.pop_back();
    if (ref.nodes[i].terminal) continue;
    vector<double> q;
    if (!lookahead(ref, pol, i, q)) { how = "undefined at a considered belief"; return false; }
    act[i] = std::max_element(q.begin(), q.end()) - q.begin();
    for (auto &e : ref.nodes[i].succ[act[i]]) if (!seen[e.to]) { seen[e.to] = 1; stack.push_back(e.to); }
  }
  earned = ref.policyValue(act)[0];
  how = "one-step lookahead on the policy";
  return earned >= want;
}

// Is a shortfall of the policy the work of useMaxPlanesExtraPruning?  It is if
// the same run without that option promises as much and earns its promise.
static bool prunedTooMuch(const Scenario &s, Outcome &o, const Ref &ref, double slack, double promised) {
  if (s.opt("useMaxPlanesExtraPruning", "1") != "1") return false;
  // the search takes another course without the pruning, and may need more work to promise as much
  for (int more = 1; more <= 5; more += 2) {
    Scenario t = s;
    t.setOpt("useMaxPlanesExtraPruning", "0");
    // nor need it promise as much where a signal or a timeout ended this run
    t.plan.faults.clear();
    t.delOpt("terminateWallclockSeconds");
    string cap = s.opt("terminateNumBackups");
    if (more > 1 && cap.empty()) return false;
    if (more > 1) t.setOpt("terminateNumBackups", std::to_string(atoi(cap.c_str()) * more));
    Files f = t.files();
    string pf = s.opt("policyOutputFile", "out.policy");
    SolveRun r = solveRun(o, t, f);
    if (abnormal(o, r.p) || r.trials.empty() || !f.count(pf)) return false;
    Policy pol = readPolicy(f[pf], s.m.S, s.m.A);
    double v0 = -1e300, earned;
    string how;
    if (!pol.ok || bestPlane(pol, ref.nodes[0].s, &v0) < 0 || !earns(ref, pol, v0 - slack, earned, how)) return false;
    if (v0 >= promised - slack) return true;
  }
  return false;
}

// everything a complete and correct policy file has to satisfy, given the
// lower bound the run claimed for the initial belief
static void checkPolicy(const Scenario &s, Outcome &o, const Ref &ref, const string &text, double claimed, bool full, const string &what = "") {
  Policy pol = readPolicy(text, s.m.S, s.m.A);
  if (!pol.ok) { o.bad(what + "policy malformed", pol.why); return; }
  double tp = policyTol(pol), tl = lbTol(s, ref) + ref.err;
  double mult = s.m.gamma < 1 ? 1 / (1 - s.m.gamma) : std::max(1, s.m.horizon);
  double v0 = -1e300;
  Sparse b0;
  for (int i = 0; i < s.m.S; i++) if (s.m.b0[i]) b0.push_back({i, s.m.b0[i] / (double)s.m.D});
  if (bestPlane(pol, b0, &v0) < 0) { o.bad(what + "policy undefined at the start", "no plane of the policy applies to the initial belief"); return; }
  if (v0 < claimed - tp - 1e-8) { o.bad(what + "policy weaker than claimed", fmt("the policy's value at the initial belief is %.9g, the run claimed %.9g", v0, claimed)); return; }
  o.hit("policies read");
  if (!full) return;
  double truncT = 3e-6 * ref.vmax * mult;
  // every plane is a lower bound wherever it applies
  auto below = [&](const Sparse &b, double hi) {
    double v;
    int k = bestPlane(pol, b, &v);
    if (k >= 0 && v > hi + tl + tp + truncT) {
      string t;
      for (auto &e : b) t += fmt(" %d:%.6g", e.first, e.second);
      o.bad(what + "policy above the optimal value", fmt("plane %d gives %.9g at belief [%s ], the optimal value is %.9g", k, v, t.c_str(), hi));
      return false;
    }
    return true;
  };
  if (ref.closed) {
    for (size_t i = 0; i < ref.nodes.size() && i < 3000; i++) {
      SV sv[64];
      unsigned n = 0;
      for (auto &e : ref.nodes[i].s) if (n < 64) sv[n++] = {(unsigned)e.first, e.second};
      double lo, hi;
      if (n == 64 || !ref.value(sv, n, lo, hi)) continue;
      if (!below(ref.nodes[i].s, hi)) return;
      o.hit("beliefs compared with the policy");
    }
  } else if (ref.twoState) {
    for (int i = 0; i <= 40; i++) {
      double p = i / 40.0;
      Sparse b;
      if (p < 1) b.push_back({0, 1 - p});
      if (p > 0) b.push_back({1, p});
      SV sv[2];
      unsigned n = 0;
      for (auto &e : b) sv[n++] = {(unsigned)e.first, e.second};
      double lo, hi;
      if (!ref.value(sv, n, lo, hi)) continue;
      if (!below(b, hi)) return;
      o.hit("beliefs compared with the policy");
    }
  }
  if (!ref.closed || ref.twoState) return;
  // following the action labels earns what the policy promises; so does
  // one-step lookahead, which is how 'evaluate' runs it
  double slack = tl + (tp + truncT) * mult, earned;
  string how;
  if (!earns(ref, pol, v0 - slack, earned, how)) {
    if (how.find("undefined") == 0) { o.bad(what + "policy " + how, "following the policy leads to a belief where no plane applies"); return; }
    string msg = fmt("following %s earns %.9g, the policy promises %.9g", how.c_str(), earned, v0);
    string key = what + "policy does not earn what it promises";
    if (prunedTooMuch(s, o, ref, slack, v0)) key = what + "extra pruning removed planes the policy relies on";
    o.bad(key, msg);
    return;
  }
  o.hit("policies executed");
}

// =================================================================== C04
static void genC04(Rng &g, Scenario &s, bool th) {
  static const char *w[] = {"layered", "layered", "layered", "finite", "two", "mdp", "race", "custom"};
  s.m = genModel(g, w[g.below(8)]);
  genSearchOpts(g, s);
  genPlan(g, s.plan);
  if (s.m.family == "two-state") {
    static const char *st[] = {"frtdp", "hsvi"};
    s.setOpt("searchStrategy", st[g.below(2)]);
    s.delOpt("upperBoundRepresentation");
    s.delOpt("lowerBoundRepresentation");
    s.setOpt("terminateRegretBound", fmt("%.3g", std::max(1.0, s.m.scale()) / (1 - s.m.gamma) * (g.chance(0.5) ? 0.01 : 0.03)));
  }
  if (s.m.family == "mdp" && s.strategy() == "hdp") s.setOpt("searchStrategy", "frtdp"), s.delOpt("maintainLowerBound");   // very many cheap sweeps
  s.plan.cpuLimit = 60;
  if (s.strategy() == "rtdp") {
    s.setOpt("terminateNumBackups", "20000");
    s.plan.randExtreme = 0;
  }
}
// how many backups a run may take: at least ten times the largest number seen on the
// unchanged program, in terms of the size of the problem
static double workUnit(const Scenario &s, const Ref &ref) {
  const Model &m = s.m;
  double n = m.family == "two-state" ? 100 : ref.nodes.size();
  double prec = std::max(2.0, log(std::max(4.0, ref.vmax / s.target())));
  double depth;
  if (m.horizon > 0) depth = m.horizon;
  else if (m.gamma < 1) depth = prec / (1 - m.gamma);
  else if (m.kind == K_CUSTOM) depth = prec * m.customN;
  else depth = prec * 10;
  return n * depth;
}
static void runC04(const Scenario &s, Outcome &o) {
  Ref ref;
  if (!ref.build(s.m)) { o.hit("reference too large"); return; }
  common(s, o);
  string st = s.strategy();
  double unit = workUnit(s, ref);
  double budget = (st == "hdp" ? 60 : 30) * unit + 200;
  Scenario t = s;
  if (st != "rtdp") t.setOpt("terminateNumBackups", std::to_string((long)budget));
  Files f = t.files();
  SolveRun r = solveRun(o, t, f);
  if (getenv("C04_DEBUG")) fprintf(stderr, "C04 %s %s nodes %zu unit %g backups %ld ratio %g trials %zu why %s\n", s.m.family.c_str(), st.c_str(), ref.nodes.size(), unit, r.p.cnt[C_BACKUP], r.p.cnt[C_BACKUP] / unit, r.trials.size(), endReason(r.p.out).c_str());
  if (abnormal(o, r.p)) return;
  if (r.p.exitCode != 0 || r.trials.empty()) { o.bad("failed run", fmt("exit code %d, signal %d: ", r.p.exitCode, r.p.signal) + r.p.err.substr(0, 300)); return; }
  double lo, hi;
  ref.value0(lo, hi);
  const TrialRec &last = r.trials.back();
  double tu = ubTol(s, ref) + ref.err, tl = lbTol(s, ref) + ref.err;
  if (st == "rtdp") {
    if (ref.closed && ref.nodes.size() <= 40 && last.ub - lo > 0.02 * ref.vmax + tl)
      o.bad("upper bound does not converge", fmt("after %ld backups of %zu states the upper bound is %.9g, the optimal value %.9g", last.backups, ref.nodes.size(), last.ub, lo));
    o.hit("rtdp runs compared");
  } else {
    if (endReason(r.p.out).find("reached target regret bound") != 0)
      o.bad("no convergence", fmt("%s has not reached its target %g after %ld backups of %zu states (%zu trials), bounds [%.9g, %.9g], optimal value %.9g", st.c_str(), s.target(), last.backups, ref.nodes.size(), r.trials.size(), last.lb, last.ub, lo));
    // a trial that neither ends the search nor does any work can repeat forever
    long idle = 0, prev = -1;
    for (auto &x : r.trials) {
      idle = x.backups == prev && !x.done ? idle + 1 : 0;
      prev = x.backups;
      if (idle > 50) { o.bad("trials without work", fmt("%ld trials in a row backed nothing up", idle)); break; }
    }
    if (st == "frtdp" || st == "hsvi") {
      if (ref.closed && last.ub - hi > s.target() + tu) o.bad("no convergence", fmt("ended with upper bound %.9g, target %g, optimal value %.9g", last.ub, s.target(), hi));
      if (ref.closed && lo - last.lb > s.target() + tl) o.bad("no convergence", fmt("ended with lower bound %.9g, target %g, optimal value %.9g", last.lb, s.target(), lo));
    }
    o.hit("converged runs");
    o.hit("backups", last.backups);
  }
  o.nontrivial = r.p.cnt[C_TRIAL] >= 2;
}

// =================================================================== C05
static void genC05(Rng &g, Scenario &s, bool th) {
  bool pomdp = g.chance(0.75);
  s.m = genModel(g, pomdp ? (g.chance(0.15) ? "general" : "pomdp") : "any");
  genSearchOpts(g, s, pomdp);
  if (s.m.family == "general") {
    if (s.strategy() != "frtdp") s.setOpt("searchStrategy", "hsvi");
  }
  if (pomdp) s.delOpt("lowerBoundRepresentation");
  genPlan(g, s.plan);
  s.setOpt("terminateNumBackups", capOpt(g));
  if (g.chance(0.25)) s.setOpt("policyOutputFile", g.chance(0.2) ? "none" : "my.policy");
  s.par["mode"] = g.below(4);           // 0-1 SIGINT, 2 timeout, 3 both
  static const int cls[] = {C_ANY, C_ANY, C_BACKUP, C_BACKUP, C_TRIAL, C_CLOCK, C_STDOUT, C_OPEN_W, C_WRITE, C_CLOSE, C_READ};
  s.par["cls"] = cls[g.below(11)];
  s.par["pos"] = g.u();
  s.par["second"] = g.chance(0.3) ? 1 + g.below(60) : 0;
  s.par["tpos"] = g.chance(0.2) ? g.u() * 0.05 : g.u();
  if (s.plan.backupCost == 0 && s.par["mode"] >= 2) s.plan.backupCost = 50;
  s.par["njump"] = g.chance(0.3) ? 1 + g.below(2) : 0;
  for (int i = 0; i < (int)s.par["njump"]; i++) {
    s.par[fmt("jpos%d", i)] = g.u();
    static const double j[] = {1e3, 1e6, 3.6e9, 1e12, -1e3, -1e6, -3.6e9};
    s.par[fmt("jarg%d", i)] = j[g.below(7)];
  }
}
static void runC05(const Scenario &s, Outcome &o) {
  common(s, o);
  Files f0 = s.files();
  SolveRun dry = solveRun(o, s, f0);
  if (abnormal(o, dry.p)) return;
  if (dry.p.exitCode != 0 || dry.trials.empty()) { o.bad("failed run", fmt("exit code %d, signal %d: ", dry.p.exitCode, dry.p.signal) + dry.p.err.substr(0, 300)); return; }
  Scenario t = s;
  int mode = (int)s.p("mode"), cls = (int)s.p("cls");
  if (mode != 2) {
    long n = dry.p.cnt[cls];
    if (cls == C_ANY) n = dry.p.events;
    if (n == 0) { cls = C_ANY; n = dry.p.events; }
    Fault f;
    f.cls = cls;
    f.nth = 1 + (long)(s.p("pos") * n);
    f.act = A_SIGINT;
    t.plan.faults.push_back(f);
    if (s.p("second") > 0) {
      f.nth += (long)s.p("second");
      t.plan.faults.push_back(f);
    }
  }
  double T = 0;
  long long start = s.plan.clockStart;
  if (mode >= 2) {
    T = s.p("tpos") * 1.05 * (dry.trials.back().t - start) * 1e-6;
    T = std::max(1e-6, T);
    t.setOpt("terminateWallclockSeconds", fmt("%.9g", T));
    T = atof(fmt("%.9g", T).c_str());
  }
  bool back = false;
  long long fwd = 0;
  for (int i = 0; i < (int)s.p("njump"); i++) {
    Fault f;
    f.cls = C_CLOCK;
    f.nth = 4 + (long)(s.p(fmt("jpos%d", i)) * dry.p.cnt[C_CLOCK]);
    f.act = A_JUMP;
    f.arg = (long long)s.p(fmt("jarg%d", i));
    t.plan.faults.push_back(f);
    if (f.arg < 0) back = true; else fwd += f.arg;
  }
  Files f = t.files();
  SolveRun r = solveRun(o, t, f);
  if (r.p.signal != SIGINT_ && abnormal(o, r.p)) return;
  string pf = t.opt("policyOutputFile", "out.policy");
  bool wantPolicy = s.convexLB() && pf != "none";
  if (r.p.signal == SIGINT_) {
    // the program had not yet taken charge of the signal
    if (r.p.cnt[C_BACKUP] || !r.trials.empty()) o.bad("killed by SIGINT", fmt("SIGINT killed the run after %ld backups and %zu trials", r.p.cnt[C_BACKUP], r.trials.size()));
    if (f.count(pf)) o.bad("killed by SIGINT", "a killed run left a policy file");
    o.hit("interrupted before the search");
    return;
  }
  if (r.p.exitCode != 0 || r.p.signal) { o.bad("failed run", fmt("exit code %d, signal %d: ", r.p.exitCode, r.p.signal) + r.p.err.substr(0, 300)); return; }
  if (r.trials.empty()) { o.bad("no trial", "the run ended without a single trial"); return; }
  // the part of the search that took place is the search that takes place without interruption
  size_t n = std::min(r.trials.size(), dry.trials.size());
  for (size_t i = 0; i < n; i++) {
    const TrialRec &x = r.trials[i], &y = dry.trials[i];
    if (x.backups != y.backups || x.done != y.done || memcmp(&x.ub, &y.ub, sizeof x.ub) || (s.maintainsLB() && memcmp(&x.lb, &y.lb, sizeof x.lb))) {
      o.bad("interruption changes the search", fmt("trial %zu: bounds [%.12g, %.12g] after %ld backups, without interruption [%.12g, %.12g] after %ld", i + 1, x.lb, x.ub, x.backups, y.lb, y.ub, y.backups));
      return;
    }
  }
  if (r.trials.size() > dry.trials.size()) { o.bad("interruption changes the search", "the interrupted run went on for longer"); return; }
  string why = endReason(r.p.out);
  const TrialRec &last = r.trials.back();
  bool stopped = false;   // was told to stop before the search was over
  if (r.p.sigintsDelivered) {
    o.hit("interrupted runs");
    if (r.p.trialsAfterSigint > 1) { o.bad("SIGINT ignored", fmt("%ld trials ended after the SIGINT", r.p.trialsAfterSigint)); return; }
    if (r.p.out.find("received SIGINT") == string::npos) o.bad("SIGINT not acknowledged", "nothing on the console acknowledges the SIGINT");
    stopped = true;
  }
  if (why.find("caught SIGINT") == 0 && !r.p.sigintsDelivered) o.bad("wrong reason", "claims a SIGINT, but none was sent");
  if (mode >= 2) {
    o.hit("timed runs");
    double lateUs = 200.0 * std::max(1ll, s.plan.clockStep);   // reading the clock takes time itself
    if (!back) {
      for (size_t i = 0; i + 1 < r.trials.size(); i++)
        if ((r.trials[i].t - start) * 1e-6 > T + lateUs * 1e-6 + 1e-6) {
          o.bad("timeout ignored", fmt("trial %zu of %zu ended at %.6f s, the timeout was %.9g s", i + 1, r.trials.size(), (r.trials[i].t - start) * 1e-6, T));
          return;
        }
      if (why.find("passed specified timeout") == 0 && (r.p.finalClock - start) * 1e-6 < T - 1e-6) o.bad("stopped too early", fmt("claims a timeout of %.9g s after %.6f s", T, (r.p.finalClock - start) * 1e-6));
    }
    if (why.find("passed specified timeout") == 0) stopped = true;
  } else if (why.find("passed specified timeout") == 0) o.bad("wrong reason", "claims a timeout, but none was requested");
  if (!stopped && !last.done) { o.bad("stopped for no reason", "the run ended although the search was not over: " + why); return; }
  if (!last.done && why.find("caught SIGINT") != 0 && why.find("passed specified timeout") != 0) o.bad("wrong reason", "not done, but says: " + why);
  if (last.done && why.find("caught SIGINT") == 0) o.bad("wrong reason", "done, but says: " + why);
  if (r.p.out.find(" done\n") == string::npos) o.bad("no orderly end", "the run did not finish in order");
  if (!wantPolicy) {
    if (f.count("out.policy")) o.bad("unwanted policy", "a policy was written although none was asked for");
    return;
  }
  if (!f.count(pf)) { o.bad("no policy", "the run was interrupted and left no policy file"); return; }
  Ref ref;
  bool full = s.m.family != "general" && ref.build(s.m) && s.p("pos") < 0.5;
  checkPolicy(t, o, ref, f[pf], last.lb, full);
  if (!o.viol.empty() && o.viol.back().key.find("extra pruning") == 0) { o.viol.pop_back(); o.hit("known finding of C06"); }
  o.nontrivial = r.p.cnt[C_BACKUP] >= 1 && (r.p.sigintsDelivered || mode >= 2);
}

// =================================================================== C06
static void genC06(Rng &g, Scenario &s, bool th) {
  s.m = genModel(g, g.chance(0.1) ? "general" : "pomdp");
  genSearchOpts(g, s, true);
  if (s.m.family == "general" && s.strategy() != "frtdp") s.setOpt("searchStrategy", "hsvi"), s.delOpt("maintainLowerBound");
  genPlan(g, s.plan);
  s.setOpt("terminateNumBackups", th && g.chance(0.3) ? "3000" : capOpt(g));
  if (g.chance(0.2)) s.setOpt("policyOutputFile", "sub.policy");
  if (g.chance(0.3)) s.setOpt("useMaxPlanesExtraPruning", "0");
  s.par["readback"] = g.chance(0.3);
}
static void runC06(const Scenario &s, Outcome &o) {
  Ref ref;
  bool full = s.m.family != "general";
  if (full && !ref.build(s.m)) { o.hit("reference too large"); return; }
  common(s, o);
  Files f = s.files();
  SolveRun r = solveRun(o, s, f);
  if (abnormal(o, r.p)) return;
  if (r.p.exitCode != 0 || r.trials.empty()) { o.bad("failed run", fmt("exit code %d, signal %d: ", r.p.exitCode, r.p.signal) + r.p.err.substr(0, 300)); return; }
  string pf = s.opt("policyOutputFile", "out.policy");
  if (!f.count(pf)) { o.bad("no policy", "the run left no policy file"); return; }
  size_t nv = o.viol.size();
  checkPolicy(s, o, ref, f[pf], r.trials.back().lb, full);
  if (o.viol.size() > nv) return;
  o.nontrivial = r.p.cnt[C_BACKUP] >= 3;
  if (!s.p("readback")) return;
  // 'evaluate' can use what 'solve' wrote
  vector<string> av = {"zmdp", "evaluate", "--policyInputFile", pf, "-i", "20"};
  if (s.opt("useFastModelParser") == "1") av.push_back("-f");
  if (s.m.gamma >= 1) { av.push_back("--maxHorizon"); av.push_back(s.opt("maxHorizon")); }
  av.push_back(s.argv().back());
  string before = f[pf];
  Proc e = exec(o, av, s.plan, f);
  if (abnormal(o, e, "evaluate: ")) return;
  if (e.exitCode != 0 || e.out.find("REWARD_MEAN_CONF95MIN_CONF95MAX") == string::npos) o.bad("policy cannot be read back", fmt("evaluate: exit code %d: ", e.exitCode) + e.err.substr(0, 300));
  if (f[pf] != before) o.bad("policy changed by evaluate", "evaluating a policy changed its file");
  o.hit("policies read back by evaluate");
}

extern const Check checksPolicy[];
extern const int nChecksPolicy;
const Check checksPolicy[] = {
  {"C04", genC04, runC04, "non-trivial: at least 2 trials; distinct: sequence of backed-up states and process results"},
  {"C05", genC05, runC05, "non-trivial: an interrupted or timed run with at least one backup that left a policy; distinct: sequence of backed-up states, faults that fired, and process results"},
  {"C06", genC06, runC06, "non-trivial: at least 3 backups before the policy was written; distinct: sequence of backed-up states and process results"},
};
const int nChecksPolicy = sizeof checksPolicy / sizeof *checksPolicy;
