// Checks over the search itself: bounds, monotonicity, termination, progress.
#include "checks.h"
#include <math.h>
#include <stdarg.h>
#include <string.h>
#include <algorithm>
#include <unordered_map>
#define SIGINT_ 2
using namespace sim;
using std::string;
using std::vector;

// =================================================================== C01
static void genC01(Rng &g, Scenario &s, bool th) {
  s.m = genModel(g, "any");
  genSearchOpts(g, s);
  genPlan(g, s.plan);
  s.setOpt("terminateNumBackups", th && g.chance(0.3) ? "3000" : capOpt(g));
}
static void runC01(const Scenario &s, Outcome &o) {
  Ref ref;
  if (!ref.build(s.m)) { o.hit("reference too large"); return; }
  common(s, o);
  bool lb = s.maintainsLB();
  double tl = lbTol(s, ref) + ref.err, tu = ubTol(s, ref) + ref.err;
  memset(probeCounts, 0, sizeof(long) * NPROBE);
  Obs ob;
  auto check = [&](const char *what, const SV *v, unsigned n, double l, double u, bool needIn) {
    double lo, hi;
    if (!ref.value(v, n, lo, hi)) {
      if (needIn) failInvariant(string("unreachable state|") + what + " of a state that the model cannot reach: " + svText(v, n));
      return;
    }
    probe(0);
    if (lb && !(l <= hi + tl)) failInvariant(fmt("lower bound above the optimal value|%s: lower bound %.9g, optimal value %.9g..%.9g at state %s", what, l, lo, hi, svText(v, n).c_str()));
    if (!(u >= lo - tu)) failInvariant(fmt("upper bound below the optimal value|%s: upper bound %.9g, optimal value %.9g..%.9g at state %s", what, u, lo, hi, svText(v, n).c_str()));
    if (u - lo > 1e-3 && lb && hi - l > 1e-3) probe(1);
    if (u - lo < 1e-3 && lb && hi - l < 1e-3) probe(2);
  };
  bool closed = ref.closed;
  ob.backup = [&](const SV *v, unsigned n, double l, double u, int) { check("backup", v, n, l, u, closed); };
  long trials = 0;
  ob.trial = [&](const TrialInfo &) { trials++; return trials <= 5 || trials % 7 == 0; };
  ob.value = [&](const SV *v, unsigned n, bool, double l, double u, double lq, double uq) {
    check("stored value", v, n, l, u, closed);
    check("query", v, n, lq, uq, closed);
  };
  Files f = s.files();
  Proc p = exec(o, s.argv(), s.plan, f, &ob);
  if (p.invariant) {
    size_t b = p.invMsg.find('|');
    o.bad(p.invMsg.substr(0, b), p.invMsg.substr(b + 1) + " (trial " + std::to_string(p.cnt[C_TRIAL]) + ", backup " + std::to_string(p.cnt[C_BACKUP]) + ")");
    return;
  }
  o.hit("states compared", probeCounts[0]);
  o.hit("both bounds strict", probeCounts[1]);
  o.hit("both bounds tight", probeCounts[2]);
  abnormal(o, p);
  o.nontrivial = p.cnt[C_BACKUP] >= 5 && probeCounts[1] > 0;
}


// =================================================================== C02
static void genC02(Rng &g, Scenario &s, bool th) {
  s.m = genModel(g, g.chance(0.2) ? "general" : "any");
  genSearchOpts(g, s);
  if (s.m.family == "general" && s.strategy() != "frtdp") s.setOpt("searchStrategy", "hsvi");
  genPlan(g, s.plan);
  s.setOpt("terminateNumBackups", th && g.chance(0.3) ? "3000" : capOpt(g));
}
static void runC02(const Scenario &s, Outcome &o) {
  common(s, o);
  bool lb = s.maintainsLB();
  double scale = std::max(1.0, s.m.scale());
  double tol = 1e-9 * scale + 1e-9;
  // near-corner beliefs are stored as corners; planes are computed to 1e-10
  double slack = tol + (s.m.kind == K_POMDP ? 1e-8 * scale / std::max(0.02, 1 - s.m.gamma) : 0);
  double slackL = slack + (s.m.kind == K_POMDP ? 1.01e-2 * s.target() * (s.m.gamma < 1 ? 1 / (1 - s.m.gamma) : std::max(1, s.m.horizon)) : 0);
  // lrtdp and hdp assign backed-up values as they are, whatever the old bound
  bool mono = s.strategy() != "lrtdp" && s.strategy() != "hdp";
  double cross = slack + (s.m.kind == K_POMDP ? 4.4e-6 * scale / std::max(0.02, 1 - s.m.gamma) : 0) + 1.01e-2 * s.target() / std::max(0.02, 1 - s.m.gamma);
  struct B { double l, u; };
  std::unordered_map<string, B> last;
  B root = {-1e300, 1e300};
  memset(probeCounts, 0, sizeof(long) * NPROBE);
  auto see = [&](const char *what, const SV *v, unsigned n, double l, double u) {
    string k((const char *)v, n * sizeof(SV));
    if (std::isnan(u) || (lb && std::isnan(l))) failInvariant(string("not a number|") + what + " bound is not a number at " + svText(v, n));
    auto it = last.find(k);
    if (it != last.end()) {
      probe(0);
      B &p = it->second;
      if (lb && mono && l < p.l - slackL) failInvariant(fmt("lower bound got worse|%s: lower bound of state %s fell from %.12g to %.12g", what, svText(v, n).c_str(), p.l, l));
      if (mono && u > p.u + slack) failInvariant(fmt("upper bound got worse|%s: upper bound of state %s rose from %.12g to %.12g", what, svText(v, n).c_str(), p.u, u));
      if (l > p.l + 1e-6 || u < p.u - 1e-6) probe(1);
      p.l = std::max(p.l, l);
      p.u = std::min(p.u, u);
    } else last[k] = {l, u};
    if (lb && l > u + cross) failInvariant(fmt("bounds cross|%s: lower bound %.12g above upper bound %.12g at %s", what, l, u, svText(v, n).c_str()));
  };
  Obs ob;
  ob.backup = [&](const SV *v, unsigned n, double l, double u, int) { see("backup", v, n, l, u); };
  long trials = 0;
  ob.trial = [&](const TrialInfo &t) {
    trials++;
    if (lb && t.lb < root.l - slackL) failInvariant(fmt("lower bound got worse|root lower bound fell from %.12g to %.12g", root.l, t.lb));
    if (mono && t.ub > root.u + slack) failInvariant(fmt("upper bound got worse|root upper bound rose from %.12g to %.12g", root.u, t.ub));
    root.l = std::max(root.l, t.lb);
    root.u = std::min(root.u, t.ub);
    return trials <= 5 || trials % 5 == 0;
  };
  std::unordered_map<string, B> lastQ;
  ob.value = [&](const SV *v, unsigned n, bool, double l, double u, double lq, double uq) {
    see("stored value", v, n, l, u);
  };
  Files f = s.files();
  Proc p = exec(o, s.argv(), s.plan, f, &ob);
  if (invariantFailed(o, p)) return;
  o.hit("comparisons", probeCounts[0]);
  o.hit("improvements", probeCounts[1]);
  abnormal(o, p);
  o.nontrivial = p.cnt[C_TRIAL] >= 3 && probeCounts[1] >= 3;
}

// =================================================================== C03
static void genC03(Rng &g, Scenario &s, bool th) {
  s.m = genModel(g, "any");
  genSearchOpts(g, s);
  genPlan(g, s.plan);
  bool conv = s.strategy() == "frtdp" || s.strategy() == "hsvi" || s.strategy() == "lrtdp" || s.strategy() == "hdp";
  // tabular bounds need not converge when infinitely many beliefs can be reached
  if (s.m.family == "two-state" && (s.opt("upperBoundRepresentation") == "point" || s.opt("lowerBoundRepresentation") == "point")) conv = false;
  if (s.m.family == "two-state" && s.target() < 0.09) conv = false;   // can take minutes
  if (!conv || g.chance(0.4)) s.setOpt("terminateNumBackups", capOpt(g));
  if (g.chance(0.4)) {
    static const char *t[] = {"0.001", "0.01", "0.1", "1", "5", "60"};
    s.setOpt("terminateWallclockSeconds", t[g.below(6)]);
    if (s.plan.backupCost == 0) s.plan.backupCost = 5;
  }
  if (g.chance(0.3)) {
    Fault f;
    f.cls = g.chance(0.5) ? C_TRIAL : C_BACKUP;
    f.nth = f.cls == C_TRIAL ? 1 + g.below(12) : 1 + g.below(200);
    f.act = A_SIGINT;
    s.plan.faults.push_back(f);
  }
}
static void runC03(const Scenario &s, Outcome &o) {
  Ref ref;
  if (!ref.build(s.m)) { o.hit("reference too large"); return; }
  common(s, o);
  Files f = s.files();
  SolveRun r = solveRun(o, s, f);
  if (abnormal(o, r.p)) return;
  if (r.p.signal == SIGINT_ && r.trials.empty()) return;
  if (r.p.exitCode != 0) { o.bad("failed run", fmt("exit code %d, signal %d: ", r.p.exitCode, r.p.signal) + r.p.err.substr(0, 300)); return; }
  if (r.trials.empty()) { o.bad("no trial", "the run ended without a single trial"); return; }
  string why = endReason(r.p.out);
  const TrialRec &last = r.trials.back();
  double lo, hi;
  ref.value0(lo, hi);
  double tu = ubTol(s, ref) + ref.err, tl = lbTol(s, ref) + ref.err;
  double target = s.target();
  string st = s.strategy();
  o.hit("reason " + (why.empty() ? string("none") : why.substr(0, why.find(' ', 8))));
  // the bounds printed at the end are the bounds reached
  size_t k = r.p.out.rfind("calls to solver, bounds [");
  double pl, pu, pr;
  if (k == string::npos || sscanf(r.p.out.c_str() + k, "calls to solver, bounds [%lf .. %lf], regret <= %lf", &pl, &pu, &pr) != 3) {
    o.bad("no final bounds", "no final bounds were printed");
  } else {
    // what is printed is a query at the initial state, which may use more than the stored bounds
    double pt = 6e-5 + 1e-9 * ref.vmax, slack = 1e-9 * ref.vmax;
    if (pu > last.ub + pt) o.bad("printed bounds", fmt("printed upper bound %.6f is worse than the stored %.12g", pu, last.ub));
    if (pu < lo - pt - tu) o.bad("printed bounds", fmt("printed upper bound %.6f is below the optimal value %.12g", pu, lo));
    if (s.maintainsLB()) {
      if (pl < last.lb - pt) o.bad("printed bounds", fmt("printed lower bound %.6f is worse than the stored %.12g", pl, last.lb));
      if (pl > hi + pt + tl) o.bad("printed bounds", fmt("printed lower bound %.6f is above the optimal value %.12g", pl, hi));
      if (fabs(pr - (pu - pl)) > 2 * pt + 1e-5 * fabs(pr) + slack) o.bad("printed bounds", fmt("printed regret bound %.9g, printed bounds %.6f .. %.6f", pr, pl, pu));
    }
  }
  bool anyDoneBefore = false;
  for (size_t i = 0; i + 1 < r.trials.size(); i++) anyDoneBefore |= r.trials[i].done;
  if (anyDoneBefore) o.bad("went on after the end", "the search reported it was done and was called again");
  if (why.find("reached target regret bound") == 0) {
    double claimed = atof(why.c_str() + strlen("reached target regret bound of "));
    if (fabs(claimed - target) > 1e-6 * target) o.bad("wrong target", fmt("claims target %g, requested %g", claimed, target));
    if (st == "frtdp" || st == "hsvi") {
      if (!(last.ub - last.lb < target)) o.bad("false claim: regret", fmt("claims regret <= %g, but the bounds are [%.9g, %.9g], optimal value %.9g..%.9g", target, last.lb, last.ub, lo, hi));
      if (last.ub - lo > target + tl || hi - last.lb > target + tu) o.bad("false claim: regret", fmt("claims regret <= %g, bounds [%.9g, %.9g], optimal value %.9g..%.9g", target, last.lb, last.ub, lo, hi));
    } else if (st == "lrtdp" || st == "hdp") {
      // solved: every state on the greedy graph has residual at most the target
      double mult = s.m.gamma < 1 ? 1 / (1 - s.m.gamma) : s.m.horizon > 0 ? s.m.horizon : -1;
      if (mult > 0 && last.ub - lo > target * mult + tl) o.bad("false claim: solved", fmt("claims to be solved to %g, but the upper bound is %.9g and the optimal value %.9g..%.9g", target, last.ub, lo, hi));
      if (mult > 0) o.hit("solved claims compared");
    } else
      o.bad("false claim: regret", "strategy " + st + " never establishes a regret bound, but the run claims it reached its target");
    if (!last.done) o.bad("false claim: regret", "the search did not report that it was done");
  } else if (why.find("passed specified timeout") == 0) {
    string T = s.opt("terminateWallclockSeconds");
    if (T.empty()) o.bad("false claim: timeout", "claims a timeout, but none was requested");
    double t = atof(T.c_str());
    if ((r.p.finalClock - s.plan.clockStart) * 1e-6 < t - 1e-6) o.bad("false claim: timeout", fmt("claims a timeout of %g s after %.6f s", t, (r.p.finalClock - s.plan.clockStart) * 1e-6));
  } else if (why.find("caught SIGINT") == 0) {
    if (!r.p.sigintsDelivered) o.bad("false claim: SIGINT", "claims a SIGINT, but none was sent");
  } else {
    string cap = s.opt("terminateNumBackups");
    bool reached = !cap.empty() && last.backups >= atol(cap.c_str());
    if (why.empty()) o.bad("no reason", "the run ended without saying why");
    else if (!(reached && why.find("backups") != string::npos)) o.bad("false claim: other", "unjustified reason: " + why);
  }
  o.nontrivial = r.p.cnt[C_TRIAL] >= 2;
}

extern const Check checksSearch[];
extern const int nChecksSearch;
const Check checksSearch[] = {
  {"C02", genC02, runC02, "non-trivial: at least 3 trials and 3 observed improvements of a bound; distinct: sequence of backed-up states and process results"},
  {"C03", genC03, runC03, "non-trivial: at least 2 trials before the run ended; distinct: sequence of backed-up states and process results"},
  {"C01", genC01, runC01, "non-trivial: at least 5 backups and at least one compared state where both bounds differ from the optimal value; distinct: sequence of backed-up states and process results"},
};
const int nChecksSearch = sizeof checksSearch / sizeof *checksSearch;
