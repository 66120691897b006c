#include "checks.h"
#include <math.h>
#include <stdarg.h>
#include <string.h>
#include <sstream>
#include <algorithm>
using namespace sim;
using std::string;
using std::vector;

string fmt(const char *f, ...) {
  char b[900];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
string capOpt(Rng &g) {
  static const char *c[] = {"20", "60", "150", "400", "400", "1000"};
  return c[g.below(6)];
}
void common(const Scenario &s, Outcome &o) {
  o.hit("strategy " + s.strategy());
  o.hit("model " + s.m.family);
}
SolveRun solveRun(Outcome &o, const Scenario &s, Files &f, Obs *more, const vector<string> *argv) {
  SolveRun r;
  Obs ob;
  if (more) ob = *more;
  ob.trial = [&](const TrialInfo &t) {
    obsLog(fmt("T %d %.17g %.17g %d %d %d %lld\n", t.done, t.lb, t.ub, t.numBackups, t.touched, t.expanded, simNow()));
    return more && more->trial ? more->trial(t) : false;
  };
  r.p = exec(o, argv ? *argv : s.argv(), s.plan, f, &ob);
  std::istringstream in(lastObsLog);
  string l;
  while (std::getline(in, l)) {
    TrialRec t;
    int d;
    if (sscanf(l.c_str(), "T %d %lf %lf %ld %ld %ld %lld", &d, &t.lb, &t.ub, &t.backups, &t.touched, &t.expanded, &t.t) == 7) {
      t.done = d;
      r.trials.push_back(t);
    }
  }
  return r;
}
string endReason(const string &out) {
  size_t a = out.find("terminating run; ");
  if (a == string::npos) return "";
  size_t b = out.find('\n', a);
  return out.substr(a + 17, b - a - 17);
}
bool invariantFailed(Outcome &o, const Proc &p) {
  if (!p.invariant) return false;
  size_t b = p.invMsg.find('|');
  if (b == string::npos) o.bad(p.invMsg.substr(0, 60), p.invMsg);
  else o.bad(p.invMsg.substr(0, b), p.invMsg.substr(b + 1) + fmt(" (trial %ld, backup %ld)", p.cnt[C_TRIAL], p.cnt[C_BACKUP]));
  return true;
}
double policyTol(const Policy &pol) {
  double m = 1;
  for (auto &p : pol.planes) for (auto &e : p.alpha) m = std::max(m, fabs(e.second));
  return 2e-5 * m;   // the file has six significant digits
}
double labelPolicyValue(const Ref &ref, const Policy &pol, int *missing, vector<int> *actOut) {
  vector<int> act(ref.nodes.size(), -1), stack = {0};
  vector<char> seen(ref.nodes.size(), 0);
  if (missing) *missing = -1;
  seen[0] = 1;
  while (!stack.empty()) {
    int i = stack.back();
    stack.pop_back();
    const RefNode &n = ref.nodes[i];
    if (n.terminal) continue;
    int k = bestPlane(pol, n.s, nullptr);
    if (k < 0) { if (missing) *missing = i; continue; }
    act[i] = pol.planes[k].action;
    for (auto &e : n.succ[act[i]]) if (!seen[e.to]) { seen[e.to] = 1; stack.push_back(e.to); }
  }
  if (actOut) *actOut = act;
  return ref.policyValue(act)[0];
}
