// Checks over the logs of a run: backup log, state index, bound and Q values,
// replay of a logged sequence of backups, progress logs and epochs.
#include "checks.h"
#include <math.h>
#include <string.h>
#include <algorithm>
using namespace sim;
using std::string;
using std::vector;

// -------------------------------------------------- what really happened
struct NodeVal { bool terminal; double lb, ub, lq, uq; };
struct History {
  SolveRun run;
  vector<string> backups;                 // keys, in order
  std::map<string, NodeVal> vals;         // after the last trial
};
// a state up to the precision at which the program tells states apart
static string skey(const Sparse &s) {
  string r;
  for (auto &e : s) r += fmt("%d:%.9f ", e.first, e.second);
  return r;
}
static string skey(const SV *s, unsigned n) {
  Sparse v;
  for (unsigned i = 0; i < n; i++) v.push_back({(int)s[i].idx, s[i].val});
  return skey(v);
}
static History record(Outcome &o, const Scenario &s, Files &f) {
  Obs ob;
  vector<string> last;
  ob.backup = [&](const SV *v, unsigned n, double, double, int) { obsLog("B " + skey(v, n) + "\n"); };
  ob.trial = [&](const TrialInfo &) { last.clear(); return true; };
  ob.value = [&](const SV *v, unsigned n, bool t, double lb, double ub, double lq, double uq) {
    last.push_back(fmt("V %d %.17g %.17g %.17g %.17g ", t, lb, ub, lq, uq) + skey(v, n) + "\n");
  };
  ob.exitFn = [&]() { for (auto &l : last) obsLog(l); };
  History h;
  h.run = solveRun(o, s, f, &ob);
  for (auto &l : lines(lastObsLog)) {
    if (l.compare(0, 2, "B ") == 0) h.backups.push_back(l.substr(2));
    int t, pos;
    NodeVal v;
    if (sscanf(l.c_str(), "V %d %lf %lf %lf %lf %n", &t, &v.lb, &v.ub, &v.lq, &v.uq, &pos) == 5) {
      v.terminal = t;
      h.vals[pos < (int)l.size() ? l.substr(pos) : ""] = v;
    }
  }
  return h;
}
struct Index { vector<Sparse> st; vector<string> key; };
static bool readIndex(const string &text, int dim, Index &x, string &why) {
  x = Index();
  if (!text.empty() && text.back() != '\n') { why = "the last line is incomplete"; return false; }
  for (auto &l : lines(text)) {
    if (l.empty() || l[0] == '#') continue;
    int i;
    double v;
    if (sscanf(l.c_str(), "state %d", &i) == 1) {
      if (i != (int)x.st.size()) { why = "ids are not in order: " + l; return false; }
      x.st.emplace_back();
      continue;
    }
    vector<double> n = numbers(l);
    if (n.size() != 2 || x.st.empty()) { why = "bad line: " + l; return false; }
    i = (int)n[0];
    v = n[1];
    if (i < 0 || i >= dim || n[0] != i) { why = "bad index: " + l; return false; }
    x.st.back().push_back({i, v});
  }
  for (auto &s : x.st) x.key.push_back(skey(s));
  return true;
}
static bool readRows(const string &text, size_t cols, vector<vector<double>> &rows, string &why) {
  rows.clear();
  if (!text.empty() && text.back() != '\n') { why = "the last line is incomplete"; return false; }
  for (auto &l : lines(text)) {
    if (l.empty() || l[0] == '#') continue;
    vector<double> n = numbers(l);
    if (n.size() != cols) { why = "bad line: " + l; return false; }
    rows.push_back(n);
  }
  return true;
}
static bool same(double a, double b) { return fabs(a - b) <= 1e-9 * std::max(1.0, std::max(fabs(a), fabs(b))); }

// =================================================================== C10
static void genC10(Rng &g, Scenario &s, bool th) {
  s.m = genModel(g, g.chance(0.12) ? "general" : "any");
  genSearchOpts(g, s);
  if (s.m.family == "general") { s.opts.clear(); if (g.chance(0.5)) s.setOpt("searchStrategy", "hsvi"); }
  genPlan(g, s.plan);
  genBenchOpts(g, s);
  s.setOpt("evaluationTrialsPerEpoch", "1");
  s.setOpt("evaluationFirstEpochWallclockSeconds", "1.0");
  s.delOpt("storageOutputFile");
  s.delOpt("qValuesOutputFile");
  s.cmd = g.chance(0.5) ? "solve" : "benchmark";
  int what = g.below(10);
  if (what < 8) s.setOpt("useLogBackups", "1"); else s.delOpt("useLogBackups");
  if (what >= 5) s.setOpt("qValuesOutputFile", "q.log");
  static const char *c[] = {"10", "30", "60", "150", "400"};
  s.setOpt("terminateNumBackups", c[g.below(5)]);
  if (g.chance(0.3)) { s.setOpt("stateIndexOutputFile", "states"); s.setOpt("backupsOutputFile", "b.txt"); s.setOpt("boundValuesOutputFile", "v.txt"); }
  s.par["replay"] = g.chance(0.6);
  s.par["again"] = g.chance(0.5);
  s.par["otherRepr"] = g.chance(0.3);
}
static void runC10(const Scenario &s, Outcome &o) {
  common(s, o);
  o.hit("command " + s.cmd);
  Files f = s.files(), in = f;
  History h = record(o, s, f);
  if (abnormal(o, h.run.p)) return;
  if (h.run.p.exitCode != 0) { o.bad("failed run", fmt("exit code %d: ", h.run.p.exitCode) + h.run.p.err.substr(0, 300)); return; }
  bool log = s.opt("useLogBackups") == "1", q = s.opt("qValuesOutputFile", "none") != "none";
  string nI = s.opt("stateIndexOutputFile", "stateIndex.log"), nB = s.opt("backupsOutputFile", "backups.log"), nV = s.opt("boundValuesOutputFile", "boundValues.log");
  for (auto &n : {nI, nB, nV}) {
    bool want = n == nI ? log || q : log;
    if (f.count(n) != (size_t)want) { o.bad(want ? "log missing" : "log not asked for", n); return; }
  }
  if (!log && !q) return;
  string why;
  int dim = s.m.kind == K_POMDP ? s.m.S : s.m.kind == K_RACE ? 4 : 1;
  Index ix;
  if (!readIndex(f[nI], dim, ix, why)) { o.bad("unreadable state index", why); return; }
  std::map<string, int> id;
  for (size_t i = 0; i < ix.key.size(); i++) {
    if (id.count(ix.key[i])) { o.bad("state listed twice", fmt("states %d and %zu of the index are the same", id[ix.key[i]], i)); return; }
    id[ix.key[i]] = i;
  }
  bool lb = s.maintainsLB();
  // 'solve' prunes the lower bound when it writes the policy, before it writes the logs;
  // the documented extra pruning may then give up some of the bound at states
  // that are not the initial one
  bool weak = s.cmd == "solve" && s.convexLB() && s.opt("policyOutputFile", "out.policy") != "none" && s.opt("useMaxPlanesExtraPruning", "1") == "1";
  vector<vector<double>> B, V, Q;
  if (log) {
    if (!readRows(f[nB], 1, B, why)) { o.bad("unreadable backup log", why); return; }
    if (B.size() != h.backups.size()) { o.bad("backup log incomplete", fmt("%zu lines for %zu backups", B.size(), h.backups.size())); return; }
    size_t next = 0;
    for (size_t i = 0; i < B.size(); i++) {
      int k = (int)B[i][0];
      if (k < 0 || k >= (int)ix.key.size()) { o.bad("backup log refers to no state", fmt("line %zu: state %d of %zu", i + 1, k, ix.key.size())); return; }
      if (ix.key[k] != h.backups[i]) { o.bad("backup log is wrong", fmt("backup %zu: logged state %d [", i + 1, k) + ix.key[k] + "], it was [" + h.backups[i] + "]"); return; }
      if ((size_t)k > next) { o.bad("ids are not in order", fmt("state %d is mentioned before state %zu", k, next)); return; }
      if ((size_t)k == next) next++;
    }
    o.hit("backups compared with the log", B.size());
    if (!readRows(f[nV], 3, V, why)) { o.bad("unreadable bound values", why); return; }
    if (V.size() != ix.key.size()) { o.bad("bound values incomplete", fmt("%zu lines for %zu states", V.size(), ix.key.size())); return; }
    for (size_t i = 0; i < V.size(); i++) {
      if (V[i][0] != (double)i) { o.bad("unreadable bound values", fmt("line %zu is for state %g", i + 1, V[i][0])); return; }
      auto n = h.vals.find(ix.key[i]);
      if (n == h.vals.end()) { o.bad("unknown state in the index", "[" + ix.key[i] + "]"); return; }
      double l = lb ? n->second.lq : -1, u = n->second.uq;
      if (weak && V[i][1] < l) l = V[i][1], o.hit("bounds given up by extra pruning");
      if (!same(V[i][1], l) || !same(V[i][2], u)) { o.bad("bound values are wrong", fmt("state %zu: logged [%.12g, %.12g], the bounds are [%.12g, %.12g]", i, V[i][1], V[i][2], l, u)); return; }
    }
    o.hit("bound values compared", V.size());
  }
  if (q) {
    for (auto &n : h.vals) if (!id.count(n.first)) { o.bad("state missing from the index", "state [" + n.first + "] was touched but is not in the index"); return; }
    if (!readRows(f["q.log"], 4, Q, why)) { o.bad("unreadable Q values", why); return; }
    if (Q.size() != ix.key.size() * s.m.A) { o.bad("Q values incomplete", fmt("%zu lines for %zu states and %d actions", Q.size(), ix.key.size(), s.m.A)); return; }
    Ref ref;
    bool have = s.m.family != "general" && s.m.family != "two-state" && ref.build(s.m) && ref.closed;
    double lt = have ? lbTol(s, ref) : 0, ut = have ? ubTol(s, ref) : 0;
    for (size_t i = 0; i < Q.size(); i++) {
      size_t k = i / s.m.A, a = i % s.m.A;
      if (Q[i][0] != (double)k || Q[i][1] != (double)a) { o.bad("unreadable Q values", fmt("line %zu is for state %g, action %g", i + 1, Q[i][0], Q[i][1])); return; }
      if (!lb && Q[i][2] != -1) { o.bad("Q values are wrong", "a lower bound that is not maintained is not -1"); return; }
      if (lb && !(Q[i][2] <= Q[i][3] + lt + ut + 1e-5 * std::max(1.0, fabs(Q[i][3])))) { o.bad("Q values are wrong", fmt("state %zu, action %zu: lower bound %.12g above upper bound %.12g", k, a, Q[i][2], Q[i][3])); return; }
      if (!have) continue;
      int node = ref.find(ix.st[k]);
      if (node < 0) continue;
      double e = ref.q(node, a), m = 1e-6 * std::max(1.0, ref.vmax);
      if ((lb && Q[i][2] > e + lt + m) || Q[i][3] < e - ut - m) { o.bad("Q values do not bracket the optimum", fmt("state %zu, action %zu: [%.12g, %.12g], exact %.12g", k, a, Q[i][2], Q[i][3], e)); return; }
      // one step of lookahead on the final bounds
      double l = 0, u = 0;
      bool ok = true;
      for (auto &x : ref.nodes[node].succ[a]) {
        auto n = h.vals.find(skey(ref.nodes[x.to].s));
        if (n == h.vals.end()) { ok = false; break; }
        l += x.p * n->second.lq;
        u += x.p * n->second.uq;
      }
      if (!ok) continue;
      l = ref.nodes[node].rew[a] + s.m.gamma * l;
      u = ref.nodes[node].rew[a] + s.m.gamma * u;
      auto near = [&](double a, double b) { return fabs(a - b) <= 1e-6 * std::max(1.0, std::max(fabs(a), fabs(b))); };
      if ((lb && !near(l, Q[i][2]) && !(weak && Q[i][2] < l)) || !near(u, Q[i][3])) { o.bad("Q values are not lookahead on the bounds", fmt("state %zu, action %zu: logged [%.12g, %.12g], lookahead gives [%.12g, %.12g]", k, a, Q[i][2], Q[i][3], l, u)); return; }
      o.hit("Q values compared");
    }
    o.hit("Q values in order", Q.size());
  }
  o.nontrivial = h.backups.size() >= 3;
  // the logs drive another run through the same backups
  if (!log || !s.p("replay")) return;
  Scenario t = s;
  t.cmd = "benchmark";
  t.setOpt("searchStrategy", "script");
  t.setOpt("backupScriptInputDir", "in");
  t.delOpt("terminateNumBackups");
  t.setOpt("maintainLowerBound", lb ? "1" : "0");
  t.setOpt("useLogBackups", s.p("again") ? "1" : "0");
  bool other = s.p("otherRepr") && s.m.kind == K_POMDP;
  if (other) {   // "even if you are using different parameters"
    t.setOpt("upperBoundRepresentation", s.opt("upperBoundRepresentation", "sawtooth") == "sawtooth" ? "point" : "sawtooth");
    t.delOpt("useSawtoothSupportList");
  }
  Files g = in;
  g["in/" + nI] = f[nI];
  g["in/" + nB] = f[nB];
  History r = record(o, t, g);
  if (abnormal(o, r.run.p, "script: ")) return;
  if (r.run.p.exitCode != 0) { o.bad("script cannot be run", fmt("exit code %d: ", r.run.p.exitCode) + r.run.p.err.substr(0, 300)); return; }
  o.hit(other ? "scripts run with another representation" : "scripts run");
  bool all = r.backups.size() == h.backups.size();
  for (size_t i = 0; i < r.backups.size(); i++)
    if (i >= h.backups.size() || r.backups[i] != h.backups[i]) { o.bad("script does other backups", fmt("backup %zu was of [", i + 1) + r.backups[i] + "], scripted [" + (i < h.backups.size() ? h.backups[i] : "none") + "]"); return; }
  if (!all) {   // only for a stated reason
    double w = r.run.trials.empty() ? 1e300 : r.run.trials.back().ub - r.run.trials.back().lb;
    if (!(lb && w <= s.target() + 1e-12)) { o.bad("script not finished", fmt("%zu of %zu scripted backups were done", r.backups.size(), h.backups.size())); return; }
  }
  vector<vector<double>> V2;
  if (!g.count(nV) || !readRows(g[nV], 3, V2, why)) { o.bad("script wrote no bound values", why); return; }
  if (V2.size() != ix.key.size() && !s.p("again")) { o.bad("bound values incomplete", fmt("%zu lines for %zu states of the script", V2.size(), ix.key.size())); return; }
  if (other) {
    Ref ref;
    if (!ref.build(s.m) || !ref.closed) return;
    for (size_t i = 0; i < std::min(V2.size(), ix.st.size()); i++) {
      int node = ref.find(ix.st[i]);
      if (node < 0) continue;
      double m = 1e-6 * std::max(1.0, ref.vmax);
      if ((lb && V2[i][1] > ref.nodes[node].V + lbTol(t, ref) + m) || V2[i][2] < ref.nodes[node].V - ubTol(t, ref) - m) { o.bad("scripted run gives wrong bounds", fmt("state %zu: [%.12g, %.12g], exact %.12g", i, V2[i][1], V2[i][2], ref.nodes[node].V)); return; }
    }
    return;
  }
  if (!all) return;
  // lrtdp and hdp also log backups that only look at a state and take their effect back
  if (s.strategy() == "lrtdp" || s.strategy() == "hdp") return;
  for (size_t i = 0; i < V2.size() && i < V.size(); i++)
    if ((!same(V[i][1], V2[i][1]) && !(weak && V[i][1] < V2[i][1])) || !same(V[i][2], V2[i][2])) { o.bad("replay ends with other bounds", fmt("state %zu: [%.12g, %.12g] after the replay, [%.12g, %.12g] before", i, V2[i][1], V2[i][2], V[i][1], V[i][2])); return; }
  if (s.p("again") && (g[nB] != f[nB] || g[nI] != f[nI])) {
    if (q) return;   // the index of the first run has more states
    o.bad("logs of the replay differ", "the replay does not log what it replayed");
    return;
  }
  o.hit("replays compared");
}

extern const Check checksLogs[];
extern const int nChecksLogs;
const Check checksLogs[] = {
  {"C10", genC10, runC10, "non-trivial: at least 3 backups logged; distinct: sequence of backed-up states and process results"},
};
const int nChecksLogs = sizeof checksLogs / sizeof *checksLogs;
