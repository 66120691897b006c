// Checks over files: what survives a kill, failing writes, damaged inputs.
#include "checks.h"
#include <math.h>
#include <string.h>
#include <errno.h>
#include <algorithm>
using namespace sim;
using std::string;
using std::vector;

static bool isPrefix(const string &a, const string &b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
static vector<string> fullLines(const string &t) {
  vector<string> v = lines(t);
  if (!t.empty() && t.back() != '\n' && !v.empty()) v.pop_back();
  return v;
}

// options of a benchmark run that is small enough
void genBenchOpts(Rng &g, Scenario &s) {
  s.cmd = "benchmark";
  static const char *tr[] = {"1", "7", "20", "30", "31", "65", "90"};
  s.setOpt("evaluationTrialsPerEpoch", tr[g.below(7)]);
  static const char *st[] = {"1", "6", "20", "40"};
  s.setOpt("evaluationMaxStepsPerTrial", st[g.below(4)]);
  static const char *fe[] = {"0", "1e-5", "0.0003", "0.01", "1.0"};
  s.setOpt("evaluationFirstEpochWallclockSeconds", fe[g.below(5)]);
  static const char *pm[] = {"1", "3", "10", "40", "100"};
  s.plan.cpuLimit = 60;
  s.plan.maxEvents = 40000000;
  s.setOpt("evaluationEpochsPerMagnitude", pm[g.below(5)]);
  if (g.chance(0.4)) s.setOpt("useEvaluationCache", "0");
  if (g.chance(0.4)) { static const char *l[] = {"-1", "0", "3", "100"}; s.setOpt("simulationTracesToLogPerEpoch", l[g.below(4)]); }
  if (g.chance(0.3)) s.setOpt("storageOutputFile", "storage.plot");
  if (g.chance(0.3)) s.setOpt("useLogBackups", "1");
  if (g.chance(0.2)) s.setOpt("qValuesOutputFile", "q.log");
  if (g.chance(0.2)) s.setOpt("useTimeWithoutHeuristic", "0");
  s.setOpt("terminateNumBackups", capOpt(g));
  if (s.plan.backupCost == 0) s.plan.backupCost = 20;
}

// =================================================================== C07
static void genC07(Rng &g, Scenario &s, bool th) {
  s.m = genModel(g, g.chance(0.2) ? "general" : "pomdp");
  genSearchOpts(g, s, true);
  if (s.m.family == "general" && s.strategy() != "frtdp") s.setOpt("searchStrategy", "hsvi"), s.delOpt("maintainLowerBound");
  genPlan(g, s.plan);
  genBenchOpts(g, s);
  s.setOpt("policyOutputFile", g.chance(0.8) ? "out.policy" : "p");
  s.par["mode"] = g.below(6);       // 0-1 any instant, 2 write of the policy, 3 torn write of the policy, 4 around the backup commands, 5 SIGINT
  s.par["pos"] = g.u();
  s.par["torn"] = g.u();
  s.par["prev"] = g.chance(0.4);
  s.par["again"] = g.chance(0.5);
}
struct Epoch { size_t trial; double lb; };
// the trials after which an epoch's policy was completely written
static vector<Epoch> epochsOf(const SolveRun &, const string &log, size_t &mvs) {
  vector<Epoch> e;
  size_t trial = 0;
  double lb = -1e300;
  mvs = 0;
  for (auto &l : lines(log)) {
    int d;
    double a, b;
    if (sscanf(l.c_str(), "T %d %lf %lf", &d, &a, &b) == 3) { trial++; lb = a; }
    if (l.compare(0, 2, "S ") == 0) {
      if (l.find(" mv ") != string::npos) mvs++;
      else if (l.find(" rm ") != string::npos) e.push_back({trial, lb});
    }
  }
  return e;
}
static void runC07(const Scenario &s, Outcome &o) {
  common(s, o);
  string pf = s.opt("policyOutputFile");
  Files f0 = s.files();
  SolveRun dry = solveRun(o, s, f0);
  string dryLog = lastObsLog;
  if (abnormal(o, dry.p)) return;
  if (dry.p.exitCode != 0 || dry.trials.empty()) { o.bad("failed run", fmt("exit code %d: ", dry.p.exitCode) + dry.p.err.substr(0, 300)); return; }
  if (dry.p.unknownShell) { o.bad("unknown shell command", "the run gave system() a command the simulator does not know"); return; }
  size_t mvs;
  vector<Epoch> de = epochsOf(dry, dryLog, mvs);
  if (!f0.count(pf)) { o.bad("no policy", "the benchmark left no policy"); return; }
  if (f0.count(pf + ".bak")) o.bad("left-over backup", "a finished benchmark left " + pf + ".bak behind");
  o.hit("epochs", de.size());
  Scenario t = s;
  int mode = (int)s.p("mode");
  Fault x;
  x.act = A_CRASH;
  double pos = s.p("pos");
  if (mode <= 1) { x.cls = C_ANY; x.nth = 1 + (long)(pos * dry.p.events); }
  else if (mode == 5) { x.act = A_SIGINT; x.cls = C_ANY; x.nth = 1 + (long)(pos * dry.p.events); }
  else if (mode == 4) {
    static const int c[] = {C_RENAME, C_UNLINK, C_SYSTEM, C_OPEN_W, C_CLOSE};
    x.cls = c[(int)(s.p("torn") * 5) % 5];
    if (x.cls == C_OPEN_W || x.cls == C_CLOSE) x.file = pf;
    x.nth = 1 + (long)(pos * std::max<size_t>(1, x.cls == C_SYSTEM ? 2 * mvs : mvs));
  } else {
    x.cls = C_WRITE;
    x.file = pf;
    x.nth = 1 + (long)(pos * std::max<size_t>(1, mvs) * (1 + f0[pf].size() / 8191));
    if (mode == 3) { x.act = A_TORN; x.arg = (long long)(s.p("torn") * std::min<size_t>(8191, f0[pf].size())); }
  }
  t.plan.faults.push_back(x);
  Files f = s.files();
  bool prev = s.p("prev");
  string old = f0[pf] + "# from an earlier run\n";
  if (prev) f[pf] = old;
  SolveRun r = solveRun(o, t, f);
  string log = lastObsLog;
  if (r.p.signal != 2 && !r.p.crashed && abnormal(o, r.p)) return;
  bool killed = r.p.crashed || r.p.signal == 2;
  if (killed) o.hit("killed runs");
  vector<Epoch> e = epochsOf(r, log, mvs);
  auto get = [&](const string &n) { auto i = f.find(n); return i == f.end() ? string() : i->second; };
  Policy a = readPolicy(get(pf), s.m.S, s.m.A), b = readPolicy(get(pf + ".bak"), s.m.S, s.m.A);
  string state = fmt("; after %zu epochs, %s: %s, %s.bak: %s", e.size(), pf.c_str(), a.ok ? "complete" : a.why.c_str(), pf.c_str(), b.ok ? "complete" : b.why.c_str());
  if (prev || !e.empty()) {
    if (!a.ok && !b.ok) { o.bad("no complete policy after a kill", "the run was killed and neither the policy nor its backup is complete" + state); return; }
    o.hit("survivors checked");
    if (!a.ok) o.hit("survived only as backup");
  }
  if (!e.empty()) {
    Sparse b0;
    for (int i = 0; i < s.m.S; i++) if (s.m.b0[i]) b0.push_back({i, s.m.b0[i] / (double)s.m.D});
    double best = -1e300;
    for (auto *p : {&a, &b})
      if (p->ok) {
        double v;
        if (bestPlane(*p, b0, &v) >= 0) best = std::max(best, v - 0 + policyTol(*p));
      }
    if (best < e.back().lb - 1e-8) o.bad("stale policy after a kill", fmt("the surviving policy is worth %.9g, the last completed epoch had reached %.9g", best, e.back().lb) + state);
  } else if (prev && mvs == 0) {
    if (get(pf) != old) o.bad("policy of an earlier run destroyed", "killed before its first epoch, the run had already changed the policy of an earlier run" + state);
  }
  // logs are prefixes of those of the undisturbed run, with everything that was logged before the kill
  if (!prev)   // (with an earlier policy the commands take different time)
    for (const char *n : {"bounds.plot", "inc.plot", "storage.plot"}) {
      if (!f0.count(n)) continue;
      if (!isPrefix(get(n), f0[n])) { o.bad("log is not a prefix", string(n) + " of the killed run is not a prefix of that of the undisturbed run"); return; }
      vector<string> L = fullLines(get(n)), D = fullLines(f0[n]);
      size_t need = 0;
      if (!strcmp(n, "bounds.plot")) { for (auto &l : D) if (l[0] == '#' ? !r.trials.empty() : !r.trials.empty() && numbers(l).size() == 7 && numbers(l)[6] < (double)r.trials.back().backups) need++; }
      else need = e.size() ? e.size() - 1 : 0;
      if (L.size() < need) { o.bad("log lines lost", fmt("%s has %zu complete lines after the kill, %zu had been logged", n, L.size(), need)); return; }
      o.hit("logs compared");
    }
  o.nontrivial = killed && e.size() >= 1;
  if (!s.p("again")) return;
  // the next run on what is left
  Files g = f;
  SolveRun n = solveRun(o, s, g);
  if (abnormal(o, n.p, "run after a kill: ")) return;
  if (n.p.exitCode != 0) { o.bad("no recovery", fmt("the next run failed with exit code %d: ", n.p.exitCode) + n.p.err.substr(0, 300)); return; }
  if (g[pf] != f0[pf] && !prev && !f.count(pf)) o.bad("no recovery", "the next run wrote a different policy");
  if (!readPolicy(g[pf], s.m.S, s.m.A).ok) o.bad("no recovery", "the next run left an incomplete policy");
  if (g.count(pf + ".bak")) o.bad("left-over backup", "a finished benchmark left " + pf + ".bak behind");
  o.hit("recovery runs");
}

// =================================================================== C08
static void genC08(Rng &g, Scenario &s, bool th) {
  static const char *cm[] = {"solve", "solve", "benchmark", "benchmark", "benchmark", "evaluate", "evaluate", "genConfig"};
  string cmd = cm[g.below(8)];
  bool pomdp = cmd == "evaluate" || g.chance(0.8);
  s.m = genModel(g, pomdp ? (g.chance(0.15) ? "general" : "pomdp") : "any");
  genSearchOpts(g, s, pomdp);
  if (s.m.family == "general" && s.strategy() != "frtdp") s.setOpt("searchStrategy", "hsvi"), s.delOpt("maintainLowerBound");
  genPlan(g, s.plan);
  genBenchOpts(g, s);
  s.setOpt("terminateNumBackups", g.chance(0.5) ? "20" : "100");
  if (g.chance(0.5)) s.setOpt("useLogBackups", "1");
  if (g.chance(0.4)) s.setOpt("qValuesOutputFile", "q.log");
  if (g.chance(0.5)) s.setOpt("storageOutputFile", "storage.plot");
  if (cmd != "evaluate" && g.chance(0.7)) s.setOpt("policyOutputFile", "my.policy");
  s.cmd = cmd;
  s.par["mode"] = g.below(8);   // 0 open, 1 write, 2 write from then on, 3 close, 4 short writes, 5 capacity, 6 system(), 7 memory
  s.par["which"] = g.u();
  s.par["pos"] = g.u();
  static const int er[] = {ENOSPC, EIO, EDQUOT, EACCES, EROFS, EMFILE, EFBIG, EINTR};
  s.par["errno"] = er[g.below(8)];
}
static vector<string> c08Argv(const Scenario &s) {
  if (s.cmd == "genConfig") return {"zmdp", "--genConfig", "my.config"};
  return s.argv();
}
static void runC08(const Scenario &s, Outcome &o) {
  o.hit("command " + s.cmd);
  Files in;
  if (s.cmd != "genConfig") in = s.files();
  if (s.cmd == "evaluate") {
    Scenario q = s;
    q.cmd = "solve";
    q.delOpt("useLogBackups");
    q.setOpt("qValuesOutputFile", "none");
    Files f = in;
    SolveRun r = solveRun(o, q, f);
    if (abnormal(o, r.p)) return;
    if (!f.count("out.policy")) return;
    in["out.policy"] = f["out.policy"];
  }
  Files f0 = in;
  vector<string> av = c08Argv(s);
  SolveRun dry = solveRun(o, s, f0, nullptr, &av);
  if (abnormal(o, dry.p)) return;
  if (dry.p.exitCode != 0) { o.bad("failed run", fmt("exit code %d: ", dry.p.exitCode) + dry.p.err.substr(0, 300)); return; }
  vector<string> outs;
  size_t total = 0, base = 0;
  for (auto &x : f0) {
    total += x.second.size();
    if (!in.count(x.first)) outs.push_back(x.first);
    else base += x.second.size();
  }
  if (outs.empty()) return;
  string file = outs[(size_t)(s.p("which") * outs.size()) % outs.size()];
  int mode = (int)s.p("mode"), err = (int)s.p("errno");
  double pos = s.p("pos");
  Scenario t = s;
  Fault x;
  x.file = file;
  x.act = A_ERR;
  x.arg = err;
  x.nth = 1;
  size_t writes = 1 + f0[file].size() / 8192;
  bool harmless = false;
  if (mode == 0) { x.cls = C_OPEN_W; if (err == EINTR) x.arg = ENOSPC; x.nth = 1 + (long)(pos * pos * 3); }
  else if (mode == 1) { x.cls = C_WRITE; x.nth = 1 + (long)(pos * (pos < 0.5 ? writes : 40)); harmless = err == EINTR; }
  else if (mode == 2) { x.cls = C_WRITE; x.nth = 1 + (long)(pos * (pos < 0.5 ? writes : 40)); x.sticky = true; if (err == EINTR) x.arg = EIO; }
  else if (mode == 3) { x.cls = C_CLOSE; x.nth = 1 + (long)(pos * 2); if (err == EINTR) x.arg = EIO; }
  else if (mode == 4) { x.cls = C_WRITE; x.act = A_SHORT; x.arg = 1 + (long long)(pos * 100); x.sticky = true; harmless = true; }
  else if (mode == 5) { t.plan.diskCapacity = base + (long)(pos * (total - base) * 1.1); }
  else if (mode == 6) { x.cls = C_SYSTEM; x.file = ""; x.nth = 1 + (long)(pos * dry.p.cnt[C_SYSTEM]); x.arg = pos < 0.3 ? -1 : 1; x.sticky = s.p("which") < 0.3; harmless = true; }
  else { x.cls = C_ALLOC; x.file = ""; x.act = A_NOMEM; x.nth = 1 + (long)(pos * dry.p.cnt[C_ALLOC]); x.sticky = s.p("which") < 0.3; }
  if (mode != 5) t.plan.faults.push_back(x);
  Files f = in;
  SolveRun r = solveRun(o, t, f, nullptr, &av);
  static const char *names[] = {"open", "write", "writes", "close", "short writes", "full disk", "system", "memory"};
  bool fired = mode == 5 ? false : r.p.faultFired.size() && r.p.faultFired[0];
  bool damaged = false;
  string which;
  for (auto &n : outs) {
    auto i = f.find(n);
    // (trace lines are formatted in memory by a stream that swallows failed allocations)
    if (mode == 7 && n == "sim.plot") continue;
    if (i == f.end() || i->second != f0[n]) { damaged = true; which += " " + n; }
  }
  if (fired || (mode == 5 && damaged)) o.hit(string("failing ") + names[mode]);
  o.nontrivial = fired || damaged;
  if (mode == 7) {   // allowed to give up, but not to end successfully with other results
    if (r.p.exitCode == 0 && !r.p.signal && damaged) o.bad("silent damage", "a failed allocation changed the result, but the run ended successfully:" + which);
    if (r.p.hang) abnormal(o, r.p, "after a failed allocation: ");
    return;
  }
  if (abnormal(o, r.p, fmt("after a failing %s of %s: ", names[mode], file.c_str()))) return;
  if (r.p.exitCode == 0) {
    if (damaged) { o.bad("silent damage", fmt("failing %s (%s): the run ended successfully, but these files are not what they should be:", names[mode], mode == 5 ? "capacity" : file.c_str()) + which); return; }
    if (fired && !harmless && mode != 6) o.bad("error ignored", fmt("failing %s of %s: the run ended successfully and said: ", names[mode], file.c_str()) + r.p.err.substr(0, 300));
    return;
  }
  if (harmless) { o.bad("harmless condition treated as an error", fmt("%s of %s: exit code %d: ", names[mode], file.c_str(), r.p.exitCode) + r.p.err.substr(0, 300)); return; }
  if (!fired && mode != 5) { o.bad("failed run", fmt("exit code %d: ", r.p.exitCode) + r.p.err.substr(0, 300)); return; }
  if (r.p.err.find("ERROR") == string::npos) { o.bad("failure not explained", fmt("failing %s of %s: exit code %d without an error message: ", names[mode], file.c_str(), r.p.exitCode) + r.p.err.substr(0, 300)); return; }
  if (mode != 5 && r.p.err.find(file) == string::npos) o.bad("failure not explained", fmt("failing %s of %s: the error message does not name the file: ", names[mode], file.c_str()) + r.p.err.substr(0, 300));
  // what was achieved before is not lost
  string pf = s.opt("policyOutputFile", s.cmd == "solve" ? "out.policy" : "none");
  if (f0.count(pf) && s.cmd == "solve" && mode != 5 && file != pf) {
    auto i = f.find(pf);
    if (i == f.end() || i->second != f0[pf]) o.bad("policy lost", "a problem with " + file + " cost the policy");
  }
  if (f0.count(pf) && s.cmd == "benchmark") {
    size_t rms = 0;
    for (auto &l : lines(lastObsLog)) if (l.compare(0, 2, "S ") == 0 && l.find(" rm ") != string::npos) rms++;
    if (rms) {
      auto get = [&](const string &n) { auto i = f.find(n); return i == f.end() ? string() : i->second; };
      if (!readPolicy(get(pf), s.m.S, s.m.A).ok && !readPolicy(get(pf + ".bak"), s.m.S, s.m.A).ok) o.bad("policy lost", fmt("failing %s of %s: neither the policy nor its backup is complete after %zu epochs", names[mode], file.c_str(), rms));
      o.hit("benchmark policies checked");
    }
  }
}

extern const Check checksFiles[];
extern const int nChecksFiles;
const Check checksFiles[] = {
  {"C07", genC07, runC07, "non-trivial: a run killed after at least one complete epoch; distinct: sequence of backed-up states, kill point and process results"},
  {"C08", genC08, runC08, "non-trivial: an operation failed as planned; distinct: sequence of backed-up states, failed operation and process results"},
};
const int nChecksFiles = sizeof checksFiles / sizeof *checksFiles;
