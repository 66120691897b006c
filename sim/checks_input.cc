// Inputs that are missing, unreadable, incomplete or damaged (C09).
#include "checks.h"
#include <math.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <algorithm>
using namespace sim;
using std::string;
using std::vector;

enum Kind9 { I_MODEL, I_POLICY, I_ALPHA, I_CONFIG, I_INDEX, I_LOG };
static const char *kindName[] = {"model", "policy", "alpha vectors", "config file", "state index", "backups log"};
enum Damage { D_MISSING, D_OPEN, D_EIO, D_EIOS, D_TRUNC, D_EMPTY, D_BYTE, D_DEL, D_DUP, D_SWAP, D_TOKEN, D_JUNK, D_LONG, D_COMMENT, D_NONL, D_CHUNK, D_WRONG, D_N };
static const char *damageName[] = {"missing", "open error", "read error", "persistent read error", "truncated", "empty", "byte changed", "line deleted", "line repeated", "lines swapped",
                                   "number replaced", "line of junk", "endless line", "long comment", "no final line feed", "short reads", "of another kind"};
static const char *tokens[] = {"-1", "999", "99999999", "1e308", "nan", "x", "-0.5", "2", ""};

static void genC09(Rng &g, Scenario &s, bool th) {
  int kind = g.below(10);
  kind = kind < 5 ? I_MODEL : kind < 7 ? I_POLICY : I_ALPHA + (kind - 7) + (kind == 9 ? (int)g.below(2) : 0);
  if (kind == I_ALPHA && g.chance(0.3)) kind = I_POLICY;
  s.par["kind"] = kind;
  bool race = kind == I_MODEL && g.chance(0.25);
  s.m = genModel(g, kind == I_POLICY || kind == I_ALPHA ? "pomdp" : race ? "race" : g.chance(0.3) && kind == I_MODEL ? "mdp" : kind == I_MODEL && g.chance(0.3) ? "general" : g.chance(0.8) ? "pomdp" : "mdp");
  genSearchOpts(g, s, kind == I_POLICY);
  if (s.m.family == "general" && s.strategy() != "frtdp") s.setOpt("searchStrategy", "hsvi"), s.delOpt("maintainLowerBound");
  genPlan(g, s.plan);
  s.plan.randExtreme = 0;
  s.plan.cpuLimit = 20;
  s.delOpt("debugLevel");
  s.setOpt("terminateNumBackups", g.chance(0.5) ? "20" : "60");
  if (kind == I_MODEL && g.chance(0.6)) s.layout = 0;
  s.par["damage"] = g.below(D_N);
  if (g.chance(0.4)) { static const int d[] = {D_TRUNC, D_TOKEN, D_TOKEN, D_DEL, D_EIO, D_BYTE}; s.par["damage"] = d[g.below(6)]; }
  s.par["u"] = g.u();
  s.par["v"] = g.u();
  s.par["w"] = g.u();
  s.par["trials"] = g.range(1, 20);
}

// result of a run, as far as it is determined by the inputs
static string resultOf(const SolveRun &r, const Files &f, const Files &in) {
  string t;
  for (auto &x : r.trials) t += fmt("%.17g %.17g %ld\n", x.lb, x.ub, x.backups);
  for (auto &x : f) {
    if (in.count(x.first) || x.first == "bounds.plot" || x.first == "inc.plot") continue;
    t += "== " + x.first + "\n" + x.second;
  }
  t += "== reason " + endReason(r.p.out);
  return t;
}
static vector<string> split(const string &l) {
  vector<string> v;
  string c;
  for (char ch : l) {
    if (ch == ' ' || ch == '\t') { if (!c.empty()) v.push_back(c); c.clear(); }
    else c += ch;
  }
  if (!c.empty()) v.push_back(c);
  return v;
}
static string join(const vector<string> &v, char sep) {
  string r;
  for (auto &x : v) { if (!r.empty()) r += sep; r += x; }
  return r;
}
static string alphaText(const Scenario &s) {
  // vectors that promise little: the actions' blind values would do as well
  Rng g(s.seed + 5);
  string t;
  int n = 1 + g.below(4);
  for (int k = 0; k < n; k++) {
    t += std::to_string(g.below(s.m.A)) + "\n";
    for (int i = 0; i < s.m.S; i++) t += (i ? " " : "") + str(g.range(-1000, 1000) / 10.0);
    t += "\n\n";
  }
  return t;
}

static void runC09(const Scenario &s, Outcome &o) {
  int kind = (int)s.p("kind"), dmg = (int)s.p("damage");
  double u = s.p("u"), v = s.p("v"), w = s.p("w");
  Files in = s.files();
  Scenario t = s;
  string target;
  vector<string> argv;
  if (kind == I_MODEL) {
    target = s.m.ext();
    if (s.strategy() == "frtdp" || s.strategy() == "hsvi" || s.maintainsLB()) t.setOpt("policyOutputFile", s.convexLB() ? "out.policy" : "none");
    argv = t.argv();
  } else if (kind == I_CONFIG) {
    target = "my.cfg";
    string c = "# options\n";
    for (auto &x : s.opts) c += x.first + " " + x.second + "\n";
    in[target] = c;
    argv = {"zmdp", s.cmd, "-c", target, s.m.ext()};
  } else if (kind == I_POLICY || kind == I_ALPHA) {
    target = "in.policy";
    if (kind == I_POLICY) {
      Files f = in;
      SolveRun r = solveRun(o, s, f);
      if (abnormal(o, r.p)) return;
      if (r.p.exitCode != 0 || !f.count("out.policy")) { o.bad("failed run", fmt("solve: exit code %d: ", r.p.exitCode) + r.p.err.substr(0, 300)); return; }
      in[target] = f["out.policy"];
    } else in[target] = alphaText(s);
    t.cmd = "evaluate";
    t.opts.clear();
    for (auto &x : s.opts) if (x.first.find("Max") == string::npos && x.first != "terminateNumBackups" && x.first != "lowerBoundRepresentation") t.opts.push_back(x);
    for (const char *n : {"maxHorizon"}) if (!s.opt(n).empty()) t.setOpt(n, s.opt(n));
    t.setOpt("policyInputFile", target);
    if (kind == I_ALPHA) t.setOpt("policyType", "cassandraAlpha");
    t.setOpt("evaluationTrialsPerEpoch", std::to_string((int)s.p("trials")));
    t.setOpt("evaluationMaxStepsPerTrial", "12");
    t.setOpt("useEvaluationCache", w < 0.5 ? "0" : "1");
    t.delOpt("searchStrategy");
    t.delOpt("maintainLowerBound");
    argv = t.argv();
  } else {
    Scenario q = s;
    q.setOpt("useLogBackups", "1");
    Files f = in;
    SolveRun r = solveRun(o, q, f);
    if (abnormal(o, r.p)) return;
    if (r.p.exitCode != 0 || !f.count("stateIndex.log") || !f.count("backups.log")) {
      string names;
      for (auto &x : f) names += " " + x.first;
      o.bad("failed run", fmt("solve: exit code %d: ", r.p.exitCode) + r.p.err.substr(0, 300) + names);
      return;
    }
    in["in/stateIndex.log"] = f["stateIndex.log"];
    in["in/backups.log"] = f["backups.log"];
    target = kind == I_INDEX ? "in/stateIndex.log" : "in/backups.log";
    t.cmd = "benchmark";
    t.setOpt("searchStrategy", "script");
    t.setOpt("backupScriptInputDir", "in");
    t.setOpt("stateIndexOutputFile", "stateIndex.log");
    t.setOpt("backupsOutputFile", "backups.log");
    t.setOpt("evaluationTrialsPerEpoch", "0");
    t.setOpt("maintainLowerBound", s.maintainsLB() ? "1" : "0");
    t.setOpt("evaluationFirstEpochWallclockSeconds", "1000");
    t.setOpt("evaluationTrialsPerEpoch", "1");
    t.setOpt("evaluationMaxStepsPerTrial", "1");
    t.delOpt("terminateNumBackups");
    argv = t.argv();
  }
  const string good = in[target];
  Files f0 = in;
  SolveRun base = solveRun(o, t, f0, nullptr, &argv);
  if (abnormal(o, base.p, "undamaged input: ")) return;
  if (base.p.exitCode != 0) { o.bad("valid input refused", fmt("%s: exit code %d: ", kindName[kind], base.p.exitCode) + base.p.err.substr(0, 300)); return; }
  string R0 = resultOf(base, f0, in);

  // the damage
  Scenario x = t;
  Files fin = in;
  string &text = fin[target];
  bool strict = false;     // has to be refused
  bool judged = true;      // has to be refused or make no difference
  bool harmless = false;   // must make no difference
  bool hangs = true;       // must end
  Fault ft;
  ft.file = target;
  ft.act = A_ERR;
  static const int er[] = {EACCES, EMFILE, EIO, ENFILE, ELOOP};
  vector<string> L = lines(text);
  size_t li = L.empty() ? 0 : std::min(L.size() - 1, (size_t)(u * L.size()));
  auto put = [&]() { text.clear(); for (auto &l : L) text += l + "\n"; };
  // the lines whose content is checked: what they mean cannot be doubted
  auto kindOfLine = [&](const string &l, bool replace) {
    string h = l.substr(0, 2);
    if (kind == I_MODEL) {
      if (s.m.kind == K_RACE) return l.find("Probability") != string::npos && !replace;
      if (s.layout) return false;
            if (s.m.kind == K_POMDP && !replace && s.opt("useFastModelParser", "0") != "1" && l.compare(0, 6, "start:") == 0) return false;   // optional
      if (h == "T:" || h == "O:" || h == "st" || h == "ac") return true;
      if (h == "va" || h == "ob" || h == "di") return !replace;
      return false;
    }
    if (kind == I_CONFIG) return false;
    if (kind == I_ALPHA) return !l.empty();
    return true;
  };
  string what;
  switch (dmg) {
    case D_MISSING: fin.erase(target); strict = true; break;
    case D_OPEN: ft.cls = C_OPEN_R; ft.arg = er[(int)(u * 5)]; x.plan.faults.push_back(ft); strict = true; break;
    case D_EIO: case D_EIOS:
      ft.cls = C_READ; ft.arg = u < 0.7 ? EIO : EISDIR;
      x.plan.chunkMax = u < 0.5 ? 0 : 64;
      ft.nth = 1 + (long)(v * (x.plan.chunkMax ? good.size() / 64 + 2 : 3));
      ft.sticky = dmg == D_EIOS;
      x.plan.faults.push_back(ft);
      break;
    case D_TRUNC: {
      size_t n = (size_t)(u * good.size());
      if (w < 0.3) n = good.size() - std::min(good.size(), (size_t)(u * 60));
      text = good.substr(0, n);
      what = fmt(" after %zu of %zu bytes", n, good.size());
      if (kind == I_MODEL) {
        if (s.m.kind == K_RACE) { size_t a = good.find("---\n"); judged = n <= a + 4 || (n > a + 4 + s.m.map[0].size() + 1 && lines(text).back().size() < s.m.map[0].size()); hangs = judged; }
        else { size_t a = good.rfind(s.m.kind == K_POMDP ? "\nO:" : "\nT:"); judged = !s.layout && n <= a; }
      } else if (kind == I_CONFIG) judged = hangs = false;
      else if (kind == I_ALPHA) {
        size_t k = 0;
        for (auto &l : lines(text)) k += split(l).size();
        judged = k % (s.m.S + 1) != 0;
      } else judged = false;   // a prefix of a log is a log
      if (kind == I_POLICY) judged = true;
      break;
    }
    case D_EMPTY: text.clear(); strict = kind == I_MODEL || kind == I_POLICY || kind == I_ALPHA; judged = strict; hangs = kind != I_CONFIG; break;
    case D_BYTE: {
      if (text.empty()) return;
      size_t i = (size_t)(u * text.size());
      char c = (char)(v < 0.4 ? text[i] ^ (1 << (int)(w * 8)) : v < 0.6 ? 0 : v < 0.8 ? 32 + (int)(w * 95) : (int)(w * 256));
      what = fmt(" (byte %zu from %d to %d)", i, text[i], c);
      text[i] = c;
      judged = false;
      hangs = kind == I_POLICY || kind == I_ALPHA || kind == I_LOG;
      break;
    }
    case D_DEL: case D_DUP: case D_SWAP: {
      if (L.empty()) return;
      judged = kindOfLine(L[li], dmg == D_SWAP) && kind < I_INDEX;
      if (kind == I_ALPHA && dmg != D_DEL && s.m.S > 1) judged = L[li].empty() || (split(L[li]).size() > 1 && dmg == D_DUP);
      what = fmt(" (line %zu: %s)", li + 1, L[li].substr(0, 60).c_str());
      if (dmg == D_DEL) L.erase(L.begin() + li);
      else if (dmg == D_DUP) L.insert(L.begin() + li, L[li]);
      else { size_t b = std::min(L.size() - 1, li + 1); judged = judged && kindOfLine(L[b], true); std::swap(L[li], L[b]); if (kind == I_ALPHA) judged = false; if (kind == I_MODEL) judged = false; }
      hangs = kind != I_MODEL && kind != I_CONFIG;
      put();
      break;
    }
    case D_TOKEN: {
      for (int k = 0; k < 20 && (L[li].empty() || L[li][0] == '#'); k++) li = (li + 1) % L.size();
      vector<string> T = split(L[li]);
      if (T.empty()) return;
      size_t i = std::min(T.size() - 1, (size_t)(v * T.size()));
      int z = (int)(w * 9);
      string old = T[i], nw = tokens[z];
      if (old.size() && old.back() == ',') nw += ",";
      what = fmt(" (line %zu: '%s' for '%s' in '%s')", li + 1, nw.c_str(), old.c_str(), L[li].substr(0, 60).c_str());
      judged = kindOfLine(L[li], true);
      bool number = isdigit(old[0]) || old[0] == '-';
      if (kind == I_POLICY) {
        // another value, or another action that exists, is another policy
        if (T.size() <= 3 && i == T.size() - 1 && z != 5 && z != 4 && z != 8 && number) judged = T.size() == 3 && z != 7;
        if (T.size() == 3 && T[0] == "action" && z == 7 && s.m.A > 2) judged = false;
        if (T.size() == 2 && i == 0 && z == 7) judged = false;
      } else if (kind == I_ALPHA) judged = z == 5 || z == 8 || (T.size() == 1 && (z < 3));
      else if (kind == I_INDEX) judged = z == 5 && number;
      else if (kind == I_LOG) judged = z < 3 || z == 5;
      else if (kind == I_CONFIG) judged = z == 5;
      if (kind == I_MODEL && T[0] == "start:" && s.m.kind == K_MDP && z == 7 && s.m.S > 2) judged = false;   // another state
      if (kind == I_MODEL && (L[li].substr(0, 2) == "T:" || L[li].substr(0, 2) == "O:") && z == 7 && i < 6) judged = false;   // another index
      if (kind == I_MODEL && T[0] == "start:" && z == 8 && s.m.kind == K_MDP) judged = s.m.kind == K_MDP;
      if (kind == I_MODEL && T[0] == "start:" && s.m.kind == K_POMDP && s.m.S == 2) judged = judged && z != 8;  // may look like a single state
      T[i] = nw;
      L[li] = join(T, ' ');
      hangs = kind != I_MODEL && kind != I_CONFIG;
      // more memory than there is
      if (kind == I_MODEL && z == 2 && (T[0] == "states:" || T[0] == "actions:" || T[0] == "observations:")) return;
      put();
      break;
    }
    case D_JUNK: {
      static const char *junk[] = {"garbage", "}}}{{{", "1 2 3 4 5 6 7 8 9", "\x01\x80\xff", "%s%n%s%n", "-----", "#", "T: 0 : 0 : 0", "state"};
      L.insert(L.begin() + li, junk[(int)(v * 9)]);
      what = fmt(" (line %zu: %s)", li + 1, junk[(int)(v * 9)]);
      judged = (int)(v * 9) < 2 && !(kind == I_MODEL && s.m.kind == K_RACE);
      hangs = kind != I_MODEL && kind != I_CONFIG;
      put();
      break;
    }
    case D_LONG: {
      static const int n[] = {511, 1023, 1024, 1500, 5000, 70000, 1100000};
      size_t len = n[(int)(v * 7)];
      L.insert(L.begin() + li, string(len, w < 0.3 ? '1' : w < 0.6 ? 'a' : ' '));
      if (w >= 0.6) L[li] = "0" + L[li] + "0";
      what = fmt(" (%zu bytes at line %zu)", len, li + 1);
      x.plan.chunkMax = 0;
      judged = w >= 0.3 && w < 0.6 && !(kind == I_MODEL && (s.m.kind == K_RACE || s.layout));   // a word on a line of its own may be another name
      hangs = kind != I_MODEL || w >= 0.3;
      put();
      break;
    }
    case D_COMMENT: {
      static const int n[] = {100, 1023, 1024, 1500, 5000, 70000};
      if (kind == I_ALPHA) return;
      size_t len = n[(int)(v * 6)];
      x.plan.chunkMax = 0;
      L.insert(L.begin() + li, "#" + string(len, 'c'));
      what = fmt(" (%zu bytes at line %zu)", len, li + 1);
      put();
      break;
    }
    case D_NONL: if (text.empty()) return; text.pop_back(); judged = true; break;
    case D_WRONG: {
      if (kind != I_MODEL) return;
      static const char *ext[] = {"m.pomdp", "m.mdp", "m.racetrack", "m.xyz", "model"};
      target = ext[(int)(v * 5)];
      if (target == s.m.ext()) return;
      string c = good;
      fin.clear();
      fin[target] = c;
      argv.back() = target;
      strict = true;
      // a model without observations, or one whose only fault is the name
      what = " (" + s.m.ext() + ")";
      break;
    }
    case D_CHUNK: x.plan.chunkMax = 1 + (long)(u * u * 300); harmless = true; break;
  }
  if (dmg == D_NONL && kind == I_ALPHA) judged = true;
  bool changed = dmg <= D_EIOS || dmg == D_CHUNK || dmg == D_WRONG || text != good;
  if (!changed) return;
  o.hit(string("input: ") + kindName[kind]);
  o.hit(string("damage: ") + damageName[dmg]);
  if (!hangs) x.plan.cpuLimit = 3;
  Files f1 = fin;
  SolveRun r = solveRun(o, x, f1, nullptr, &argv);
  string w0 = string(kindName[kind]) + " (" + target + "): " + damageName[dmg] + what + ": ";
  o.nontrivial = true;
  if (r.p.hang) {
    if (hangs) o.bad("damaged input: does not end", w0 + "the program neither refuses it nor ends");
    return;
  }
  // (whether a state of the model has the coordinates given cannot be seen)
  bool coords = kind == I_INDEX && (dmg == D_TOKEN || dmg == D_BYTE || dmg == D_JUNK);
  if (coords && r.p.signal) return;
  if (r.p.signal && r.p.signal != SIGABRT) { o.bad("damaged input: crash", w0 + fmt("the program died of signal %d", r.p.signal)); return; }
  string ak = abnormalKey(r.p);
  if (ak == "memory-error" || ak == "heap-misuse") { abnormal(o, r.p, w0); return; }
  bool refused = r.p.signal == SIGABRT || r.p.exitCode != 0;
  if (refused) {
    o.hit("refused");
    if (harmless) { o.bad("valid input refused", w0 + fmt("exit code %d: ", r.p.exitCode) + r.p.err.substr(0, 300)); return; }
    if (r.p.err.empty() && r.p.out.find("ERROR") == string::npos && !r.p.oomExit) { o.bad("damaged input: refused without a message", w0 + fmt("exit code %d and nothing on stderr", r.p.exitCode)); return; }
    if (strict && dmg <= D_OPEN && r.p.err.find(target) == string::npos) o.bad("damaged input: message does not name the file", w0 + r.p.err.substr(0, 300));
    return;
  }
  string R1 = resultOf(r, f1, fin);
  if (dmg == D_MISSING) R1 += "";
  bool same = R1 == R0;
  o.hit(same ? "made no difference" : "believed");
  if (strict) { o.bad("damaged input: believed", w0 + "the run ended successfully"); return; }
  if ((judged || harmless) && !same) {
    o.bad(harmless ? "delivery of input changes the result" : "damaged input: believed", w0 + "the run ended successfully with another result than with the undamaged input: " + r.p.err.substr(0, 200));
    return;
  }
}

extern const Check checksInput[];
extern const int nChecksInput;
const Check checksInput[] = {
  {"C09", genC09, runC09, "non-trivial: a run on damaged input; distinct: sequence of backed-up states and process results"},
};
const int nChecksInput = sizeof checksInput / sizeof *checksInput;
