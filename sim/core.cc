#include "checks.h"
#include <math.h>
#include <string.h>
#include <sstream>
#include <algorithm>
using namespace sim;
using std::string;
using std::vector;

string str(double v) { char b[40]; snprintf(b, sizeof b, "%.10g", v); return b; }

vector<string> Scenario::argv() const {
  vector<string> v = {"zmdp", cmd};
  for (auto &o : opts) { v.push_back("--" + o.first); v.push_back(o.second); }
  v.push_back(m.ext());
  return v;
}
string Scenario::modelText() const {
  if (m.kind == K_RACE) return m.raceText();
  if (m.kind == K_CUSTOM) return "";
  if (opt("useFastModelParser", "0") == "1") return m.fastText();
  return m.cassandraText(layout);
}
Files Scenario::files() const {
  Files f;
  if (m.kind != K_CUSTOM) f[m.ext()] = modelText();
  return f;
}
bool Scenario::maintainsLB() const {
  string l = opt("maintainLowerBound", "-"), s = strategy();
  if (l == "1") return true;
  if (l == "0") return false;
  return s == "frtdp" || s == "hsvi";
}
bool Scenario::convexLB() const {
  return maintainsLB() && m.kind == K_POMDP && opt("lowerBoundRepresentation", "-") != "point";
}

Json Scenario::toJson() const {
  Json j = Json::obj();
  j.set("property", prop).set("seed", std::to_string(seed)).set("cmd", cmd).set("layout", std::to_string(layout));
  Json jo = Json::arr();
  for (auto &o : opts) { Json e = Json::arr(); e.push(o.first); e.push(o.second); jo.push(e); }
  j.set("options", jo);
  Json p = Json::obj();
  p.set("randSeed", std::to_string(plan.randSeed)).set("randExtreme", plan.randExtreme).set("clockSeed", std::to_string(plan.clockSeed));
  p.set("clockStart", plan.clockStart).set("clockStep", plan.clockStep).set("backupCost", plan.backupCost);
  p.set("stackKB", plan.stackKB).set("heapByte", plan.heapByte).set("diskCapacity", plan.diskCapacity).set("chunkMax", plan.chunkMax);
  p.set("maxEvents", plan.maxEvents).set("cpuLimit", plan.cpuLimit).set("clockFree", plan.clockFree);
  Json jf = Json::arr();
  for (auto &f : plan.faults) {
    Json e = Json::obj();
    e.set("at", clsName(f.cls)).set("file", f.file).set("nth", f.nth).set("act", actName(f.act)).set("arg", f.arg).set("sticky", f.sticky);
    jf.push(e);
  }
  p.set("faults", jf);
  j.set("plan", p);
  Json jp = Json::obj();
  for (auto &k : par) jp.set(k.first, k.second);
  j.set("params", jp);
  Json jt = Json::obj();
  for (auto &k : text) jt.set(k.first, k.second);
  j.set("texts", jt);
  j.set("model", m.toJson());
  return j;
}
static int clsOf(const string &n) { for (int i = 0; i < C_NCLS; i++) if (n == clsName(i)) return i; return C_ANY; }
static int actOf(const string &n) { for (int i = 0; i < A_NACT; i++) if (n == actName(i)) return i; return 0; }
Scenario Scenario::fromJson(const Json &j) {
  Scenario s;
  s.prop = j["property"].s;
  s.seed = strtoull(j["seed"].s.c_str(), 0, 10);
  s.cmd = j["cmd"].s;
  s.layout = strtoull(j["layout"].s.c_str(), 0, 10);
  for (auto &e : j["options"].a) s.opts.push_back({e.a[0].s, e.a[1].s});
  const Json &p = j["plan"];
  s.plan.randSeed = strtoull(p["randSeed"].s.c_str(), 0, 10);
  s.plan.randExtreme = p["randExtreme"].num();
  s.plan.clockSeed = strtoull(p["clockSeed"].s.c_str(), 0, 10);
  s.plan.clockStart = p["clockStart"].integer();
  s.plan.clockStep = p["clockStep"].integer();
  s.plan.backupCost = p["backupCost"].integer();
  s.plan.heapByte = p["heapByte"].integer();
  s.plan.stackKB = p["stackKB"].integer();
  s.plan.diskCapacity = p["diskCapacity"].integer();
  s.plan.chunkMax = p["chunkMax"].integer();
  s.plan.maxEvents = p["maxEvents"].integer();
  s.plan.cpuLimit = p["cpuLimit"].num();
  s.plan.clockFree = p["clockFree"].b;
  for (auto &e : p["faults"].a) {
    Fault f;
    f.cls = clsOf(e["at"].s);
    f.file = e["file"].s;
    f.nth = e["nth"].integer();
    f.act = actOf(e["act"].s);
    f.arg = e["arg"].integer();
    f.sticky = e["sticky"].b;
    s.plan.faults.push_back(f);
  }
  for (auto &k : j["params"].o) s.par[k.first] = k.second.num();
  for (auto &k : j["texts"].o) s.text[k.first] = k.second.s;
  s.m = Model::fromJson(j["model"]);
  return s;
}

Proc exec(Outcome &o, const vector<string> &argv, const Plan &p, Files &f, Observer *obs) {
  Proc r = runProc(argv, p, f, obs);
  if (r.hang && r.events < p.maxEvents) {   // stopped by the cpu limit: where exactly is not part of the result
    r.hash = r.backupHash = 0;
    r.events = 0;
    r.simMicros = 0;
  }
  o.procs++;
  o.events += r.events;
  o.simSeconds += r.simMicros * 1e-6;
  for (int i = 0; i < A_NACT; i++) o.fired[i] += r.fired[i];
  for (int i = 0; i < C_NCLS; i++) o.cnt[i] += r.cnt[i];
  uint64_t v[4] = {r.hash, (uint64_t)r.exitCode, (uint64_t)r.signal, (uint64_t)r.events};
  for (uint64_t x : v) { o.hash ^= x; o.hash *= 1099511628211ull; }
  o.behave ^= r.backupHash;
  o.behave *= 1099511628211ull;
  o.behave ^= (uint64_t)(r.exitCode + 7) * 31 + r.signal;
  o.behave *= 1099511628211ull;
  for (size_t i = 0; i < r.faultFired.size(); i++)
    if (r.faultFired[i]) { o.behave ^= i + 17 * p.faults[i].nth + 1000003ull * p.faults[i].act; o.behave *= 1099511628211ull; }
  char b[300];
  string cmd;
  for (auto &a : argv) cmd += (cmd.empty() ? "" : " ") + a;
  snprintf(b, sizeof b, " => exit %d signal %d%s%s events %ld backups %ld trials %ld simulated %.6f s", r.exitCode, r.signal,
           r.crashed ? " (crash injected)" : "", r.hang ? " (did not end)" : "", r.events, r.cnt[C_BACKUP], r.cnt[C_TRIAL], r.simMicros * 1e-6);
  o.transcript.push_back(cmd + b);
  return r;
}

string abnormalKey(const Proc &p) {
  if (p.hang) return "does-not-end";
  if (p.invariant && p.crashed == false && p.invMsg.find("double free") != string::npos) return "heap-misuse";
  if (p.invariant) return "";
  if (p.crashed) return "";
  if (p.signal) {
    size_t a = p.err.find("Assertion `");
    if (a != string::npos) {
      a += 11;
      size_t b = p.err.find('\'', a);
      string e = p.err.substr(a, b - a);
      return "assertion " + e;
    }
    if (p.err.find("AddressSanitizer") != string::npos || p.err.find("runtime error") != string::npos) return "memory-error";
    return "signal-" + std::to_string(p.signal);
  }
  if (p.err.find("runtime error: ") != string::npos) {
    size_t a = p.err.find("runtime error: ") + 15;
    return "undefined behaviour: " + p.err.substr(a, std::min<size_t>(p.err.find_first_of("0123456789\n'", a) - a, 60));
  }
  if (p.exitCode == 77 || p.err.find("AddressSanitizer") != string::npos) return "memory-error";
  return "";
}
bool abnormal(Outcome &o, const Proc &p, const string &what) {
  string k = abnormalKey(p);
  if (k.empty()) return false;
  string e = p.err.size() > 300 ? p.err.substr(p.err.size() - 300) : p.err;
  o.bad("abnormal-end: " + k, what + "the program ended abnormally (" + k + "), stderr: " + e);
  return true;
}

// ------------------------------------------------------------ generators
Model genModel(Rng &g, const string &which) {
  string w = which;
  if (w == "any") {
    static const char *k[] = {"pomdp", "pomdp", "pomdp", "pomdp", "mdp", "race", "custom"};
    w = k[g.below(7)];
  }
  if (w == "pomdp") {
    static const char *k[] = {"layered", "layered", "layered", "finite", "two"};
    w = k[g.below(5)];
  }
  if (w == "deep") return genDeepLayered(g);
  if (w == "layered" && g.chance(0.06)) return genLong(g, false);
  if (w == "mdp" && g.chance(0.15)) return genLong(g, true);
  if (w == "layered") return g.chance(0.5) ? genDeepLayered(g) : g.chance(0.5) ? genLayered(g, 3, 3, 3, 3) : genLayered(g, 4, 2, 2, 3);
  if (w == "finite") return genFiniteBelief(g);
  if (w == "two") return genTwoState(g);
  if (w == "general") return genGeneral(g, 5);
  if (w == "mdp") return g.chance(0.5) ? genMdp(g) : genLayeredMdp(g);
  if (w == "race") return genRace(g);
  return genCustom(g);
}

static const char *pickTarget(Rng &g) {
  static const char *t[] = {"1e-3", "1e-3", "0.01", "0.1", "0.5", "1e-4"};
  return t[g.below(6)];
}

void genSearchOpts(Rng &g, Scenario &s, bool needPolicy) {
  Model &m = s.m;
  static const char *st[] = {"frtdp", "frtdp", "hsvi", "hsvi", "rtdp", "lrtdp", "hdp"};
  string strat = needPolicy ? st[g.below(4)] : st[g.below(7)];
  if (needPolicy && g.chance(0.25)) { static const char *q[] = {"rtdp", "lrtdp", "hdp"}; strat = q[g.below(3)]; s.setOpt("maintainLowerBound", "1"); }
  // the purely trial-based strategies only end at absorbing states
  if (m.family == "two-state" && strat == "hdp") strat = "hsvi";   // needs finitely many reachable states
  // hsvi raises its sights by 5% per trial and keeps exploring: very many trials on deep models
  if (m.family.compare(0, 4, "long") == 0 && strat == "hsvi") strat = "frtdp";
  if (m.family.compare(0, 4, "long") == 0 && strat == "hdp") strat = needPolicy ? "frtdp" : "lrtdp";   // needs depth^2 trials
  bool ends = m.horizon > 0 || m.kind == K_RACE || m.kind == K_CUSTOM;
  if (!ends && (strat == "rtdp" || strat == "lrtdp")) strat = g.chance(0.5) && m.family != "two-state" ? "hdp" : "frtdp";
  // hsvi has no limit on the length of a trial, so without discounting it need not end in a cyclic model
  if (strat == "hsvi" && m.gamma >= 1 && m.horizon <= 0) strat = "frtdp";
  if (strat == "hdp" && needPolicy) s.setOpt("maintainLowerBound", "1");
  if (strat != "frtdp" || g.chance(0.3)) s.setOpt("searchStrategy", strat);
  if (strat != "frtdp" && strat != "hsvi" && !needPolicy && g.chance(0.3)) s.setOpt("maintainLowerBound", g.chance(0.7) ? "1" : "0");
  if (m.kind == K_POMDP) {
    if (g.chance(0.3)) s.setOpt("upperBoundRepresentation", g.chance(0.7) ? "point" : "sawtooth");
    if (!needPolicy && g.chance(0.25)) s.setOpt("lowerBoundRepresentation", g.chance(0.7) ? "point" : g.chance(0.5) ? "convex" : "maxPlanes");
    bool mask = true, cache = true;
    if (g.chance(0.2)) { s.setOpt("useMaxPlanesMasking", "0"); mask = false; s.setOpt("useMaxPlanesSupportList", "0"); }
    if (mask && g.chance(0.2)) s.setOpt("useMaxPlanesSupportList", "0");
    if (g.chance(0.2)) { s.setOpt("useMaxPlanesCache", "0"); s.setOpt("useMaxPlanesExtraPruning", "0"); cache = false; }
    if (cache && g.chance(0.25)) s.setOpt("useMaxPlanesExtraPruning", "0");
    if (g.chance(0.2)) s.setOpt("useSawtoothSupportList", "0");
  }
  if (m.kind == K_RACE && g.chance(0.3)) s.setOpt("useWeakUpperBoundHeuristic", "1");
  if (m.kind == K_CUSTOM) s.setOpt("customMDPNumStates", std::to_string(m.customN));
  if (m.horizon > 0 && (m.gamma >= 1 || g.chance(0.3))) s.setOpt("maxHorizon", std::to_string(m.horizon + (int)g.below(3)));
  if (g.chance(0.6)) s.setOpt("terminateRegretBound", pickTarget(g));
  if ((m.kind == K_POMDP || m.kind == K_MDP) && g.chance(0.5)) s.setOpt("useFastModelParser", "1");
  else if (m.kind == K_POMDP || m.kind == K_MDP) s.layout = g.below(4) ? g.below(1000000) : 0;
  if (g.chance(0.1)) s.setOpt("debugLevel", "1");
}

void genPlan(Rng &g, Plan &p) {
  p.randSeed = g.next() >> 16;
  p.clockSeed = g.next() >> 16;
  if (g.chance(0.2)) p.randExtreme = g.chance(0.5) ? 0.05 : 0.3;
  static const long long steps[] = {1, 3, 50, 2000};
  static const long long costs[] = {0, 5, 50, 1000, 20000};
  p.clockStep = steps[g.below(4)];
  p.backupCost = costs[g.below(5)];
  p.heapByte = g.chance(0.5) ? 0 : (int)g.below(256);
  if (g.chance(0.2)) { static const long c[] = {1, 7, 64, 511}; p.chunkMax = c[g.below(4)]; }
}

double lbTol(const Scenario &s, const Ref &r) {
  // the blind policies' values are computed to 1e-2 of the target
  double g = s.m.gamma;
  double t = 1e-9 * std::max(1.0, r.vmax) * (s.m.kind == K_POMDP && g < 1 ? 1 / (1 - g) : 1) + 1e-7;
  if (s.m.kind == K_POMDP && g < 1) t += 1.01e-2 * s.target() * g / (1 - g);
  else if (s.m.kind == K_POMDP) t += 1.01e-2 * s.target() * std::max(1, s.m.horizon);
  return t;
}
double ubTol(const Scenario &s, const Ref &r) {
  // beliefs within 1e-6 of a corner are stored as the corner
  double t = lbTol(s, r);
  if (s.m.kind == K_POMDP) t += 2.2e-6 * r.vmax * (s.m.gamma < 1 ? 1 / (1 - s.m.gamma) : std::max(1, s.m.horizon));
  return t;
}

string svText(const SV *s, unsigned n) {
  string r = "[";
  for (unsigned i = 0; i < n; i++) { char b[60]; snprintf(b, sizeof b, "%s%u:%.9g", i ? " " : "", s[i].idx, s[i].val); r += b; }
  return r + "]";
}

// ------------------------------------------------------------ readers
vector<string> lines(const string &text) {
  vector<string> v;
  std::istringstream in(text);
  string l;
  while (std::getline(in, l)) v.push_back(l);
  return v;
}
vector<double> numbers(const string &line) {
  vector<double> v;
  const char *p = line.c_str();
  for (;;) {
    while (*p == ' ' || *p == '\t') p++;
    if (!*p) break;
    char *e;
    double x = strtod(p, &e);
    if (e == p) { v.clear(); return v; }
    v.push_back(x);
    p = e;
  }
  return v;
}
static string trim(const string &s) {
  size_t a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
  return a == string::npos ? "" : s.substr(a, b - a + 1);
}

// strict reader of the documented policy format
Policy readPolicy(const string &text, int S, int A) {
  Policy p;
  vector<string> L;
  if (text.empty()) { p.why = "the file is empty"; return p; }
  if (text.back() != '\n') { p.why = "the last line is incomplete"; return p; }
  for (auto &l : lines(text)) {
    string t = trim(l);
    if (t.empty() || t[0] == '#') continue;
    L.push_back(t);
  }
  size_t i = 0;
  auto want = [&](const string &s) {
    if (i < L.size() && L[i] == s) { i++; return true; }
    p.why = "expected '" + s + "', found '" + (i < L.size() ? L[i] : string("end of file")) + "'";
    return false;
  };
  if (!want("{") || !want("policyType => \"MaxPlanesLowerBound\",")) return p;
  int n = -1;
  char c = 0;
  if (i >= L.size() || sscanf(L[i].c_str(), "numPlanes => %d%c", &n, &c) != 2 || c != ',' || n < 0) { p.why = "bad numPlanes line"; return p; }
  i++;
  if (!want("planes => [")) return p;
  for (int k = 0; k < n; k++) {
    Plane pl;
    int ne = -1;
    if (!want("{")) return p;
    if (i >= L.size() || sscanf(L[i].c_str(), "action => %d%c", &pl.action, &c) != 2 || c != ',') { p.why = "bad action line"; return p; }
    i++;
    if (i >= L.size() || sscanf(L[i].c_str(), "numEntries => %d%c", &ne, &c) != 2 || c != ',') { p.why = "bad numEntries line"; return p; }
    i++;
    if (!want("entries => [")) return p;
    for (int e = 0; e < ne; e++) {
      int idx;
      double v;
      int used = 0;
      if (i >= L.size() || sscanf(L[i].c_str(), "%d, %lf%n", &idx, &v, &used) != 2) { p.why = "bad entry line"; return p; }
      string rest = L[i].substr(used);
      if (rest != (e + 1 < ne ? "," : "")) { p.why = "entries and numEntries disagree"; return p; }
      i++;
      if (idx < 0 || idx >= S || !std::isfinite(v)) { p.why = "entry out of range"; return p; }
      if (!pl.alpha.empty() && pl.alpha.back().first >= idx) { p.why = "entries are not in order"; return p; }
      pl.alpha.push_back({idx, v});
    }
    if (!want("]")) return p;
    if (!want(k + 1 < n ? "}," : "}")) return p;
    if (pl.action < 0 || pl.action >= A) { p.why = "action out of range"; return p; }
    p.planes.push_back(pl);
  }
  if (!want("]") || !want("}")) return p;
  if (i != L.size()) { p.why = "text after the end of the policy"; return p; }
  if (p.planes.empty()) { p.why = "no planes"; return p; }
  p.ok = true;
  return p;
}
double planeValue(const Plane &p, const Sparse &b, bool &ok) {
  double v = 0;
  size_t j = 0;
  ok = true;
  for (auto &e : b) {
    if (e.second <= 0) continue;
    while (j < p.alpha.size() && p.alpha[j].first < e.first) j++;
    if (j >= p.alpha.size() || p.alpha[j].first != e.first) { ok = false; return 0; }
    v += e.second * p.alpha[j].second;
  }
  return v;
}
int bestPlane(const Policy &p, const Sparse &b, double *val) {
  int best = -1;
  double bv = -1e300;
  for (size_t i = 0; i < p.planes.size(); i++) {
    bool ok;
    double v = planeValue(p.planes[i], b, ok);
    if (ok && v > bv) { bv = v; best = i; }
  }
  if (val) *val = bv;
  return best;
}

static bool readBracket(const string &s, size_t &pos, Sparse &v, bool &trunc) {
  size_t a = s.find('[', pos), b = s.find(']', a);
  if (a == string::npos || b == string::npos) return false;
  string t = s.substr(a + 1, b - a - 1);
  pos = b + 1;
  v.clear();
  trunc = false;
  if (t.find("no non-zero") != string::npos) return true;
  const char *p = t.c_str();
  for (;;) {
    while (*p == ' ') p++;
    if (!*p) break;
    char *e;
    long idx = strtol(p, &e, 10);
    if (*e != ':') return false;
    double x = strtod(e + 1, &e);
    v.push_back({(int)idx, x});
    p = e;
  }
  trunc = v.size() >= 4;
  std::sort(v.begin(), v.end());
  Sparse w;
  for (auto &e : v) if (e.second != 0) w.push_back(e);
  v = w;
  return true;
}
bool readSim(const string &text, vector<SimTrace> &out, string &why) {
  out.clear();
  for (auto &l : lines(text)) {
    if (l == ">>> begin") { out.emplace_back(); continue; }
    if (out.empty()) { why = "line before the first trace: " + l; return false; }
    if (l == "terminated") { out.back().terminated = true; continue; }
    if (l.compare(0, 5, "sim: ") == 0) {
      SimStep st;
      size_t pos = 5;
      if (!readBracket(l, pos, st.s, st.truncS)) { why = "bad line: " + l; return false; }
      char *e;
      st.a = strtol(l.c_str() + pos, &e, 10);
      pos = e - l.c_str();
      if (!readBracket(l, pos, st.sp, st.truncSp)) { why = "bad line: " + l; return false; }
      st.o = strtol(l.c_str() + pos, &e, 10);
      if (*e) { why = "bad line: " + l; return false; }
      if (out.back().terminated) { why = "step after the end of a trace"; return false; }
      out.back().steps.push_back(st);
      continue;
    }
    why = "unexpected line: " + l;
    return false;
  }
  return true;
}
