// LifeSurvey (C18): the model generator, the target generator, the map dump
// and the path-and-react heuristic, against an independent description.
#include "checks.h"
#include <errno.h>
#include <math.h>
#include <string.h>
#include <algorithm>
#include <queue>
using namespace sim;
using std::string;
using std::vector;

namespace {
const int NONE = 100;
struct Survey {
  vector<string> rows;      // top first, cells only: letter or ' '
  int H = 0, W = 0;
  vector<vector<int>> cell; // [y][x]
  int sx = 0, sy = 0;
  double base = 1, look = 1;
  vector<double> prior, absent, present;
  bool targets = false;
  std::set<std::pair<int, int>> tset;
  vector<vector<vector<char>>> reach;   // [r][y][x]: region r can be visited from here on
  int at(int x, int y) const { return x >= 0 && y >= 0 && y < H && x < W ? cell[y][x] : NONE; }
  bool exitCell(int x, int y) const {
    for (int i = x + 1; i < W; i++) if (at(i, y) != NONE) return false;
    return true;
  }
  void build() {
    H = rows.size();
    W = 0;
    for (int i = 0; i < H; i++) W = std::max<int>(W, (H - i) / 2 + rows[i].size());
    cell.assign(H, vector<int>(W, (int)NONE));
    for (int i = 0; i < H; i++) {
      int y = H - 1 - i;
      for (size_t k = 0; k < rows[i].size(); k++) if (rows[i][k] != ' ') cell[y][(y + 1) / 2 + k] = rows[i][k] - 'a';
    }
    reach.assign(prior.size(), vector<vector<char>>(H, vector<char>(W, 0)));
    for (size_t r = 0; r < prior.size(); r++)
      for (int x = W - 1; x >= 0; x--)
        for (int y = 0; y < H; y++) {      // south-east neighbour: same column, below
          if (at(x, y) == NONE) continue;
          bool v = at(x, y) == (int)r;
          if (at(x + 1, y + 1) != NONE && reach[r][y + 1][x + 1]) v = true;
          if (at(x + 1, y) != NONE && reach[r][y][x + 1]) v = true;
          if (at(x, y - 1) != NONE && reach[r][y - 1][x]) v = true;
          reach[r][y][x] = v;
        }
  }
  string text(bool newline, bool comments) const {
    string t;
    char b[100];
    auto num = [&](double v) { snprintf(b, sizeof b, "%.10g", v); return string(b); };
    if (comments) t += "# a survey\n\n";
    t += "startX " + num(sx) + "\nstartY " + num(sy) + "\nbaseCost " + num(base) + "\nlookaheadCost " + num(look) + "\n";
    auto vec = [&](const char *n, const vector<double> &v) {
      t += n;
      for (double d : v) t += (comments ? "  " : " ") + num(d);
      t += "\n";
    };
    vec("regionPriors", prior);
    if (comments) t += "# sensor\n";
    vec("obsDistributionLifeAbsent", absent);
    vec("obsDistributionLifePresent", present);
    t += "---\n";
    for (size_t i = 0; i < rows.size(); i++) {
      string l = i % 2 ? " " : "";
      for (size_t k = 0; k < rows[i].size(); k++) l += string(k ? " " : "") + rows[i][k];
      if (!comments) while (l.size() > 2 && l.back() == ' ') l.pop_back();
      t += l;
      if (newline || i + 1 < rows.size()) t += "\n";
    }
    return t;
  }
};
void nb(int x, int y, int d, int &nx, int &ny) {
  nx = d == 2 ? x : x + 1;
  ny = d == 0 ? y + 1 : d == 2 ? y - 1 : y;
}
bool sharp(int last, int d) { return (last == 0 && d == 2) || (last == 2 && d == 0); }

struct St {
  int x = 0, y = 0, dir = 1, used = 0, n[3] = {0, 0, 0};
  string r;
  string name() const {
    if (x == -999) return "sterminal";
    return fmt("sx%dy%dd%du%dn%d%d%dr%s", x, y, dir, used, n[0], n[1], n[2], r.c_str());
  }
};
struct Tr { double p; St s; };
St termSt() { St t; t.x = -999; return t; }
// entering (x,y) by a move in direction d from a cell whose eastern neighbour
// does (east=1), does not (0) have life
void enter(const Survey &S, const St &from, int d, St to, vector<Tr> &out) {
  for (size_t r = 0; r < to.r.size(); r++) if (to.r[r] != '9' && !S.reach[r][to.y][to.x]) to.r[r] = '9';
  double p[3];
  for (int j = 0; j < 3; j++) {
    int x, y;
    nb(to.x, to.y, j, x, y);
    int c = S.at(x, y);
    p[j] = c == NONE ? 0 : S.targets ? (S.tset.count({x, y}) ? 1 : 0) : S.prior[c];
  }
  if (d == 0) p[2] = from.n[1];
  if (d == 2) p[0] = from.n[1];
  for (int i = 0; i < 8; i++) {
    double q = 1;
    for (int j = 0; j < 3; j++) {
      to.n[j] = (i >> j) & 1;
      q *= to.n[j] ? p[j] : 1 - p[j];
    }
    if (q != 0) out.push_back({q, to});
  }
}
double worth(int l) { return l == 1 ? 5 : l == 2 ? 20 : l == 3 ? 50 : 0; }
void step(const Survey &S, const St &s, int a, vector<Tr> &out, double &rew) {
  out.clear();
  rew = 0;
  if (s.x == -999) { out.push_back({1, s}); return; }
  if (a == 6) {
    if (s.used) { rew = -100; out.push_back({1, s}); return; }
    St t = s;
    t.used = 1;
    rew = -S.look * S.base;
    out.push_back({1, t});
    return;
  }
  int d = a % 3, sample = a / 3;
  St t = s;
  nb(s.x, s.y, d, t.x, t.y);
  int c = S.at(t.x, t.y);
  if (c == NONE || sharp(s.dir, d)) { rew = -100; out.push_back({1, s}); return; }
  t.dir = d;
  t.used = 0;
  int level = s.n[d] ? (sample ? 3 : 2) : 1, old = s.r[c] - '0';
  rew = -(sample ? 5 : 1) * S.base;
  if (level > old) { rew += worth(level) - worth(old); t.r[c] = '0' + level; }
  if (S.exitCell(t.x, t.y)) { out.push_back({1, termSt()}); return; }
  enter(S, s, d, t, out);
}
void initial(const Survey &S, vector<Tr> &out) {
  St pre;
  pre.x = S.sx - 1;
  pre.y = S.sy;
  pre.r = string(S.prior.size(), '0');
  double rew;
  step(S, pre, 1, out, rew);
}
// all states, or nothing if there are more than max
bool allStates(const Survey &S, size_t max, std::map<string, St> &res) {
  std::queue<St> q;
  auto add = [&](const St &s) { if (res.emplace(s.name(), s).second) q.push(s); };
  add(termSt());
  vector<Tr> t;
  initial(S, t);
  for (auto &x : t) add(x.s);
  double rew;
  while (!q.empty()) {
    St s = q.front();
    q.pop();
    for (int a = 0; a < 7; a++) {
      step(S, s, a, t, rew);
      for (auto &x : t) add(x.s);
    }
    if (res.size() > max) return false;
  }
  return true;
}

// the best expected number of regions in which life is seen
struct Best {
  const Survey &S;
  double best = -999;
  long n = 0;
  vector<int> cnt;
  explicit Best(const Survey &s) : S(s), cnt(s.prior.size(), 0) {}
  double value() const {
    double v = 0;
    for (size_t r = 0; r < cnt.size(); r++) v += 1 - pow(1 - S.prior[r], cnt[r]);
    return v;
  }
  void go(int x, int y, int last) {
    if (++n > 3000000) return;
    int got[3], k = 0;
    for (int d = 0; d < 3; d++) {
      int nx, ny;
      nb(x, y, d, nx, ny);
      int c = S.at(nx, ny);
      if (c != NONE && !sharp(last, d)) cnt[c]++, got[k++] = c;
    }
    if (S.exitCell(x, y)) best = std::max(best, value());
    else
      for (int d = 0; d < 3; d++) {
        int nx, ny;
        nb(x, y, d, nx, ny);
        if (S.at(nx, ny) != NONE && !sharp(last, d)) go(nx, ny, d);
      }
    while (k) cnt[got[--k]]--;
  }
};

Survey survey(const Scenario &s) {
  Survey S;
  string m = s.text.at("map");
  for (size_t i = 0; i <= m.size();) {
    size_t e = m.find('/', i);
    if (e == string::npos) e = m.size();
    S.rows.push_back(m.substr(i, e - i));
    i = e + 1;
  }
  S.sx = (int)s.p("sx");
  S.sy = (int)s.p("sy");
  S.base = s.p("base");
  S.look = s.p("look");
  for (int r = 0; r < (int)s.p("regions"); r++) S.prior.push_back(s.p(fmt("prior%d", r)));
  for (int i = 0; i < 3; i++) S.absent.push_back(s.p(fmt("absent%d", i))), S.present.push_back(s.p(fmt("present%d", i)));
  S.build();
  return S;
}
struct Gen {   // a generated model file
  string why;
  vector<string> states;
  vector<double> start;
  std::map<string, double> R, T, O;    // "a s" and "a s x"
  double discount = 0;
  string head;
};
Gen readGen(const string &text, bool full) {
  Gen G;
  size_t i = 0;
  string headPart;
  static const char *an[] = {"ane", "ae", "ase", "anes", "aes", "ases", "alook"};
  auto tok = [](const string &l) {
    vector<string> v;
    size_t p = 0;
    while ((p = l.find_first_not_of(" \t", p)) != string::npos) {
      size_t e = l.find_first_of(" \t", p);
      if (e == string::npos) e = l.size();
      v.push_back(l.substr(p, e - p));
      p = e;
    }
    return v;
  };
  auto act = [&](const string &s) { if (full) { for (int a = 0; a < 7; a++) if (s == an[a]) return std::to_string(a); return "?" + s; } return s; };
  auto obs = [&](const string &s) {
    if (!full) return s;
    if (s == "onull") return string("27");
    if (s.size() == 4 && s[0] == 'o') { int v = (s[1] - '0') * 9 + (s[2] - '0') * 3 + s[3] - '0'; return std::to_string(v); }
    return "?" + s;
  };
  std::map<string, int> id;
  auto sid = [&](const string &s) { if (!full) return s; auto k = id.find(s); return k == id.end() ? "?" + s : std::to_string(k->second); };
  if (text.empty() || text.back() != '\n') { G.why = "the file does not end with a line end"; return G; }
  while (i < text.size()) {
    size_t e = text.find('\n', i);
    string l = text.substr(i, e - i);
    i = e + 1;
    vector<string> v = tok(l);
    if (v.empty()) continue;
    auto put = [&](std::map<string, double> &m, const string &k, const string &val) {
      if (!m.emplace(k, atof(val.c_str())).second) G.why = "written twice: " + l;
    };
    if (v[0] == "discount:") G.discount = atof(v[1].c_str());
    else if (v[0] == "values:") { if (v[1] != "reward") G.why = l; }
    else if (v[0] == "actions:") { if (full ? v.size() != 8 : v[1] != "7") G.why = l; for (int a = 0; full && a < 7 && G.why.empty(); a++) if (v[a + 1] != an[a]) G.why = l; }
    else if (v[0] == "observations:") { if (full ? v.size() != 29 : v[1] != "28") G.why = l; for (int a = 0; full && a < 28 && G.why.empty(); a++) if (obs(v[a + 1]) != std::to_string(a)) G.why = l; }
    else if (v[0] == "states:") {
      if (full) { for (size_t k = 1; k < v.size(); k++) { id[v[k]] = k - 1; G.states.push_back(v[k]); } if (id.size() != G.states.size()) G.why = "a state is listed twice"; }
      else G.states.resize(atoi(v[1].c_str()));
    } else if (v[0] == "start:") for (size_t k = 1; k < v.size(); k++) G.start.push_back(atof(v[k].c_str()));
    else if (v[0] == "R:" && v.size() == 9 && v[2] == ":" && v[4] == ":" && v[5] == "*" && v[6] == ":" && v[7] == "*") put(G.R, act(v[1]) + " " + sid(v[3]), v[8]);
    else if ((v[0] == "T:" || v[0] == "O:") && v.size() == 7 && v[2] == ":" && v[4] == ":") put(v[0] == "T:" ? G.T : G.O, act(v[1]) + " " + sid(v[3]) + " " + (v[0] == "T:" ? sid(v[5]) : obs(v[5])), v[6]);
    else G.why = "unexpected line: " + l.substr(0, 100);
    if (!G.why.empty()) return G;
  }
  return G;
}
bool near(double a, double b) { return fabs(a - b) <= 2e-15 + 1e-14 * fabs(b); }

const char *DUMMY =
  "discount: 0.95\nvalues: reward\nactions: 7\nobservations: 28\nstates: 1\n\nstart: 1\n\n"
  "T: 0 : 0 : 0 1\nT: 1 : 0 : 0 1\nT: 2 : 0 : 0 1\nT: 3 : 0 : 0 1\nT: 4 : 0 : 0 1\nT: 5 : 0 : 0 1\nT: 6 : 0 : 0 1\n"
  "O: 0 : 0 : 27 1\nO: 1 : 0 : 27 1\nO: 2 : 0 : 27 1\nO: 3 : 0 : 27 1\nO: 4 : 0 : 27 1\nO: 5 : 0 : 27 1\nO: 6 : 0 : 27 1\n";

enum { M_MODEL, M_POLICY, M_BLIND, M_PATH, M_TARGETS, M_FAULT, M_BAD, M_N };
const char *mName[] = {"model", "path and react", "blind", "best path on a larger map", "targets and map dump", "failing system call", "damaged input"};

void genC18(Rng &g, Scenario &s, bool th) {
  genPlan(g, s.plan);
  s.plan.cpuLimit = 60;
  s.plan.maxEvents = 40000000;
  s.plan.heapByte = g.chance(0.7) ? (g.chance(0.5) ? '0' + (int)g.below(10) : 1 + (int)g.below(254)) : 0;
  s.cmd = "evaluate";
  int mode = g.below(M_N + 1);
  if (mode == M_N) mode = M_POLICY;
  s.par["mode"] = mode;
  bool big = mode == M_PATH || mode == M_TARGETS || mode == M_BAD;
  for (int tries = 0;; tries++) {
    static const int hs[] = {1, 3, 3, 3, 5};
    int H = hs[g.below(5)], R = big ? g.range(1, 6) : g.range(1, tries < 20 ? 3 : 2);
    double hole = g.chance(0.5) ? 0 : 0.05 + 0.25 * g.u(), mix = g.u();
    vector<string> rows(H);
    int w = big ? g.range(2, H == 1 ? 14 : H == 3 ? 8 : 6) : g.range(2, H == 1 ? 7 : 4);
    int shape = g.below(3);
    for (int i = 0; i < H; i++) {
      int k = std::max(1, w + (shape == 1 ? g.range(-1, 1) : 0) - (shape == 2 ? i % 2 : 0));
      for (int j = 0; j < k; j++) rows[i] += g.chance(hole) ? ' ' : (char)('a' + (g.chance(mix) ? (int)g.below(R) : std::min<int>(R - 1, j * R / k)));
    }
    int used = 0;
    bool empty = false;
    for (auto &r : rows) {
      while (r.size() > 1 && r.back() == ' ') r.pop_back();
      if (r == " ") empty = true;
      for (char c : r) if (c != ' ') used = std::max(used, c - 'a' + 1);
    }
    if (!used || empty) continue;
    s.text["map"] = "";
    for (int i = 0; i < H; i++) s.text["map"] += (i ? "/" : "") + rows[i];
    s.par["regions"] = used;
    static const double pr[] = {0, 0.1, 0.25, 0.5, 0.9, 1};
    for (int r = 0; r < used; r++) s.par[fmt("prior%d", r)] = g.chance(0.8) ? pr[g.below(6)] : floor(g.u() * 1000) / 1000;
    bool sure = g.chance(0.2);
    for (int i = 0; i < 3; i++) {
      s.par[fmt("absent%d", i)] = sure ? (i == 0) : g.range(i == 0, 9);
      s.par[fmt("present%d", i)] = sure ? (i == 2) : g.range(i == 2, 9);
    }
    static const double bc[] = {1, 1, 1, 5, 0.5, 0, 2.25};
    s.par["base"] = bc[g.below(7)];
    s.par["look"] = bc[g.below(7)];
    Survey S;
    S.rows = rows;
    S.prior.assign(used, 0);
    S.build();
    vector<std::pair<int, int>> cs;
    for (int y = 0; y < S.H; y++)
      for (int x = 0; x < S.W; x++)
        if (S.at(x, y) != NONE && (!S.exitCell(x, y) || (mode != M_POLICY && mode != M_BLIND && mode != M_PATH && g.chance(0.02)))) cs.push_back({x, y});
    if (cs.empty()) continue;
    std::sort(cs.begin(), cs.end());
    auto c = cs[g.chance(0.7) ? g.below(std::min<int>(cs.size(), H)) : g.below(cs.size())];
    s.par["sx"] = c.first;
    s.par["sy"] = c.second;
    if (!big) {
      std::map<string, St> all;
      Survey T = survey(s);
      if (!allStates(T, mode == M_MODEL || mode == M_FAULT ? 900 : 600, all)) continue;
    }
    break;
  }
  s.par["newline"] = !g.chance(0.15);
  s.par["comments"] = g.chance(0.3);
  s.par["u"] = g.u();
  s.par["v"] = g.u();
  s.par["w"] = g.u();
  s.par["tlist"] = g.chance(0.3);
}

// compares a generated file with the description
bool compareGen(const Survey &S, const string &full, const string &numeric, Outcome &o) {
  Gen F = readGen(full, true);
  if (!F.why.empty()) { o.bad("malformed model", "full identifiers: " + F.why); return false; }
  Gen N = readGen(numeric, false);
  if (!N.why.empty()) { o.bad("malformed model", "numbers: " + N.why); return false; }
  if (F.states.size() != N.states.size() || F.start != N.start || F.R != N.R || F.T != N.T || F.O != N.O || F.discount != N.discount) {
    o.bad("identifiers change the model", fmt("with full identifiers %zu states, %zu rewards, %zu transitions, %zu observations; with numbers %zu, %zu, %zu, %zu", F.states.size(), F.R.size(), F.T.size(), F.O.size(), N.states.size(), N.R.size(), N.T.size(), N.O.size()));
    return false;
  }
  if (F.discount != 0.999) { o.bad("wrong model", fmt("discount %g", F.discount)); return false; }
  std::map<string, St> all;
  if (!allStates(S, 200000, all)) return true;
  std::map<string, int> id;
  for (size_t i = 0; i < F.states.size(); i++) id[F.states[i]] = i;
  for (auto &x : all) if (!id.count(x.first)) { o.bad("wrong states", "reachable but missing: " + x.first); return false; }
  for (auto &x : id) if (!all.count(x.first)) { o.bad("wrong states", "not reachable: " + x.first); return false; }
  std::map<int, double> st;
  vector<Tr> t;
  initial(S, t);
  for (auto &x : t) st[id[x.s.name()]] += x.p;
  if (F.start.size() != F.states.size()) { o.bad("wrong start", "not one number per state"); return false; }
  for (size_t i = 0; i < F.start.size(); i++) {
    double w = st.count(i) ? st[i] : 0;
    if (!near(F.start[i], w)) { o.bad("wrong start", fmt("%s has probability %.15g instead of %.15g", F.states[i].c_str(), F.start[i], w)); return false; }
  }
  double sa = S.absent[0] + S.absent[1] + S.absent[2], sp = S.present[0] + S.present[1] + S.present[2];
  size_t nT = 0, nO = 0, nR = 0;
  for (auto &x : all)
    for (int a = 0; a < 7; a++) {
      double rew;
      step(S, x.second, a, t, rew);
      string k = fmt("%d %d", a, id[x.first]);
      auto r = F.R.find(k);
      double got = r == F.R.end() ? 0 : r->second;
      if (!near(got, rew)) { o.bad("wrong reward", fmt("action %d in %s: %.15g instead of %.15g", a, x.first.c_str(), got, rew)); return false; }
      nR += r != F.R.end();
      for (auto &y : t) {
        auto q = F.T.find(k + fmt(" %d", id[y.s.name()]));
        double gp = q == F.T.end() ? 0 : q->second;
        if (!near(gp, y.p)) { o.bad("wrong transition", fmt("action %d from %s to %s: %.15g instead of %.15g", a, x.first.c_str(), y.s.name().c_str(), gp, y.p)); return false; }
        nT += q != F.T.end();
      }
      for (int z = 0; z < 28; z++) {
        double w;
        if (x.second.x == -999 || a != 6) w = z == 27;
        else if (z == 27) w = 0;
        else {
          w = 1;
          int dg[3] = {z / 9, z / 3 % 3, z % 3};
          for (int j = 0; j < 3; j++) w *= x.second.n[j] ? S.present[dg[j]] / sp : S.absent[dg[j]] / sa;
        }
        auto q = F.O.find(k + fmt(" %d", z));
        double gp = q == F.O.end() ? 0 : q->second;
        if (!near(gp, w)) { o.bad("wrong observation", fmt("action %d in %s, observation %d: %.15g instead of %.15g", a, x.first.c_str(), z, gp, w)); return false; }
        nO += q != F.O.end();
      }
    }
  if (nT != F.T.size() || nO != F.O.size() || nR != F.R.size()) { o.bad("wrong model", "entries for states that do not exist"); return false; }
  o.hit("states compared", all.size());
  return true;
}

struct PathOut { bool found = false; double value = 0; vector<std::pair<int, int>> cells; };
PathOut readPath(const string &out) {
  PathOut P;
  size_t i = out.find("best path value (expected number of life samples):");
  if (i == string::npos) return P;
  P.value = atof(out.c_str() + i + strlen("best path value (expected number of life samples):"));
  i = out.find("best path:", i);
  if (i == string::npos) return P;
  P.found = true;
  i += strlen("best path:");
  while (i < out.size()) {
    while (i < out.size() && (out[i] == ' ' || out[i] == '\n')) i++;
    int x, y, n = 0;
    if (i >= out.size() || out[i] != '(' || sscanf(out.c_str() + i, "(%d,%d)%n", &x, &y, &n) != 2 || !n) break;
    P.cells.push_back({x, y});
    i += n;
  }
  return P;
}
bool checkPath(const Survey &S, const PathOut &P, Outcome &o) {
  if (!P.found) { o.bad("no path reported", "no best path was printed"); return false; }
  Best b(S);
  b.go(S.sx, S.sy, 1);
  bool complete = b.n <= 3000000;
  if (P.cells.empty()) {
    if (b.best > -1) { o.bad("path not found", fmt("no path was found, although one is worth %.6f", b.best)); return false; }
    o.hit("no way through");
    return true;
  }
  if (P.cells[0] != std::make_pair(S.sx, S.sy)) { o.bad("illegal path", fmt("it starts in (%d,%d)", P.cells[0].first, P.cells[0].second)); return false; }
  vector<int> cnt(S.prior.size(), 0);
  int last = 1;
  for (size_t i = 0; i < P.cells.size(); i++) {
    int x = P.cells[i].first, y = P.cells[i].second;
    if (i) {
      int d = -1;
      for (int k = 0; k < 3; k++) {
        int nx, ny;
        nb(P.cells[i - 1].first, P.cells[i - 1].second, k, nx, ny);
        if (nx == x && ny == y) d = k;
      }
      if (d < 0 || S.at(x, y) == NONE || sharp(last, d)) { o.bad("illegal path", fmt("step %zu to (%d,%d)", i, x, y)); return false; }
      last = d;
    }
    if (S.exitCell(x, y) != (i + 1 == P.cells.size())) { o.bad("illegal path", fmt("it %s in (%d,%d)", i + 1 == P.cells.size() ? "ends" : "goes on", x, y)); return false; }
    for (int k = 0; k < 3; k++) {
      int nx, ny;
      nb(x, y, k, nx, ny);
      if (S.at(nx, ny) != NONE && !sharp(last, k)) cnt[S.at(nx, ny)]++;
    }
  }
  double v = 0;
  for (size_t r = 0; r < cnt.size(); r++) v += 1 - pow(1 - S.prior[r], cnt[r]);
  if (fabs(v - P.value) > 1e-6) { o.bad("wrong path value", fmt("the path is worth %.6f, not %.6f", v, P.value)); return false; }
  if (complete && fabs(b.best - P.value) > 1e-6) { o.bad("path not the best", fmt("the path chosen is worth %.6f, another one %.6f", P.value, b.best)); return false; }
  o.hit("paths checked");
  return true;
}

int pathDistance(const PathOut &P, int x, int y) {
  int best = 9999;
  for (auto &c : P.cells) {
    int dx = x - c.first, dy = y - c.second;
    int d = dx * dy < 0 ? abs(dx) + abs(dy) : std::max(abs(dx), abs(dy));
    best = std::min(best, d);
  }
  return best;
}

void runC18(const Scenario &s, Outcome &o) {
  Survey S = survey(s);
  int mode = (int)s.p("mode");
  double u = s.p("u"), v = s.p("v"), w = s.p("w");
  o.hit(string("mode ") + mName[mode]);
  Files in;
  string lsf = w < 0.5 ? "x.lifeSurvey" : "dir.v2.lifeSurvey";
  in[lsf] = S.text(s.p("newline") != 0, s.p("comments") != 0);
  auto say = [&](const Proc &p) { return fmt("exit code %d: ", p.exitCode) + p.err.substr(0, 300); };
  if (mode == M_BAD) {
    // what is wrong with the file, and who reads it
    string t = in[lsf];
    vector<string> L = lines(t);
    size_t sepL = 0;
    while (sepL < L.size() && L[sepL] != "---") sepL++;
    auto join = [&]() { t = ""; for (auto &l : L) t += l + "\n"; };
    auto param = [&](const char *n) { for (size_t i = 0; i < sepL; i++) if (L[i].compare(0, strlen(n), n) == 0) return i; return sepL; };
    static const char *ps[] = {"startX", "startY", "baseCost", "lookaheadCost", "regionPriors", "obsDistributionLifeAbsent", "obsDistributionLifePresent"};
    int kind = (int)(u * 14);
    bool named = true, missing = false;
    string what;
    switch (kind) {
      case 0: missing = true; what = "missing file"; break;
      case 1: { const char *n = ps[(int)(v * 7)]; L.erase(L.begin() + param(n)); join(); named = false; what = string("no ") + n; break; }
      case 2: { const char *n = ps[(int)(v * 7)]; L[param(n)] = string(n) + " none"; join(); what = string("no number for ") + n; break; }
      case 3: L.erase(L.begin() + sepL); join(); what = "no line of dashes"; break;
      case 4: L[param("regionPriors")] += " 0.5"; join(); what = "too many priors"; break;
      case 5: t = t.substr(0, (size_t)(v * t.find("---"))); what = "cut short"; break;
      case 6: { size_t i = sepL + 1 + (size_t)(v * S.H); size_t k = 0; while (k < L[i].size() && L[i][k] == ' ') k++; L[i][k] = "A1.{"[(int)(w * 4)]; join(); what = "wrong character"; break; }
      case 7: { size_t i = sepL + 1 + (size_t)(v * S.H); L[i].insert(L[i].size() - 1, 1, 'a'); join(); what = "cells too close"; break; }
      case 8: L[param(w < 0.5 ? ps[5] : ps[6])] += " 1"; join(); what = "too many observations"; break;
      case 9: L[param(w < 0.5 ? ps[5] : ps[6])] = string(w < 0.5 ? ps[5] : ps[6]) + (v < 0.5 ? " 0 0 0" : " 3 -1 2"); join(); what = "impossible observations"; break;
      case 10: L[param("regionPriors")] = "regionPriors"; for (size_t r = 0; r < S.prior.size(); r++) L[param("regionPriors")] += r ? " 0.5" : v < 0.5 ? " 1.5" : " -0.25"; join(); what = "impossible prior"; break;
      case 11: { int x = v < 0.5 ? (int)(w * 40) - 20 : S.sx; int y = v < 0.5 ? S.sy : (int)(w * 40) - 20; if (S.at(x, y) != NONE) x = -1; L[param("startX")] = fmt("startX %d", x); L[param("startY")] = fmt("startY %d", y); join(); what = "start not on the map"; break; }
      case 12: L.resize(sepL + 1); join(); what = "no map"; break;
      default: L.insert(L.begin() + sepL + 1 + (size_t)(v * (S.H + 1)), ""); join(); what = "empty line in the map"; break;
    }
    Files f;
    if (!missing) f[lsf] = t;
    f["d.pomdp"] = DUMMY;
    int who = (int)(w * 100) % 4;
    vector<string> av;
    if (who == 0) av = {"zmdp", "evaluate", "-f", "--policyType", "lspath", "--customModel", lsf, "-i", "1", "d.pomdp"};
    else if (who == 1) av = {"dumpMap", lsf, "out"};
    else av = {"gen_LifeSurvey", lsf, "out"};
    Proc p = exec(o, av, s.plan, f);
    o.hit("damage: " + what.substr(0, what.find(" for ")));
    if (abnormal(o, p, what + ": ")) return;
    if (p.exitCode == 0) { o.bad("damage accepted", av[0] + " accepted a survey with " + what); return; }
    if (p.err.find("ERROR") == string::npos || (named && p.err.find(lsf) == string::npos)) { o.bad("failure not explained", av[0] + ", " + what + ": " + p.err.substr(0, 300)); return; }
    if (f.count("out")) o.bad("output of a refused model", av[0] + ", " + what);
    o.nontrivial = true;
    return;
  }
  if (mode == M_TARGETS) {
    Files f = in;
    bool own = u < 0.5;
    Plan pl = s.plan;
    pl.randExtreme = 0;
    vector<string> av = {"genTargetLocations"};
    if (own) { av.push_back("-s"); av.push_back(std::to_string((int)(v * 10000))); }
    av.push_back(lsf);
    Proc p = exec(o, av, pl, f);
    if (abnormal(o, p, "genTargetLocations: ")) return;
    if (p.exitCode) { o.bad("failed run", "genTargetLocations: " + say(p)); return; }
    // header, drawing and list agree; targets are on the map and possible
    vector<string> L = lines(p.out);
    int num = -1;
    if (L.empty() || L[0].find("numTargets=") == string::npos) { o.bad("malformed targets", "first line: " + (L.empty() ? "" : L[0])); return; }
    num = atoi(L[0].c_str() + L[0].find("numTargets=") + 11);
    std::set<std::pair<int, int>> list;
    size_t sep = p.out.find("--");
    if (sep == string::npos) { o.bad("malformed targets", "no list"); return; }
    const char *c = p.out.c_str() + sep + 2;
    int n, x, y, cntL = 0;
    while (sscanf(c, " %d,%d%n", &x, &y, &n) == 2) { list.insert({x, y}); c += n; cntL++; }
    if (cntL != num || (int)list.size() != num) { o.bad("wrong targets", fmt("%d announced, %d listed", num, cntL)); return; }
    for (auto &t : list) {
      int r = S.at(t.first, t.second);
      if (r == NONE) { o.bad("wrong targets", fmt("(%d,%d) is not on the map", t.first, t.second)); return; }
      if (S.prior[r] == 0) { o.bad("wrong targets", fmt("(%d,%d) in a region without life", t.first, t.second)); return; }
    }
    for (int yy = 0; yy < S.H; yy++)
      for (int xx = 0; xx < S.W; xx++) {
        int r = S.at(xx, yy);
        if (r != NONE && S.prior[r] == 1 && !list.count({xx, yy})) { o.bad("wrong targets", fmt("(%d,%d) in a region full of life has none", xx, yy)); return; }
        // the drawing: rows from the top, behind a line of column numbers
        size_t li = 2 + (S.H - 1 - yy), ci = 2 + (yy % 2) + 2 * (xx - (yy + 1) / 2);
        if (xx < (yy + 1) / 2) continue;
        char want = r == NONE ? ' ' : list.count({xx, yy}) ? 'O' : '*';
        if (li >= L.size() || ci >= L[li].size() || L[li][ci] != want) { o.bad("wrong drawing", fmt("cell (%d,%d)", xx, yy)); return; }
      }
    if (v < 0.3) {   // frequencies: 80 surveys, each region at six sigma
      vector<double> hits(S.prior.size(), 0), cells(S.prior.size(), 0);
      for (int yy = 0; yy < S.H; yy++) for (int xx = 0; xx < S.W; xx++) if (S.at(xx, yy) != NONE) cells[S.at(xx, yy)] += 80;
      for (int i = 0; i < 80; i++) {
        Files h = in;
        Plan q = pl;
        q.randSeed = Rng(pl.randSeed * 1000 + i).next();
        Proc r = exec(o, {"genTargetLocations", "-s", std::to_string(i), lsf}, q, h);
        size_t e = r.out.find("--");
        if (e == string::npos) { o.bad("malformed targets", "no list"); return; }
        const char *d = r.out.c_str() + e + 2;
        while (sscanf(d, " %d,%d%n", &x, &y, &n) == 2) { if (S.at(x, y) != NONE) hits[S.at(x, y)]++; d += n; }
      }
      for (size_t r = 0; r < hits.size(); r++) {
        double sd = sqrt(cells[r] * S.prior[r] * (1 - S.prior[r]));
        if (fabs(hits[r] - cells[r] * S.prior[r]) > 6 * sd + 1) { o.bad("wrong frequency of targets", fmt("region %c: %g targets in %g cells, prior %g", (char)('a' + r), hits[r], cells[r], S.prior[r])); return; }
      }
      o.hit("target frequencies checked");
    }
    // the dump lists all cells
    Files f2 = in;
    Proc q = exec(o, {"dumpMap", lsf}, s.plan, f2);
    if (abnormal(o, q, "dumpMap: ")) return;
    string out = lsf.substr(0, lsf.size() - 11) + ".mapDump";
    if (q.exitCode || !f2.count(out)) { o.bad("failed run", "dumpMap: " + say(q)); return; }
    string want;
    for (int yy = 0; yy < S.H; yy++) for (int xx = 0; xx < S.W; xx++) if (S.at(xx, yy) != NONE) want += fmt("%d %d %d\n", xx, yy, S.at(xx, yy));
    if (f2[out] != want) { o.bad("wrong dump", "the map written is not the map read: " + f2[out].substr(0, 200)); return; }
    o.nontrivial = true;
    return;
  }
  if (mode == M_PATH) {
    in["d.pomdp"] = DUMMY;
    Files f = in;
    Proc p = exec(o, {"zmdp", "evaluate", "-f", "--policyType", "lspath", "--customModel", lsf, "-i", "1", "d.pomdp"}, s.plan, f);
    if (abnormal(o, p, "evaluate: ")) return;
    if (p.exitCode) { o.bad("failed run", "evaluate: " + say(p)); return; }
    PathOut P = readPath(p.out);
    if (!checkPath(S, P, o)) return;
    o.nontrivial = P.cells.size() > 1;
    return;
  }
  // the model
  vector<string> opt;
  if (s.p("tlist")) {
    S.targets = true;
    Rng g((uint64_t)(u * 1e9) + 5);
    string t = v < 0.5 ? "# targets\n" : "";
    for (int y = 0; y < S.H; y++) for (int x = 0; x < S.W; x++) if (g.chance(0.35)) { S.tset.insert({x, y}); t += fmt("%d %d\n", x, y); }
    in["t.targets"] = t;
    opt = {"-t", "t.targets"};
  }
  bool named = u < 0.4;
  string pomdp = named ? "my.pomdp" : lsf.substr(0, lsf.size() - 11) + ".pomdp";
  auto genArgv = [&](bool full) {
    vector<string> av = {"gen_LifeSurvey"};
    if (full) av.push_back(v < 0.5 ? "-f" : "--full");
    for (auto &x : opt) av.push_back(x == "-t" && v < 0.3 ? "--target-list" : x);
    av.push_back(lsf);
    if (named) av.push_back(pomdp);
    return av;
  };
  Files fn = in;
  Proc p = exec(o, genArgv(false), s.plan, fn);
  if (abnormal(o, p, "gen_LifeSurvey: ")) return;
  if (p.exitCode || !fn.count(pomdp)) { o.bad("failed run", "gen_LifeSurvey: " + say(p)); return; }
  if (fn[lsf] != in[lsf]) { o.bad("input changed", "gen_LifeSurvey changed its input"); return; }
  if (mode == M_MODEL) {
    Files ff = in;
    Plan pl = s.plan;
    pl.heapByte = (int)(w * 255);
    Proc q = exec(o, genArgv(true), pl, ff);
    if (abnormal(o, q, "gen_LifeSurvey -f: ")) return;
    if (q.exitCode || !ff.count(pomdp)) { o.bad("failed run", "gen_LifeSurvey -f: " + say(q)); return; }
    if (!compareGen(S, ff[pomdp], fn[pomdp], o)) return;
    o.nontrivial = true;
    return;
  }
  if (mode == M_FAULT) {
    Plan pl = s.plan;
    Fault x;
    x.act = A_ERR;
    static const int er[] = {ENOSPC, EIO, EDQUOT, EFBIG};
    x.arg = er[(int)(u * 4)];
    int kind = (int)(v * 6);
    string victim = pomdp;
    bool harmless = false;
    if (kind == 0) { x.cls = C_OPEN_W; }
    else if (kind == 1) { x.cls = C_WRITE; x.nth = 1 + (long)(w * p.cnt[C_WRITE]); x.sticky = u < 0.5; }
    else if (kind == 2) { x.cls = C_CLOSE; }
    else if (kind == 3) { x.cls = C_READ; x.arg = EIO; victim = S.targets && w < 0.5 ? "t.targets" : lsf; x.nth = 1; pl.chunkMax = u < 0.5 ? 40 : 0; if (pl.chunkMax) x.nth = 1 + (long)(w * (in[victim].size() / 40.0)); }
    else if (kind == 4) { x.cls = C_WRITE; x.act = A_SHORT; x.arg = 1 + (long)(w * 100); x.sticky = true; harmless = true; }
    else { pl.diskCapacity = (long)(in[lsf].size() + w * fn[pomdp].size()); }
    x.file = victim;
    if (kind != 5) pl.faults.push_back(x);
    static const char *nm[] = {"open", "write", "close", "read", "short writes", "disk space"};
    Files f = in;
    Proc q = exec(o, genArgv(false), pl, f);
    if (abnormal(o, q, "gen_LifeSurvey: ")) return;
    bool fired = kind == 5 || (q.faultFired.size() && q.faultFired[0]);
    bool same = f.count(pomdp) && f[pomdp] == fn[pomdp];
    if (fired) o.hit(string("failing ") + nm[kind]);
    o.nontrivial = fired;
    string what = fmt("failing %s of %s: ", nm[kind], victim.c_str());
    if (q.exitCode == 0) {
      if (!same) o.bad("silent damage", what + "the run ended successfully with another model");
      else if (fired && !harmless && kind != 5 && kind != 4) o.bad("error ignored", what + "the run ended successfully");
      return;
    }
    if (!fired || harmless) { o.bad("failed run", what + say(q)); return; }
    if (q.err.find("ERROR") == string::npos || q.err.find(victim) == string::npos) o.bad("failure not explained", what + q.err.substr(0, 300));
    return;
  }
  // following the heuristic in the generated model
  Plan pl = s.plan;
  int trials = 1 + (int)(u * 6), maxSteps = w < 0.2 ? 5 : 60;
  vector<string> av = {"zmdp", "evaluate", "-f", "--policyType", mode == M_BLIND ? "lsblind" : "lspath"};
  if (mode == M_POLICY || v < 0.5) { av.push_back("--customModel"); av.push_back(lsf); }
  for (const char *x : {"--simulationTracesToLogPerEpoch", "-1", "--simulationTraceOutputFile", "sim.plot", "--evaluationMaxStepsPerTrial"}) av.push_back(x);
  av.push_back(std::to_string(maxSteps));
  av.push_back("--useEvaluationCache");
  av.push_back(v < 0.6 ? "0" : "1");
  av.push_back("-i");
  av.push_back(std::to_string(trials));
  av.push_back(pomdp);
  Files f = fn;
  Proc q = exec(o, av, pl, f);
  if (abnormal(o, q, "evaluate: ")) return;
  PathOut P;
  if (mode == M_POLICY) {
    P = readPath(q.out);
    if (!checkPath(S, P, o)) return;
  }
  vector<SimTrace> tr;
  string why;
  bool noMoves = q.exitCode != 0 && q.err.find("there are no legal moves") != string::npos;
  if (q.exitCode && !noMoves) { o.bad("failed run", "evaluate: " + say(q)); return; }
  if (noMoves) {
    // possible only where such a cell can be reached
    std::map<string, St> all;
    allStates(S, 100000, all);
    bool dead = mode == M_POLICY && false;
    int ex = -1, ey = -1;
    size_t at = q.err.find("in pos (");
    if (at != string::npos) sscanf(q.err.c_str() + at, "in pos (%d,%d)", &ex, &ey);
    for (auto &x : all) {
      const St &t = x.second;
      if (t.x != ex || t.y != ey) continue;
      bool any = false;
      for (int d = 0; d < 3; d++) {
        int nx, ny;
        nb(t.x, t.y, d, nx, ny);
        if (S.at(nx, ny) != NONE && !sharp(t.dir, d)) any = true;
      }
      if (!any) dead = true;
    }
    if (!dead) o.bad("gave up", "no legal moves are claimed where there are some: " + q.err.substr(0, 200));
    o.hit("dead end");
    return;
  }
  if (!readSim(f["sim.plot"], tr, why)) { o.bad("malformed traces", why); return; }
  // names of the states, to follow the position
  Files ff = in;
  Proc gfull = exec(o, genArgv(true), s.plan, ff);
  Gen F;
  if (gfull.exitCode == 0) F = readGen(ff[pomdp], true);
  size_t stepsSeen = 0;
  if (tr.size() != (size_t)trials) { o.bad("wrong traces", fmt("%zu traces of %d trials", tr.size(), trials)); return; }
  for (size_t ti = 0; ti < tr.size(); ti++) {
    St k;
    vector<Tr> init;
    initial(S, init);
    if (init[0].s.x == -999) { if (!tr[ti].steps.empty()) o.bad("wrong traces", "steps after the end"); continue; }
    k = init[0].s;
    k.n[0] = k.n[1] = k.n[2] = 0;
    for (size_t i = 0; i < tr[ti].steps.size(); i++) {
      const SimStep &st = tr[ti].steps[i];
      stepsSeen++;
      // the belief agrees with the position
      for (auto &e : st.s) {
        if (e.first < 0 || e.first >= (int)F.states.size() || F.states[e.first] == "sterminal") continue;
        int x = 0, y = 0;
        sscanf(F.states[e.first].c_str(), "sx%dy%d", &x, &y);
        if (mode == M_POLICY && (x != k.x || y != k.y)) { o.bad("position lost", fmt("trial %zu step %zu: the model is in (%d,%d), not in (%d,%d)", ti + 1, i + 1, x, y, k.x, k.y)); return; }
      }
      int want;
      if (mode == M_BLIND) want = 4;
      else if (!k.used) want = 6;
      else {
        double best = -1e30;
        int bd = -1;
        bool target = false;
        for (int d = 0; d < 3; d++) {
          int nx, ny;
          nb(k.x, k.y, d, nx, ny);
          int c = S.at(nx, ny);
          if (c == NONE || sharp(k.dir, d)) continue;
          bool t = k.r[c] - '0' < 3 && k.n[d];
          double val = (t ? 10000 : 0) - 100.0 * pathDistance(P, nx, ny) + (d == 0 ? 2 : d == 2 ? 1 : 0);
          if (t) target = true;
          if (val > best) best = val, bd = d;
        }
        if (bd < 0) { o.bad("impossible move", fmt("trial %zu step %zu: there is no legal move from (%d,%d)", ti + 1, i + 1, k.x, k.y)); return; }
        want = (target ? 3 : 0) + bd;
      }
      if (st.a != want) { o.bad("heuristic not followed", fmt("trial %zu step %zu in (%d,%d): action %d instead of %d", ti + 1, i + 1, k.x, k.y, st.a, want)); return; }
      if (mode == M_BLIND) continue;
      vector<Tr> out;
      double rew;
      step(S, k, st.a, out, rew);
      if ((st.a == 6) != (st.o != 27)) { o.bad("wrong observation", fmt("trial %zu step %zu: action %d gave observation %d", ti + 1, i + 1, st.a, st.o)); return; }
      k = out[0].s;
      k.n[0] = k.n[1] = k.n[2] = 0;
      if (st.a == 6) {
        int dg[3] = {st.o / 9, st.o / 3 % 3, st.o % 3};
        for (int j = 0; j < 3; j++) k.n[j] = dg[j] == 2;
      }
      bool end = k.x == -999;
      if (end != (tr[ti].terminated && i + 1 == tr[ti].steps.size())) { o.bad("wrong end", fmt("trial %zu step %zu: the survey %s, the trial %s", ti + 1, i + 1, end ? "ends" : "goes on", end ? "goes on" : "ends")); return; }
    }
  }
  if (stepsSeen) o.nontrivial = true;
  o.hit("steps followed", stepsSeen);
}
}  // namespace
extern const Check checksSurvey[];
extern const int nChecksSurvey;
const Check checksSurvey[] = {
  {"C18", genC18, runC18, "non-trivial: a model compared, a path of two cells checked, steps followed, or a failure that took place; distinct: process results"},
};
const int nChecksSurvey = sizeof checksSurvey / sizeof *checksSurvey;
