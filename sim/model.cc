#include "model.h"
#include <math.h>
#include <functional>
#include <algorithm>
#include <deque>
#include <set>
using namespace sim;
using std::string;
using std::vector;

static string num(double x) {
  char b[64];
  snprintf(b, sizeof b, "%.10g", x);
  return b;
}

vector<bool> Model::terminalStates() const {
  vector<bool> t(S, true);
  for (int s = 0; s < S; s++)
    for (int a = 0; a < A; a++)
      if (T[a][s][s] != D || R[s][a] != 0) t[s] = false;
  return t;
}

double Model::scale() const {
  if (kind == K_CUSTOM) return 100.0 * customN;
  if (kind == K_RACE) return gamma < 1 ? 1 / (1 - gamma) : maxCost;
  double mx = 1;
  for (auto &r : R) for (int v : r) mx = std::max(mx, fabs(v / (double)rewardDen));
  if (horizon > 0) return mx * (horizon + 2);
  return gamma < 1 ? mx / (1 - gamma) : mx * 100;
}

string Model::ext() const {
  switch (kind) {
    case K_POMDP: return "m.pomdp";
    case K_MDP: return "m.mdp";
    case K_RACE: return "m.racetrack";
    default: return "custom";
  }
}

string Model::raceText() const {
  string r = "# generated\n";
  r += "discount " + num(gamma) + "\n";
  r += "errorProbability " + num(errPct / 100.0) + "\n";
  r += string("useErrorIsWind ") + (wind ? "1" : "0") + "\n";
  r += string("useMaxCost ") + (useMaxCost ? "1" : "0") + "\n";
  if (useMaxCost) r += "maxCost " + num(maxCost) + "\n";
  r += "---\n";
  for (auto &l : map) r += l + "\n";
  return r;
}

string Model::fastText() const {
  if (kind == K_RACE) return raceText();
  if (kind == K_CUSTOM) return "";
  string r = "# generated\n";
  r += "discount: " + num(gamma) + "\n";
  r += "values: reward\n";
  r += "states: " + num(S) + "\n";
  r += "actions: " + num(A) + "\n";
  if (kind == K_POMDP) r += "observations: " + num(O) + "\n";
  if (kind == K_POMDP) {
    r += "start:";
    for (int v : b0) r += " " + num(v / (double)D);
    r += "\n";
  } else r += "start: " + num(s0) + "\n";
  for (int a = 0; a < A; a++)
    for (int s = 0; s < S; s++)
      for (int sp = 0; sp < S; sp++)
        if (T[a][s][sp]) r += "T: " + num(a) + " : " + num(s) + " : " + num(sp) + " " + num(t(a, s, sp)) + "\n";
  if (kind == K_POMDP)
    for (int a = 0; a < A; a++)
      for (int sp = 0; sp < S; sp++)
        for (int o = 0; o < O; o++)
          if (Z[a][sp][o]) r += "O: " + num(a) + " : " + num(sp) + " : " + num(o) + " " + num(z(a, sp, o)) + "\n";
  for (int s = 0; s < S; s++)
    for (int a = 0; a < A; a++)
      if (R[s][a]) r += "R: " + num(a) + " : " + num(s) + (kind == K_POMDP ? " : * : * " : " : * ") + num(this->r(s, a)) + "\n";
  return r;
}

// The full language read by the default parser.  layoutSeed selects how each
// row is written; the meaning is the same.
string Model::cassandraText(uint64_t layoutSeed) const {
  if (kind == K_RACE || kind == K_CUSTOM || layoutSeed == 0) return fastText();
  Rng g(layoutSeed * 7919 + 13);
  bool cost = g.chance(0.2);
  bool names = g.chance(0.5);
  auto sn = [&](int s) { return names ? "st" + std::to_string(s) : std::to_string(s); };
  auto an = [&](int a) { return names ? "act" + std::to_string(a) : std::to_string(a); };
  auto on = [&](int o) { return names ? "ob" + std::to_string(o) : std::to_string(o); };
  auto list = [&](const char *h, int n, std::function<string(int)> f) {
    string r = h;
    if (names) for (int i = 0; i < n; i++) r += " " + f(i);
    else r += " " + std::to_string(n);
    return r + "\n";
  };
  vector<string> pre;
  pre.push_back("discount: " + num(gamma) + "\n");
  pre.push_back(string("values: ") + (cost ? "cost" : "reward") + "\n");
  pre.push_back(list("states:", S, sn));
  pre.push_back(list("actions:", A, an));
  if (kind == K_POMDP) pre.push_back(list("observations:", O, on));
  for (size_t i = pre.size(); i > 1; i--) std::swap(pre[i - 1], pre[g.below(i)]);
  string r;
  auto noise = [&]() {
    if (g.chance(0.1)) r += "# comment " + std::to_string(g.below(100)) + "\n";
    if (g.chance(0.1)) r += "\n";
  };
  for (auto &p : pre) { noise(); r += p; }
  if (kind == K_POMDP) {
    bool point = std::count(b0.begin(), b0.end(), D) == 1;
    bool uni = true;
    for (int v : b0) if (v != b0[0]) uni = false;
    string startName = point ? sn(std::find(b0.begin(), b0.end(), D) - b0.begin()) : "";
    // a number alone would be read as a belief with a single entry
    if (point && !isdigit((unsigned char)startName[0]) && g.chance(0.7)) r += "start: " + startName + "\n";
    else if (uni && g.chance(0.5)) r += "start: uniform\n";
    else {
      r += "start:";
      for (int v : b0) r += " " + num(v / (double)D);
      r += "\n";
    }
  } else r += "start: " + sn(s0) + "\n";
  noise();
  auto row = [&](const vector<int> &v) {
    string q;
    for (size_t i = 0; i < v.size(); i++) q += (i ? " " : "") + num(v[i] / (double)D);
    return q + "\n";
  };
  auto isUniform = [&](const vector<int> &v) {
    for (int x : v) if (x != v[0]) return false;
    return D % (int)v.size() == 0 && v[0] == D / (int)v.size();
  };
  auto table = [&](char c, const vector<vector<vector<int>>> &M, std::function<string(int)> col) {
    // identical for every action?
    bool same = true;
    for (int a = 1; a < A; a++) if (M[a] != M[0]) same = false;
    int na = same && g.chance(0.6) ? 1 : A;
    for (int a = 0; a < na; a++) {
      string as = na == 1 && A > 1 ? "*" : an(a);
      bool ident = M[a].size() == M[a][0].size();
      if (ident)
        for (size_t i = 0; i < M[a].size(); i++) if (M[a][i][i] != D) ident = false;
      bool uni = true;
      for (auto &x : M[a]) if (!isUniform(x)) uni = false;
      noise();
      int form = g.below(4);
      if (ident && c == 'T' && g.chance(0.7)) { r += string(1, c) + ": " + as + "\nidentity\n"; continue; }
      if (uni && g.chance(0.7)) { r += string(1, c) + ": " + as + "\nuniform\n"; continue; }
      if (form == 0) {
        r += string(1, c) + ": " + as + "\n";
        for (auto &x : M[a]) r += row(x);
        continue;
      }
      for (size_t s = 0; s < M[a].size(); s++) {
        noise();
        if (form == 1) { r += string(1, c) + ": " + as + " : " + sn(s) + "\n" + row(M[a][s]); continue; }
        bool wildrow = true;
        for (int v : M[a][s]) if (v != M[a][s][0]) wildrow = false;
        if (form == 2 && wildrow && M[a][s][0]) { r += string(1, c) + ": " + as + " : " + sn(s) + " : * " + num(M[a][s][0] / (double)D) + "\n"; continue; }
        for (size_t k = 0; k < M[a][s].size(); k++)
          if (M[a][s][k]) r += string(1, c) + ": " + as + " : " + sn(s) + " : " + col(k) + " " + num(M[a][s][k] / (double)D) + "\n";
      }
    }
  };
  table('T', T, sn);
  if (kind == K_POMDP) table('O', Z, on);
  string tail = kind == K_POMDP ? " : * : * " : " : * ";
  for (int a = 0; a < A; a++) {
    bool all = true;
    for (int s = 1; s < S; s++) if (R[s][a] != R[0][a]) all = false;
    noise();
    double sg = cost ? -1 : 1;
    if (all && R[0][a] && g.chance(0.7)) {
      r += "R: " + an(a) + " : *" + tail + num(sg * this->r(0, a)) + "\n";
      continue;
    }
    for (int s = 0; s < S; s++)
      if (R[s][a]) r += "R: " + an(a) + " : " + sn(s) + tail + num(sg * this->r(s, a)) + "\n";
  }
  return r;
}

static Json vv(const vector<vector<int>> &v) { Json j = Json::arr(); for (auto &x : v) j.push(Json::arrOf(x)); return j; }
static vector<int> ivec(const Json &j) { vector<int> v; for (auto &x : j.a) v.push_back((int)x.integer()); return v; }
static vector<vector<int>> ivv(const Json &j) { vector<vector<int>> v; for (auto &x : j.a) v.push_back(ivec(x)); return v; }

Json Model::toJson() const {
  Json j = Json::obj();
  j.set("kind", (int)kind).set("family", family).set("gamma", gamma);
  if (kind == K_CUSTOM) { j.set("customN", customN); return j; }
  if (kind == K_RACE) {
    j.set("map", Json::arrOf(map)).set("errPct", errPct).set("wind", wind).set("useMaxCost", useMaxCost).set("maxCost", maxCost);
    return j;
  }
  j.set("S", S).set("A", A).set("O", O).set("D", D).set("horizon", horizon);
  Json jt = Json::arr(), jz = Json::arr();
  for (auto &x : T) jt.push(vv(x));
  for (auto &x : Z) jz.push(vv(x));
  j.set("T", jt).set("Z", jz).set("R", vv(R)).set("rewardDen", rewardDen).set("b0", Json::arrOf(b0)).set("s0", s0);
  return j;
}
Model Model::fromJson(const Json &j) {
  Model m;
  m.kind = (Kind)j["kind"].integer();
  m.family = j["family"].s;
  m.gamma = j["gamma"].num();
  if (m.kind == K_CUSTOM) { m.customN = j["customN"].integer(); m.A = 2; return m; }
  if (m.kind == K_RACE) {
    for (auto &x : j["map"].a) m.map.push_back(x.s);
    m.errPct = j["errPct"].integer(); m.wind = j["wind"].b; m.useMaxCost = j["useMaxCost"].b; m.maxCost = j["maxCost"].integer();
    m.A = 9;
    return m;
  }
  m.S = j["S"].integer(); m.A = j["A"].integer(); m.O = j["O"].integer(); m.D = j["D"].integer();
  m.horizon = j["horizon"].integer();
  for (auto &x : j["T"].a) m.T.push_back(ivv(x));
  for (auto &x : j["Z"].a) m.Z.push_back(ivv(x));
  m.R = ivv(j["R"]); m.rewardDen = j["rewardDen"].integer(); m.b0 = ivec(j["b0"]); m.s0 = j["s0"].integer();
  return m;
}

// ------------------------------------------------------------ generators
// a random distribution over `n` items in multiples of 1/D with `k` non-zeros
static vector<int> dist(Rng &g, int n, int D, double sparsity) {
  vector<int> v(n, 0);
  int k = 1;
  while (k < n && !g.chance(sparsity)) k++;
  vector<int> idx(n);
  for (int i = 0; i < n; i++) idx[i] = i;
  for (int i = n; i > 1; i--) std::swap(idx[i - 1], idx[g.below(i)]);
  k = std::min(k, D);
  int left = D;
  for (int i = 0; i < k; i++) {
    int x = i == k - 1 ? left : 1 + (int)g.below(std::max(1, left - (k - 1 - i)));
    if (i < k - 1) x = std::min(x, left - (k - 1 - i));
    v[idx[i]] = x;
    left -= x;
  }
  return v;
}
static int pickD(Rng &g) { static const int d[] = {2, 4, 10, 20, 20, 100}; return d[g.below(6)]; }
static double pickGamma(Rng &g, bool big) {
  static const double a[] = {0.5, 0.7, 0.8, 0.9, 0.95, 0.95, 0.99};
  if (g.chance(0.03)) { static const double small[] = {0, 0.01, 0.1, 0.3}; return small[g.below(4)]; }
  return a[g.below(big ? 7 : 6)];
}
static void rewards(Rng &g, Model &m, const vector<bool> &zero) {
  m.rewardDen = g.chance(0.3) ? (g.chance(0.5) ? 2 : 10) : 1;
  int style = g.below(4);  // mixed, negative, positive, sparse goal
  int mag = g.chance(0.2) ? 100 : 10;
  m.R.assign(m.S, vector<int>(m.A, 0));
  for (int s = 0; s < m.S; s++)
    for (int a = 0; a < m.A; a++) {
      if (zero[s]) continue;
      int v = g.range(0, mag);
      if (style == 0) v = g.range(-mag, mag);
      if (style == 1) v = -v;
      if (style == 3) v = g.chance(0.3) ? g.range(-mag, mag) : (g.chance(0.5) ? -1 : 0);
      m.R[s][a] = v * m.rewardDen + (m.rewardDen > 1 ? g.range(0, m.rewardDen - 1) : 0);
    }
}

// States sit in layers; every action moves to the next layer or to the
// absorbing zero-reward goal, so that every run of the model ends.
Model genDeepLayered(Rng &g) { return genLayered(g, 0, g.range(2, 4), 0, 0); }
// maxLayers 0: many reachable beliefs
Model genLayered(Rng &g, int maxLayers, int maxWidth, int maxA, int maxO) {
  Model m;
  bool deep = maxLayers == 0;
  int minLayers = 2;
  if (deep) {
    switch (g.below(4)) {
      case 0: case 1: maxA = 2; maxO = 2; minLayers = 4; maxLayers = 6; break;
      case 2: maxA = g.chance(0.5) ? 2 : 3; maxO = 5 - maxA; minLayers = 4; maxLayers = 5; break;
      default: maxA = 3; maxO = 3; minLayers = 3; maxLayers = 4;
    }
  }
  m.kind = K_POMDP;
  m.family = "layered";
  m.D = pickD(g);
  int H = g.range(minLayers, maxLayers);
  vector<vector<int>> layer(H);
  m.S = 0;
  for (int l = 0; l < H; l++) {
    int w = g.range(deep && maxWidth > 1 ? 2 : 1, maxWidth);
    for (int i = 0; i < w; i++) layer[l].push_back(m.S++);
  }
  int term = m.S++;
  m.A = g.range(1, maxA);
  if (m.A == 1 && g.chance(0.7)) m.A = 2;
  if (m.A > maxA) m.A = maxA;
  m.O = deep ? maxO : g.range(1, maxO);
  if (deep) m.A = maxA;
  // permute state numbers so that the goal and the start are anywhere
  vector<int> perm(m.S);
  for (int i = 0; i < m.S; i++) perm[i] = i;
  if (g.chance(0.6)) for (int i = m.S; i > 1; i--) std::swap(perm[i - 1], perm[g.below(i)]);
  m.T.assign(m.A, vector<vector<int>>(m.S, vector<int>(m.S, 0)));
  m.Z.assign(m.A, vector<vector<int>>(m.S, vector<int>(m.O, 0)));
  double sp = g.chance(0.3) ? 0.8 : 0.3, so = g.chance(0.3) ? 0.9 : 0.25;
  if (deep) { sp = g.chance(0.3) ? 0.5 : 0.15; so = g.chance(0.2) ? 0.5 : 0.15; }
  double pEnd = g.chance(0.5) ? 0.0 : 0.2;
  for (int a = 0; a < m.A; a++) {
    for (int l = 0; l < H; l++)
      for (int s : layer[l]) {
        vector<int> to = l + 1 < H ? layer[l + 1] : vector<int>();
        if (to.empty() || g.chance(pEnd)) to.push_back(term);
        auto d = dist(g, to.size(), m.D, sp);
        for (size_t i = 0; i < to.size(); i++) m.T[a][perm[s]][perm[to[i]]] = d[i];
      }
    m.T[a][perm[term]][perm[term]] = m.D;
    for (int s = 0; s < m.S; s++) m.Z[a][s] = dist(g, m.O, m.D, so);
  }
  if (g.chance(0.3))  // sensors that do not depend on the action
    for (int a = 1; a < m.A; a++) m.Z[a] = m.Z[0];
  if (m.O > 1 && g.chance(0.3)) {  // the goal is recognised
    for (int a = 0; a < m.A; a++) {
      vector<int> e(m.O, 0);
      e[m.O - 1] = m.D;
      m.Z[a][perm[term]] = e;
    }
  }
  vector<bool> zero(m.S, false);
  zero[perm[term]] = true;
  rewards(g, m, zero);
  m.b0.assign(m.S, 0);
  auto d = dist(g, layer[0].size(), m.D, 0.3);
  for (size_t i = 0; i < layer[0].size(); i++) m.b0[perm[layer[0][i]]] = d[i];
  m.horizon = H;
  m.gamma = g.chance(0.25) ? 1.0 : pickGamma(g, true);
  return m;
}

// Infinite-horizon POMDPs with a finite set of reachable beliefs
// a long way to the goal; what happens at the end matters at the start
Model genLong(Rng &g, bool mdp) {
  Model m;
  m.kind = mdp ? K_MDP : K_POMDP;
  m.family = mdp ? "long-mdp" : "long";
  m.D = 20;
  int H = g.range(15, g.chance(0.3) ? 70 : 40), w = g.range(1, 2);
  m.S = H * w + 1;
  m.A = 2 + (w == 1 && g.chance(0.3));
  m.O = mdp ? 0 : w;
  int term = m.S - 1;
  m.T.assign(m.A, vector<vector<int>>(m.S, vector<int>(m.S, 0)));
  m.R.assign(m.S, vector<int>(m.A, 0));
  double slip = g.chance(0.5) ? 0.3 : 0;
  for (int a = 0; a < m.A; a++)
    for (int s = 0; s < m.S; s++) {
      auto &r = m.T[a][s];
      int l = s / w;
      if (s == term) { r[term] = m.D; continue; }
      if (l == H - 1) { r[term] = m.D; continue; }
      // from each place one action stays on the current line, the others may change it
      int same = (l + 1) * w + s % w, other = (l + 1) * w + (s + 1) % w;
      int p = w == 1 || !g.chance(slip + 0.1) ? m.D : g.range(1, m.D - 1);
      if (a == 0) { r[same] += p; r[other] += m.D - p; }
      else { r[other] += p; r[same] += m.D - p; }
      m.R[s][a] = g.chance(0.3) ? -g.range(0, 3) : 0;
    }
  for (int s = (H - 1) * w; s < term; s++) for (int a = 0; a < m.A; a++) m.R[s][a] = g.range(-30, 30);
  if (!mdp) {
    m.Z.assign(m.A, vector<vector<int>>(m.S, vector<int>(m.O, 0)));
    for (int a = 0; a < m.A; a++) for (int s = 0; s < m.S; s++) m.Z[a][s][s == term ? 0 : s % w] = m.D;
    m.b0.assign(m.S, 0);
    m.b0[0] = w == 1 ? m.D : g.range(1, m.D);
    if (w > 1) m.b0[1] = m.D - m.b0[0];
  } else m.s0 = 0;
  m.horizon = H;
  static const double ga[] = {0.95, 0.98, 0.99, 1.0};
  m.gamma = ga[g.below(4)];
  return m;
}

Model genFiniteBelief(Rng &g) {
  Model m;
  m.kind = K_POMDP;
  m.D = pickD(g);
  m.S = g.range(2, 5);
  m.A = g.range(2, 3);
  m.gamma = pickGamma(g, false);
  int style = g.below(3);
  m.T.assign(m.A, vector<vector<int>>(m.S, vector<int>(m.S, 0)));
  if (style == 0) {
    m.family = "deterministic";  // unknown start, deterministic motion and sensing
    m.O = g.range(1, 3);
    for (int a = 0; a < m.A; a++)
      for (int s = 0; s < m.S; s++) m.T[a][s][g.below(m.S)] = m.D;
    m.Z.assign(m.A, vector<vector<int>>(m.S, vector<int>(m.O, 0)));
    for (int a = 0; a < m.A; a++)
      for (int s = 0; s < m.S; s++) m.Z[a][s][g.below(m.O)] = m.D;
  } else {
    m.family = style == 1 ? "observed" : "observed-goal";  // the state is seen after every move
    m.O = m.S;
    for (int a = 0; a < m.A; a++)
      for (int s = 0; s < m.S; s++) m.T[a][s] = dist(g, m.S, m.D, 0.4);
    m.Z.assign(m.A, vector<vector<int>>(m.S, vector<int>(m.O, 0)));
    for (int a = 0; a < m.A; a++)
      for (int s = 0; s < m.S; s++) m.Z[a][s][s] = m.D;
  }
  vector<bool> zero(m.S, false);
  if (style == 2 || (style == 0 && g.chance(0.5))) {
    int t = g.below(m.S);
    zero[t] = true;
    for (int a = 0; a < m.A; a++) { m.T[a][t].assign(m.S, 0); m.T[a][t][t] = m.D; }
  }
  rewards(g, m, zero);
  m.b0 = dist(g, m.S, m.D, 0.3);
  return m;
}

Model genTwoState(Rng &g) {
  Model m;
  m.kind = K_POMDP;
  m.family = "two-state";
  m.D = g.chance(0.5) ? 20 : pickD(g);
  m.S = 2;
  m.A = g.range(2, 3);
  m.O = g.range(2, 3);
  m.gamma = pickGamma(g, false);
  m.T.assign(m.A, vector<vector<int>>(2));
  m.Z.assign(m.A, vector<vector<int>>(2));
  for (int a = 0; a < m.A; a++)
    for (int s = 0; s < 2; s++) {
      m.T[a][s] = dist(g, 2, m.D, 0.2);
      m.Z[a][s] = dist(g, m.O, m.D, 0.2);
      if (g.chance(0.2)) { m.T[a][s].assign(2, 0); m.T[a][s][s] = m.D; }
    }
  rewards(g, m, vector<bool>(2, false));
  m.b0 = dist(g, 2, m.D, 0.2);
  return m;
}

Model genGeneral(Rng &g, int maxS) {
  Model m;
  m.kind = K_POMDP;
  m.family = "general";
  m.D = pickD(g);
  m.S = g.range(3, maxS);
  m.A = g.range(2, 3);
  m.O = g.range(2, 3);
  m.gamma = pickGamma(g, false);
  m.T.assign(m.A, vector<vector<int>>(m.S));
  m.Z.assign(m.A, vector<vector<int>>(m.S));
  vector<bool> zero(m.S, false);
  int t = g.chance(0.5) ? (int)g.below(m.S) : -1;
  for (int a = 0; a < m.A; a++)
    for (int s = 0; s < m.S; s++) {
      m.T[a][s] = dist(g, m.S, m.D, 0.5);
      m.Z[a][s] = dist(g, m.O, m.D, 0.3);
      if (s == t) { m.T[a][s].assign(m.S, 0); m.T[a][s][s] = m.D; }
    }
  if (t >= 0) zero[t] = true;
  rewards(g, m, zero);
  m.b0 = dist(g, m.S, m.D, 0.2);
  return m;
}

Model genMdp(Rng &g) {
  Model m;
  m.kind = K_MDP;
  m.family = "mdp";
  m.D = pickD(g);
  m.S = g.range(2, 9);
  m.A = g.range(1, 4);
  m.gamma = pickGamma(g, false);
  m.T.assign(m.A, vector<vector<int>>(m.S));
  int t = g.chance(0.7) ? (int)g.below(m.S) : -1;
  vector<bool> zero(m.S, false);
  for (int a = 0; a < m.A; a++)
    for (int s = 0; s < m.S; s++) {
      m.T[a][s] = dist(g, m.S, m.D, 0.5);
      if (s == t) { m.T[a][s].assign(m.S, 0); m.T[a][s][s] = m.D; }
    }
  if (t >= 0) zero[t] = true;
  rewards(g, m, zero);
  m.s0 = g.below(m.S);
  if (m.s0 == t) m.s0 = (t + 1) % m.S;
  return m;
}

Model genLayeredMdp(Rng &g) {
  Model p = genLayered(g, 5, 3, 3, 1);
  Model m = p;
  m.kind = K_MDP;
  m.family = "layered-mdp";
  m.O = 0;
  m.Z.clear();
  m.s0 = std::max_element(p.b0.begin(), p.b0.end()) - p.b0.begin();
  m.b0.clear();
  return m;
}

Model genCustom(Rng &g) {
  Model m;
  m.kind = K_CUSTOM;
  m.family = "custom";
  m.customN = g.range(2, 12);
  m.A = 2;
  m.gamma = 1;
  return m;
}

Model genRace(Rng &g) {
  for (int tries = 0;; tries++) {
    Model m;
    m.kind = K_RACE;
    m.family = "racetrack";
    m.A = 9;
    int w = g.range(5, 8), h = g.range(4, 6);
    m.map.assign(h, string(w, '@'));
    for (int y = 1; y < h - 1; y++)
      for (int x = 1; x < w - 1; x++) m.map[y][x] = g.chance(0.15) ? '@' : ' ';
    int ns = g.range(1, 2), nf = g.range(1, 3);
    for (int i = 0; i < ns; i++) m.map[g.range(1, h - 2)][1] = 's';
    for (int i = 0; i < nf; i++) m.map[g.range(1, h - 2)][w - 2] = 'f';
    m.errPct = g.chance(0.3) ? 0 : g.range(1, 4) * 10;
    m.wind = g.chance(0.4);
    if (g.chance(0.5)) {
      static const double ga[] = {0.9, 0.95, 0.8, 0.05};
      m.gamma = ga[g.chance(0.05) ? 3 : g.below(3)];
      m.useMaxCost = false;
    } else {
      m.gamma = 1;
      m.useMaxCost = true;
      m.maxCost = 1000;
    }
    // the finish line must be reachable within the cost limit
    Model probe = m;
    probe.gamma = 1;
    probe.useMaxCost = true;
    Ref r;
    if (!r.build(probe, 4000)) continue;
    double worst = 0;
    for (auto &n : r.nodes) worst = std::max(worst, -n.V);
    if (worst > 300) continue;
    if (m.gamma == 1) m.maxCost = g.chance(0.5) ? 1000 : (int)ceil(worst) + 2 + g.below(20);
    return m;
  }
}

// ------------------------------------------------------------ reference
string keyOf(const Sparse &s) {
  string k;
  char b[40];
  for (auto &e : s) {
    long q = lround(e.second * 1e7);
    if (q == 0 && e.first != 0) continue;
    if (q == 0) continue;
    snprintf(b, sizeof b, "%d:%ld ", e.first, q);
    k += b;
  }
  return k;
}

bool beliefTerminal(const Model &m, const Sparse &b) {
  auto t = m.terminalStates();
  double x = 0;
  for (auto &e : b) if (!t[e.first]) x += e.second;
  return x < 1e-10;
}
double beliefReward(const Model &m, const Sparse &b, int a) {
  double x = 0;
  for (auto &e : b) x += e.second * m.r(e.first, a);
  return x;
}
double obsProb(const Model &m, const Sparse &b, int a, int o, Sparse *next) {
  vector<double> v(m.S, 0);
  for (auto &e : b)
    for (int sp = 0; sp < m.S; sp++)
      if (m.T[a][e.first][sp]) v[sp] += e.second * m.t(a, e.first, sp);
  double p = 0;
  for (int sp = 0; sp < m.S; sp++) { v[sp] *= m.z(a, sp, o); p += v[sp]; }
  if (next) {
    next->clear();
    if (p > 0)
      for (int sp = 0; sp < m.S; sp++)
        if (v[sp] / p > 1e-10) next->push_back({sp, v[sp] / p});
  }
  return p;
}

// ---- race track geometry: the open segment between two cell centres, in
// order; a cell counts when the segment passes through its interior.
namespace {
struct Cell { int x, y; double t; };
vector<Cell> cellsOnSegment(int x0, int y0, int dx, int dy) {
  // work in doubled coordinates: cell (i,j) is the open square
  // (2i-1,2i+1) x (2j-1,2j+1); the segment goes from (2x0,2y0)
  vector<Cell> r;
  int xa = std::min(x0, x0 + dx), xb = std::max(x0, x0 + dx);
  int ya = std::min(y0, y0 + dy), yb = std::max(y0, y0 + dy);
  for (int x = xa; x <= xb; x++)
    for (int y = ya; y <= yb; y++) {
      // intersect t in [0,1] with the open square, exactly (rationals)
      // lower bound ln/ld, upper bound un/ud, strict unless clamped
      double lo = -1e9, hi = 1e9;
      bool ok = true;
      auto clip = [&](int p, int d, int c) {
        // 2c-1 < 2p + 2 d t < 2c+1
        if (d == 0) { if (p != c) ok = false; return; }
        double a = (2.0 * (c - p) - 1) / (2.0 * d), b = (2.0 * (c - p) + 1) / (2.0 * d);
        if (a > b) std::swap(a, b);
        lo = std::max(lo, a);
        hi = std::min(hi, b);
      };
      clip(x0, dx, x);
      clip(y0, dy, y);
      if (!ok) continue;
      double l = std::max(lo, 0.0), h = std::min(hi, 1.0);
      if (lo < 0 && hi > 0 && dx == 0 && dy == 0) { r.push_back({x, y, 0}); continue; }
      if (dx == 0 && dy == 0) { r.push_back({x, y, 0}); continue; }
      if (h - l > 1e-9) r.push_back({x, y, (l + h) / 2});
    }
  std::sort(r.begin(), r.end(), [](const Cell &a, const Cell &b) { return a.t < b.t; });
  return r;
}
// 0 clear, 1 finish, 2 crash
int moveKind(const Model &m, int x, int y, int vx, int vy) {
  for (auto &c : cellsOnSegment(x, y, vx, vy)) {
    bool in = c.y >= 0 && c.y < (int)m.map.size() && c.x >= 0 && c.x < (int)m.map[0].size();
    char ch = in ? m.map[c.y][c.x] : '@';
    if (ch == 'f') return 1;
    if (ch == '@') return 2;
  }
  return 0;
}
}  // namespace

static Sparse mk(std::initializer_list<double> v) {
  Sparse s;
  int i = 0;
  for (double x : v) { if (x != 0) s.push_back({i, x}); i++; }
  return s;
}

bool Ref::build(const Model &mm, int maxNodes) {
  m = &mm;
  nodes.clear();
  index.clear();
  lines.clear();
  closed = twoState = false;
  const Model &M = mm;
  vmax = M.scale();
  double merge = 0;
  std::deque<int> todo;
  auto get = [&](const Sparse &s) {
    string k = keyOf(s);
    auto it = index.find(k);
    if (it != index.end()) {
      // (nearly) equal states are one node: how far apart were they?
      const Sparse &b = nodes[it->second].s;
      double d = 0;
      size_t x = 0, y = 0;
      while (x < s.size() || y < b.size()) {
        if (y >= b.size() || (x < s.size() && s[x].first < b[y].first)) d += fabs(s[x++].second);
        else if (x >= s.size() || b[y].first < s[x].first) d += fabs(b[y++].second);
        else { d += fabs(s[x].second - b[y].second); x++; y++; }
      }
      merge = std::max(merge, d);
      return it->second;
    }
    int i = nodes.size();
    nodes.emplace_back();
    nodes[i].s = s;
    index[k] = i;
    todo.push_back(i);
    return i;
  };
  auto stateOf = [&](int s) { return M.kind == K_MDP || M.kind == K_CUSTOM ? mk({(double)s}) : Sparse(); };
  Sparse init;
  if (M.kind == K_POMDP) { for (int s = 0; s < M.S; s++) if (M.b0[s]) init.push_back({s, M.b0[s] / (double)M.D}); }
  else if (M.kind == K_MDP) init = stateOf(M.s0);
  else if (M.kind == K_CUSTOM) init = stateOf(0);
  else init = mk({-1});
  get(init);
  vector<bool> term;
  if (M.kind == K_POMDP || M.kind == K_MDP) term = M.terminalStates();
  bool over = false;
  while (!todo.empty()) {
    if ((int)nodes.size() > maxNodes) { over = true; break; }
    int i = todo.front();
    todo.pop_front();
    Sparse s = nodes[i].s;
    vector<double> rew(M.A, 0);
    vector<vector<RefEdge>> succ(M.A);
    bool terminal = false;
    if (M.kind == K_POMDP) {
      terminal = true;
      for (auto &e : s) if (!term[e.first]) terminal = false;
      for (int a = 0; a < M.A; a++) {
        rew[a] = beliefReward(M, s, a);
        for (int o = 0; o < M.O; o++) {
          Sparse n;
          double p = obsProb(M, s, a, o, &n);
          if (p > 1e-10) { int k = get(n); succ[a].push_back({k, p, o}); }
        }
      }
    } else if (M.kind == K_MDP) {
      int st = s.empty() ? 0 : (int)lround(s[0].second);
      terminal = term[st];
      for (int a = 0; a < M.A; a++) {
        rew[a] = M.r(st, a);
        int oi = 0;
        for (int sp = 0; sp < M.S; sp++)
          if (M.T[a][st][sp]) { int k = get(stateOf(sp)); succ[a].push_back({k, M.t(a, st, sp), oi++}); }
      }
    } else if (M.kind == K_CUSTOM) {
      int st = s.empty() ? 0 : (int)lround(s[0].second);
      terminal = st == M.customN - 1;
      for (int a = 0; a < 2; a++) {
        rew[a] = terminal ? 0 : -1;
        if (terminal) { succ[a].push_back({i, 1, 0}); continue; }
        if (a == 0 && st == 0) { succ[a].push_back({i, 1, 0}); continue; }
        int k = get(stateOf(st + (a ? 1 : -1)));
        succ[a].push_back({k, 0.9, 0});
        succ[a].push_back({i, 0.1, 1});
      }
    } else {
      vector<double> d(4, 0);
      for (auto &e : s) d[e.first] = e.second;
      int x = lround(d[0]), y = lround(d[1]), vx = lround(d[2]), vy = lround(d[3]);
      terminal = x == -2;
      for (int a = 0; a < 9; a++) {
        if (terminal) { succ[a].push_back({i, 1, 0}); continue; }
        if (x == -1) {
          rew[a] = M.gamma < 1 ? -1 : 0;
          vector<std::pair<int, int>> st;
          for (size_t yy = 0; yy < M.map.size(); yy++)
            for (size_t xx = 0; xx < M.map[yy].size(); xx++)
              if (M.map[yy][xx] == 's') st.push_back({(int)xx, (int)yy});
          for (size_t q = 0; q < st.size(); q++) {
            int k = get(mk({(double)st[q].first, (double)st[q].second, 0, 0}));
            succ[a].push_back({k, 1.0 / st.size(), (int)q});
          }
          continue;
        }
        rew[a] = -1;
        int ax = a / 3 - 1, ay = a % 3 - 1;
        double pe = M.errPct / 100.0, pf = 0, pc = 0;
        auto outcome = [&](int bx, int by, double p, int o) {
          if (p <= 0) return;
          int k = moveKind(M, x, y, vx + bx, vy + by);
          if (k == 1) pf += p;
          else if (k == 2) pc += p;
          else {
            int n = get(mk({(double)(x + vx + bx), (double)(y + vy + by), (double)(vx + bx), (double)(vy + by)}));
            succ[a].push_back({n, p, o});
          }
        };
        outcome(ax, ay, 1 - pe, 0);
        if (M.wind) {
          static const int wx[] = {-1, -1, -1, 0, 0, 1, 1, 1}, wy[] = {-1, 0, 1, -1, 1, -1, 0, 1};
          for (int q = 0; q < 8; q++) outcome(ax + wx[q], ay + wy[q], pe / 8, 3 + q);
        } else outcome(0, 0, pe, 3);
        if (pf > 0) { int n = get(mk({-2})); succ[a].push_back({n, pf, 1}); }
        if (pc > 0) { int n = get(mk({-1})); succ[a].push_back({n, pc, 2}); }
      }
    }
    nodes[i].rew = rew;
    nodes[i].succ = succ;
    nodes[i].terminal = terminal;
  }
  if (!over && M.kind == K_POMDP && M.S == 2 && M.gamma < 1 && merge > 1e-11) over = true;   // use the exact method below
  if (!over) {
    closed = solve();
    err += 2 * merge * vmax * (M.gamma < 1 ? 1 / (1 - M.gamma) : std::max(1, M.horizon));
    return closed;
  }
  nodes.clear();
  index.clear();
  if (M.kind == K_POMDP && M.S == 2 && M.gamma < 1) {
    // exact value iteration on the interval: V is an upper envelope of lines
    typedef std::pair<double, double> L;  // c0 + c1 * p  (p = P(state 1))
    auto envelope = [](vector<L> v) {
      std::sort(v.begin(), v.end(), [](const L &a, const L &b) { return a.second < b.second || (a.second == b.second && a.first > b.first); });
      vector<L> h;
      for (auto &l : v) {
        // (nearly) parallel lines have no meaningful crossing: keep the higher one
        if (!h.empty() && l.second - h.back().second < 1e-11 && l.first <= h.back().first) continue;
        for (;;) {
          if (h.empty()) break;
          if (l.second - h.back().second < 1e-11) { h.pop_back(); continue; }
          // where l overtakes the last line
          double x1 = (h.back().first - l.first) / (l.second - h.back().second);
          if (h.size() == 1) { if (x1 <= 0) { h.pop_back(); continue; } break; }
          auto &p = h[h.size() - 2];
          double x0 = (p.first - h.back().first) / (h.back().second - p.second);
          if (x1 <= x0 + 1e-13) { h.pop_back(); continue; }
          break;
        }
        if (!h.empty()) {
          double x1 = (h.back().first - l.first) / (l.second - h.back().second);
          if (x1 >= 1) continue;
        }
        h.push_back(l);
      }
      return h;
    };
    double rmin = 1e300, rmax = -1e300;
    for (auto &x : M.R) for (int v : x) { rmin = std::min(rmin, v / (double)M.rewardDen); rmax = std::max(rmax, v / (double)M.rewardDen); }
    vector<L> V = {{rmin / (1 - M.gamma), 0}};
    double gap = (rmax - rmin) / (1 - M.gamma);
    double target = 1e-7 * std::max(1.0, vmax);
    while (gap > target) {
      vector<L> all;
      for (int a = 0; a < M.A; a++) {
        // sum over observations of envelopes, by merging breakpoints
        vector<vector<L>> g;
        for (int o = 0; o < M.O; o++) {
          vector<L> t;
          for (auto &l : V) {
            double al0 = l.first, al1 = l.first + l.second;  // value at state 0 / 1
            double c[2];
            for (int s = 0; s < 2; s++)
              c[s] = M.t(a, s, 0) * M.z(a, 0, o) * al0 + M.t(a, s, 1) * M.z(a, 1, o) * al1;
            t.push_back({c[0], c[1] - c[0]});
          }
          g.push_back(envelope(t));
        }
        vector<double> bp = {0, 1};
        for (auto &e : g)
          for (size_t i = 0; i + 1 < e.size(); i++) {
            double x = (e[i].first - e[i + 1].first) / (e[i + 1].second - e[i].second);
            if (x > 0 && x < 1) bp.push_back(x);
          }
        std::sort(bp.begin(), bp.end());
        vector<size_t> pos(g.size(), 0);
        for (size_t i = 0; i + 1 < bp.size(); i++) {
          if (bp[i + 1] - bp[i] < 1e-13) continue;
          double mid = (bp[i] + bp[i + 1]) / 2;
          L sum = {M.r(0, a), M.r(1, a) - M.r(0, a)};
          for (size_t o = 0; o < g.size(); o++) {
            for (size_t k = pos[o] + 1; k < g[o].size() && k < pos[o] + 4; k++)
              if (g[o][k].first + g[o][k].second * mid > g[o][pos[o]].first + g[o][pos[o]].second * mid) pos[o] = k;
            sum.first += M.gamma * g[o][pos[o]].first;
            sum.second += M.gamma * g[o][pos[o]].second;
          }
          all.push_back(sum);
        }
      }
      V = envelope(all);
      gap *= M.gamma;
      if (V.size() > 3000) return false;
    }
    lines = V;
    err = gap;
    twoState = true;
    return true;
  }
  return false;
}

bool Ref::solve() {
  const Model &M = *m;
  int n = nodes.size();
  for (auto &x : nodes) x.V = 0;
  if (M.kind == K_CUSTOM || M.kind == K_RACE) for (auto &x : nodes) x.V = x.terminal ? 0 : 0;
  double g = M.gamma;
  double tol = 1e-11 * std::max(1.0, vmax);
  err = 0;
  for (int it = 0;; it++) {
    double res = 0;
    for (int i = n - 1; i >= 0; i--) {
      RefNode &x = nodes[i];
      if (x.terminal) { x.V = 0; continue; }
      double best = -1e300;
      for (int a = 0; a < M.A; a++) {
        double v = 0;
        for (auto &e : x.succ[a]) v += e.p * nodes[e.to].V;
        best = std::max(best, x.rew[a] + g * v);
      }
      res = std::max(res, fabs(best - x.V));
      x.V = best;
    }
    if (res <= tol * (g < 1 ? (1 - g) : 1e-2)) break;
    if (it > 40000) return false;
    for (auto &x : nodes) if (fabs(x.V) > 1e7) return false;
  }
  err = 1e-9 * std::max(1.0, vmax);
  return true;
}

int Ref::find(const Sparse &s) const {
  auto it = index.find(keyOf(s));
  if (it != index.end()) return it->second;
  return findText(s, 1e-6);
}
int Ref::find(const SV *s, unsigned n) const {
  Sparse v;
  for (unsigned i = 0; i < n; i++) if (s[i].val != 0) v.push_back({(int)s[i].idx, s[i].val});
  return find(v);
}
int Ref::findText(const Sparse &s, double tol) const {
  for (size_t i = 0; i < nodes.size(); i++) {
    const Sparse &b = nodes[i].s;
    double d = 0;
    size_t x = 0, y = 0;
    while (x < s.size() || y < b.size()) {
      if (y >= b.size() || (x < s.size() && s[x].first < b[y].first)) d += fabs(s[x++].second);
      else if (x >= s.size() || b[y].first < s[x].first) d += fabs(b[y++].second);
      else { d += fabs(s[x].second - b[y].second); x++; y++; }
      if (d > tol) break;
    }
    if (d <= tol) return i;
  }
  return -1;
}
bool Ref::value(const SV *s, unsigned n, double &lo, double &hi) const {
  if (closed) {
    int i = find(s, n);
    if (i < 0) return false;
    lo = nodes[i].V - err;
    hi = nodes[i].V + err;
    return true;
  }
  if (twoState) {
    double p = 0;
    for (unsigned i = 0; i < n; i++) if (s[i].idx == 1) p = s[i].val;
    double v = -1e300;
    for (auto &l : lines) v = std::max(v, l.first + l.second * p);
    lo = v - 1e-9 * vmax;
    hi = v + err + 1e-9 * vmax;
    return true;
  }
  return false;
}
bool Ref::value0(double &lo, double &hi) const {
  if (closed) { lo = nodes[0].V - err; hi = nodes[0].V + err; return true; }
  if (twoState) {
    SV s[2];
    unsigned n = 0;
    for (int i = 0; i < 2; i++) if (m->b0[i]) { s[n].idx = i; s[n].val = m->b0[i] / (double)m->D; n++; }
    return value(s, n, lo, hi);
  }
  return false;
}
double Ref::q(int node, int a) const {
  double v = 0;
  for (auto &e : nodes[node].succ[a]) v += e.p * nodes[e.to].V;
  return nodes[node].rew[a] + m->gamma * v;
}
vector<double> Ref::qValues(int node) const {
  vector<double> r;
  for (int a = 0; a < m->A; a++) r.push_back(q(node, a));
  return r;
}
vector<double> Ref::policyValue(const vector<int> &act) const {
  int n = nodes.size();
  vector<double> v(n, 0);
  for (int it = 0; it < 20000; it++) {
    double res = 0;
    for (int i = n - 1; i >= 0; i--) {
      if (nodes[i].terminal || act[i] < 0) { v[i] = 0; continue; }
      double x = 0;
      for (auto &e : nodes[i].succ[act[i]]) x += e.p * v[e.to];
      x = nodes[i].rew[act[i]] + m->gamma * x;
      res = std::max(res, fabs(x - v[i]));
      v[i] = x;
      if (fabs(x) > 1e7) return v;
    }
    if (res < 1e-11 * std::max(1.0, vmax) * (m->gamma < 1 ? 1 - m->gamma : 1e-2)) break;
  }
  return v;
}
