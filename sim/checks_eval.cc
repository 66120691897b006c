// Checks over policy evaluation: the simulated trials and the numbers made of
// them.
#include "checks.h"
#include <math.h>
#include <string.h>
#include <algorithm>
using namespace sim;
using std::string;
using std::vector;

// -------------------------------------------------- following a trace
// one state of the simulated system as the independent model sees it
struct Where {
  int node = -1;     // in the reference, if there is one
  Sparse b;          // the state or belief vector
};
struct Move { double p; Where to; int o; };
struct World {
  const Model &m;
  const Ref *ref;    // used if closed
  World(const Model &mm, const Ref *r) : m(mm), ref(r && r->closed && !r->twoState ? r : nullptr) {}
  Where start() const {
    Where w;
    if (ref) { w.node = 0; w.b = ref->nodes[0].s; return w; }
    for (int i = 0; i < m.S; i++) if (m.b0[i]) w.b.push_back({i, m.b0[i] / (double)m.D});
    return w;
  }
  bool terminal(const Where &w) const { return ref ? ref->nodes[w.node].terminal : beliefTerminal(m, w.b); }
  double reward(const Where &w, int a) const { return ref ? ref->nodes[w.node].rew[a] : beliefReward(m, w.b, a); }
  vector<Move> moves(const Where &w, int a) const {
    vector<Move> v;
    if (ref) {
      for (auto &e : ref->nodes[w.node].succ[a]) {
        Move x;
        x.p = e.p; x.o = e.o;
        x.to.node = e.to; x.to.b = ref->nodes[e.to].s;
        v.push_back(x);
      }
    } else
      for (int o = 0; o < m.O; o++) {
        Move x;
        x.o = o;
        x.p = obsProb(m, w.b, a, o, &x.to.b);
        if (x.p > 1e-10) v.push_back(x);
      }
    return v;
  }
};
// the program merges beliefs that are nearly equal, so that beliefs drift a little
static bool sameText(const Sparse &t, bool trunc, const Sparse &b, bool exact) {
  double smallest = 1e300;
  for (auto &e : t) {
    double x = 0;
    for (auto &q : b) if (q.first == e.first) x = q.second;
    if (fabs(x - e.second) > (exact ? 1e-6 + 1e-5 * fabs(x) : 1e-5 + 1e-3 * fabs(x))) return false;
    smallest = std::min(smallest, fabs(e.second));
  }
  for (auto &q : b) {
    bool in = false;
    for (auto &e : t) if (e.first == q.first) in = true;
    if (in) continue;
    if (fabs(q.second) <= (exact ? 1e-6 : 1e-5)) continue;
    if (trunc && fabs(q.second) <= smallest + 1e-5) continue;
    return false;
  }
  return true;
}
static string spText(const Sparse &s) {
  string r = "[";
  for (auto &e : s) r += fmt("%d:%.7g ", e.first, e.second);
  return r + "]";
}
static string keyText(const Where &w) {
  if (w.node >= 0) return fmt("n%d", w.node);
  string r;
  for (auto &e : w.b) if (e.second > 5e-7) r += fmt("%d:%.6f ", e.first, e.second);
  return r;
}
struct Path { vector<Where> at; vector<int> a, k; vector<vector<Move>> mv; bool terminated = false, partial = false; };
// a belief with a nearly impossible state: round-off decides what becomes of it
static bool delicate(const Where &w) {
  for (auto &e : w.b) if (e.second > 0 && e.second < (w.node >= 0 ? 1e-7 : 1e-5)) return true;
  return false;
}

// every trace is a possible history; false if a violation was reported
static bool follow(const Scenario &s, Outcome &o, const World &w, const vector<SimTrace> &tr, vector<Path> &out, int maxSteps) {
  out.clear();
  for (size_t i = 0; i < tr.size(); i++) {
    Path p;
    Where at = w.start();
    p.at.push_back(at);
    for (size_t j = 0; j < tr[i].steps.size(); j++) {
      const SimStep &st = tr[i].steps[j];
      string where = fmt("trace %zu, step %zu: ", i + 1, j + 1);
      if (j && w.terminal(at)) { o.bad("trial went on after its end", where + "the state " + spText(at.b) + " is terminal"); return false; }
      if (!sameText(st.s, st.truncS, at.b, w.ref)) { o.bad("trace is not connected", where + "recorded state " + spText(st.s) + ", the state reached is " + spText(at.b)); return false; }
      if (st.a < 0 || st.a >= w.m.A) { o.bad("impossible action", where + fmt("action %d", st.a)); return false; }
      vector<Move> mv = w.moves(at, st.a);
      int k = -1;
      for (size_t q = 0; q < mv.size(); q++) if (mv[q].o == st.o) k = q;
      if (k < 0) { o.bad("impossible outcome", where + fmt("outcome %d of action %d cannot happen in ", st.o, st.a) + spText(at.b)); return false; }
      if (!sameText(st.sp, st.truncSp, mv[k].to.b, w.ref)) { o.bad("wrong successor", where + fmt("action %d, outcome %d from ", st.a, st.o) + spText(at.b) + " gives " + spText(mv[k].to.b) + ", recorded " + spText(st.sp)); return false; }
      at = mv[k].to;
      p.at.push_back(at);
      p.a.push_back(st.a);
      p.k.push_back(k);
      p.mv.push_back(std::move(mv));
      o.hit("simulated steps checked");
      if (w.m.kind == K_POMDP && delicate(at)) { p.partial = true; break; }
    }
    p.terminated = tr[i].terminated;
    if (p.partial) {
      if (maxSteps > 0 && ((int)tr[i].steps.size() > maxSteps || (!p.terminated && (int)tr[i].steps.size() < maxSteps))) { o.bad("wrong length of a trial", fmt("trace %zu has %zu steps, %d were asked for", i + 1, tr[i].steps.size(), maxSteps)); return false; }
      out.push_back(p);
      continue;
    }
    bool term = w.terminal(at);
    if (p.terminated != (term && !p.a.empty())) { o.bad(term ? "end of a trial not noticed" : "trial ended early", fmt("trace %zu ends in ", i + 1) + spText(at.b) + (term ? ", which is terminal" : ", which is not terminal")); return false; }
    if (maxSteps > 0 && (int)p.a.size() > maxSteps) { o.bad("trial too long", fmt("trace %zu has %zu steps, at most %d were asked for", i + 1, p.a.size(), maxSteps)); return false; }
    if (!p.terminated && maxSteps > 0 && (int)p.a.size() < maxSteps) { o.bad("trial ended early", fmt("trace %zu has %zu steps and is not in a terminal state, %d were asked for", i + 1, p.a.size(), maxSteps)); return false; }
    out.push_back(p);
  }
  return true;
}
// same state, same action (within one evaluation the policy does not change)
static bool stationary(Outcome &o, const vector<Path> &ps) {
  std::map<string, int> act;
  for (auto &p : ps)
    for (size_t j = 0; j < p.a.size(); j++) {
      auto r = act.insert({keyText(p.at[j]), p.a[j]});
      if (r.first->second != p.a[j]) { o.bad("policy is not a function of the state", fmt("actions %d and %d were chosen in the state ", r.first->second, p.a[j]) + spText(p.at[j].b)); return false; }
    }
  return true;
}
// outcomes are drawn with the probabilities of the model: sums of martingale
// differences stay within what has probability 1e-12
static void fair(const Scenario &s, Outcome &o, const World &w, const vector<Path> &ps) {
  if (s.plan.randExtreme > 0) return;
  const double L = 28;
  struct Stat { double x = 0, v = 0, m = 0; long n = 0; } st[3];
  static const char *names[] = {"value of the outcome", "first outcome", "last outcome"};
  for (auto &p : ps) {
    double disc = 1;
    for (size_t j = 0; j < p.a.size(); j++) {
      const vector<Move> &mv = p.mv[j];
      for (int t = 0; t < 3; t++) {
        if (t == 0 && !w.ref) continue;
        auto f = [&](size_t k) { return t == 0 ? w.ref->nodes[mv[k].to.node].V : t == 1 ? (double)(k == 0) : (double)(k + 1 == mv.size()); };
        double e = 0, e2 = 0, pr = 0;
        for (size_t k = 0; k < mv.size(); k++) { e += mv[k].p * f(k); e2 += mv[k].p * f(k) * f(k); pr += mv[k].p; }
        double c = t == 0 ? disc : 1;
        for (size_t k = 0; k < mv.size(); k++) st[t].m = std::max(st[t].m, c * fabs(f(k) - e));
        st[t].x += c * (f(p.k[j]) - e);
        st[t].v += c * c * std::max(0.0, e2 - e * e);
        st[t].n++;
      }
      disc *= w.m.gamma;
    }
  }
  for (int t = 0; t < 3; t++) {
    if (!st[t].n) continue;
    double lim = L * st[t].m / 3 + sqrt(L * L * st[t].m * st[t].m / 9 + 2 * L * st[t].v) + 1e-7 * st[t].n;
    if (fabs(st[t].x) > lim) { o.bad("outcomes do not have the model's probabilities", fmt("%s: the sum over %ld simulated steps is off by %.6g, at most %.6g is credible", names[t], st[t].n, st[t].x, lim)); return; }
  }
  o.hit("fairness tests");
}
static double returnOf(const World &w, const Path &p) {
  double r = 0, d = 1;
  for (size_t j = 0; j < p.a.size(); j++) { r += d * w.reward(p.at[j], p.a[j]); d *= w.m.gamma; }
  return r;
}
// returns reweighted by p/frequency wherever all outcomes were seen
static vector<double> reweighted(const World &w, const vector<Path> &ps, size_t from, size_t to, bool *ambiguous) {
  struct Cnt { std::map<int, int> n; double sum = 0; int total = 0; const vector<Move> *mv; };
  std::map<std::pair<string, int>, Cnt> c;
  for (size_t i = from; i < to; i++)
    for (size_t j = 0; j < ps[i].a.size(); j++) {
      Cnt &x = c[{keyText(ps[i].at[j]), ps[i].a[j]}];
      x.mv = &ps[i].mv[j];
      if (!x.n[ps[i].k[j]]++) x.sum += ps[i].mv[j][ps[i].k[j]].p;
      x.total++;
    }
  vector<double> r;
  for (size_t i = from; i < to; i++) {
    double v = 0;
    for (int j = (int)ps[i].a.size() - 1; j >= 0; j--) {
      Cnt &x = c[{keyText(ps[i].at[j]), ps[i].a[j]}];
      int k = ps[i].k[j];
      double wgt = 1;
      if (x.sum > 1 - 1e-8) wgt = (*x.mv)[k].p / (x.n[k] / (double)x.total);
      else if (x.sum > 1 - 1e-5 && ambiguous) *ambiguous = true;
      v = w.reward(ps[i].at[j], ps[i].a[j]) + wgt * w.m.gamma * v;
    }
    r.push_back(v);
  }
  return r;
}

// -------------------------------------------------- generators
static void genEval(Rng &g, Scenario &s, bool bench) {
  if (bench) s.m = genModel(g, g.chance(0.15) ? "general" : "any");
  else s.m = genModel(g, g.chance(0.2) ? "general" : "pomdp");
  genSearchOpts(g, s, !bench);
  if (s.m.family == "general" && s.strategy() != "frtdp") s.setOpt("searchStrategy", "hsvi"), s.delOpt("maintainLowerBound");
  genPlan(g, s.plan);
  genBenchOpts(g, s);
  static const char *tr[] = {"1", "7", "20", "30", "31", "65", "90", "300", "600"};
  s.setOpt("evaluationTrialsPerEpoch", tr[g.below(9)]);
  static const char *st[] = {"1", "6", "20", "40", "251"};
  s.setOpt("evaluationMaxStepsPerTrial", st[g.below(5)]);
  if (s.m.horizon > 0 && g.chance(0.2)) s.setOpt("evaluationMaxStepsPerTrial", "0");
  s.delOpt("storageOutputFile");
  s.delOpt("qValuesOutputFile");
  s.delOpt("useLogBackups");
  s.delOpt("useEvaluationCache");
  if (g.chance(0.5)) s.setOpt("useEvaluationCache", "0");
  s.setOpt("simulationTracesToLogPerEpoch", g.chance(0.85) ? "-1" : g.chance(0.5) ? "3" : "0");
  s.setOpt("terminateNumBackups", g.chance(0.5) ? "20" : "100");
  // keep the number of simulated steps within reason
  long steps = atol(s.opt("evaluationTrialsPerEpoch").c_str()) * atol(s.opt("evaluationMaxStepsPerTrial").c_str());
  if (s.m.family == "general" && steps > 20000) s.setOpt("evaluationTrialsPerEpoch", "65");
  if (steps > 20000 && atoi(s.opt("evaluationEpochsPerMagnitude").c_str()) > 10) s.setOpt("evaluationEpochsPerMagnitude", "3");
  s.cmd = bench ? "benchmark" : "evaluate";
  s.par["cut"] = g.u();
}
// the policy and the files for 'evaluate'; false if the run is over
static bool solveFirst(const Scenario &s, Outcome &o, Files &f) {
  Scenario q = s;
  q.cmd = "solve";
  Files g = f;
  SolveRun r = solveRun(o, q, g);
  if (abnormal(o, r.p)) return false;
  if (r.p.exitCode != 0 || !g.count("out.policy")) { o.bad("failed run", fmt("solve: exit code %d: ", r.p.exitCode) + r.p.err.substr(0, 300)); return false; }
  f["out.policy"] = g["out.policy"];
  return true;
}
static vector<double> batchesOf(const string &out, size_t *count) {
  vector<double> v;
  *count = 0;
  for (auto &l : lines(out)) {
    size_t a = l.find("batchRewards: ");
    if (a == string::npos) continue;
    v = numbers(l.substr(a + 14));
    ++*count;
  }
  return v;
}

// =================================================================== C11
static void genC11(Rng &g, Scenario &s, bool th) {
  bool many = g.chance(0.015);
  genEval(g, s, !many && g.chance(0.5));
  if (!many) return;
  s.m = genModel(g, g.chance(0.7) ? "layered" : "finite");
  s.opts.clear();
  genSearchOpts(g, s, true);
  s.plan.randExtreme = 0;
  s.setOpt("evaluationTrialsPerEpoch", "600");
  s.setOpt("evaluationMaxStepsPerTrial", g.chance(0.5) ? "6" : "12");
  s.setOpt("terminateNumBackups", "100");
  s.setOpt("simulationTracesToLogPerEpoch", "0");
  if (g.chance(0.5)) s.setOpt("useEvaluationCache", "0");
  s.par["many"] = 40;
}
// many evaluations of one policy: their mean is the exact value of the policy
static void runMany(const Scenario &s, Outcome &o) {
  Files f = s.files();
  if (!solveFirst(s, o, f)) return;
  Policy pol = readPolicy(f["out.policy"], s.m.S, s.m.A);
  Ref ref;
  if (!pol.ok || !ref.build(s.m) || !ref.closed) return;
  int n = ref.nodes.size(), H = atoi(s.opt("evaluationMaxStepsPerTrial", "251").c_str());
  vector<int> act(n, -1), st = {0};
  double tol = policyTol(pol) * 2 + 1e-5;
  vector<char> seen(n, 0);
  seen[0] = 1;
  while (!st.empty()) {
    int i = st.back();
    st.pop_back();
    if (ref.nodes[i].terminal) continue;
    double best = -1e300, second = -1e300;
    for (int a = 0; a < s.m.A; a++) {
      double x = 0, v;
      for (auto &e : ref.nodes[i].succ[a]) { if (bestPlane(pol, ref.nodes[e.to].s, &v) < 0) return; x += e.p * v; }
      x = ref.nodes[i].rew[a] + s.m.gamma * x;
      if (x > best) { second = best; best = x; act[i] = a; } else second = std::max(second, x);
    }
    if (second > best - tol) return;   // not clear what the policy does
    for (auto &e : ref.nodes[i].succ[act[i]]) if (!seen[e.to]) { seen[e.to] = 1; st.push_back(e.to); }
  }
  vector<double> m1(n, 0), m2(n, 0), lo(n, 0), hi(n, 0);
  for (int t = 0; t < H; t++) {
    vector<double> a1(n, 0), a2(n, 0), al(n, 0), ah(n, 0);
    for (int i = 0; i < n; i++) {
      if (ref.nodes[i].terminal || act[i] < 0) continue;
      double r = ref.nodes[i].rew[act[i]], g = s.m.gamma, e1 = 0, e2 = 0, l = 1e300, h = -1e300;
      for (auto &e : ref.nodes[i].succ[act[i]]) { e1 += e.p * m1[e.to]; e2 += e.p * m2[e.to]; l = std::min(l, lo[e.to]); h = std::max(h, hi[e.to]); }
      a1[i] = r + g * e1;
      a2[i] = r * r + 2 * r * g * e1 + g * g * e2;
      al[i] = r + g * l;
      ah[i] = r + g * h;
    }
    m1.swap(a1); m2.swap(a2); lo.swap(al); hi.swap(ah);
  }
  int K = (int)s.p("many");
  double sum = 0, sq = 0, trials = K * atof(s.opt("evaluationTrialsPerEpoch", "1000").c_str());
  for (int k = 0; k < K; k++) {
    Scenario t = s;
    t.plan.randSeed = Rng(s.plan.randSeed + 1000 * k).next() >> 16;   // streams that do not overlap
    Files g = f;
    Proc p = exec(o, t.argv(), t.plan, g);
    if (abnormal(o, p)) return;
    size_t c;
    vector<double> b = batchesOf(p.out, &c);
    if (p.exitCode != 0 || b.size() != 30) { o.bad("failed run", fmt("evaluate: exit code %d: ", p.exitCode) + p.err.substr(0, 300)); return; }
    for (double x : b) { sum += x / 30 / K; sq += x * x / 30 / K; }
  }
  double L = 28, var = std::max(0.0, m2[0] - m1[0] * m1[0]), M = hi[0] - lo[0];
  double lim = sqrt(2 * L * var / trials) + M * L / 3 / trials + 1e-4;
  bool cache = s.opt("useEvaluationCache", "1") == "1";
  if (cache) lim += 8 * sqrt(std::max(0.0, sq - sum * sum) / (30 * K));   // where histories meet, weights vary between trials that earn the same
  o.nontrivial = true;
  o.hit(cache ? "exact values compared (cached)" : "exact values compared (simple)");
  if (fabs(sum - m1[0]) > lim)
    o.bad(!cache ? "evaluation is biased" : fabs(sum - m1[0]) > 0.15 * M + 1e-3 ? "cached evaluation is wrong" : "cached evaluation is biased", fmt("the mean of %d evaluations (%g trials) is %.9g, the policy is worth %.9g, at most %.3g of difference is credible", K, trials, sum, m1[0], lim));
}
// quantiles of the mean of n draws from v, by an independent bootstrap
static double bootQ(const vector<double> &sorted, double p) { return sorted[std::min<size_t>(sorted.size() - 1, (size_t)(p * sorted.size()))]; }
static void runC11(const Scenario &s, Outcome &o) {
  common(s, o);
  if (s.p("many")) { runMany(s, o); return; }
  o.hit("command " + s.cmd);
  o.hit(s.opt("useEvaluationCache", "1") == "1" ? "cached evaluation" : "simple evaluation");
  Files f = s.files();
  if (s.cmd == "evaluate" && !solveFirst(s, o, f)) return;
  SolveRun r = solveRun(o, s, f);
  if (abnormal(o, r.p)) return;
  if (r.p.exitCode != 0) { o.bad("failed run", fmt("exit code %d: ", r.p.exitCode) + r.p.err.substr(0, 300)); return; }
  bool cache = s.opt("useEvaluationCache", "1") == "1";
  int n = atoi(s.opt("evaluationTrialsPerEpoch", "1000").c_str()), maxSteps = atoi(s.opt("evaluationMaxStepsPerTrial", "251").c_str());
  size_t epochs;
  vector<double> batch = batchesOf(r.p.out, &epochs);
  int B = std::min(n, 30);
  if ((int)batch.size() != B) { o.bad("wrong number of batches", fmt("%zu batch rewards, expected %d", batch.size(), B)); return; }
  vector<vector<double>> inc;
  for (auto &l : lines(f["inc.plot"])) inc.push_back(numbers(l));
  double mean = 0, q1 = 0, q2 = 0, success = -1;
  double prec = 5e-5;
  if (s.cmd == "benchmark") {
    if (inc.size() != epochs) { o.bad("inc.plot is incomplete", fmt("%zu lines for %zu evaluations", inc.size(), epochs)); return; }
    for (auto &l : inc) if (l.size() != 5) { o.bad("inc.plot is incomplete", "a line does not have five numbers"); return; }
    auto &l = inc.back();
    mean = l[1]; q1 = l[2]; q2 = l[3]; success = l[4];
    for (int i = 1; i <= 3; i++) prec = std::max(prec, 5e-5 + 1e-5 * fabs(l[i]));
  } else {
    size_t a = r.p.out.find("REWARD_MEAN_CONF95MIN_CONF95MAX ");
    if (a == string::npos) { o.bad("no result", "evaluate printed no result"); return; }
    string l = r.p.out.substr(a + 32);
    vector<double> v = numbers(l.substr(0, l.find('\n')));
    if (v.size() != 3) { o.bad("no result", "evaluate printed no complete result"); return; }
    mean = v[0]; q1 = v[1]; q2 = v[2];
    prec = 1e-3;
  }
  // the summary follows from the batches
  double bm = 0;
  for (double x : batch) bm += x / B;
  if (!(fabs(mean - bm) <= prec)) { o.bad("mean is not that of the trials", fmt("mean %.9g, the batches average %.9g", mean, bm)); return; }
  {
    Rng g(s.seed + 77);
    vector<double> v(20000);
    for (auto &x : v) { x = 0; for (int i = 0; i < B; i++) x += batch[g.below(B)] / B; }
    std::sort(v.begin(), v.end());
    double eps = prec + 1e-4;
    if (!(s.plan.randExtreme > 0)) {
      if (q1 < bootQ(v, 0.008) - eps || q1 > bootQ(v, 0.06) + eps || q2 < bootQ(v, 0.94) - eps || q2 > bootQ(v, 0.992) + eps) { o.bad("confidence interval does not fit the batches", fmt("[%.9g, %.9g] for a mean of %.9g, resampling the batches gives [%.9g, %.9g]", q1, q2, mean, bootQ(v, 0.025), bootQ(v, 0.975))); return; }
      o.hit("confidence intervals checked");
    } else if (!(q1 <= q2 && q1 >= *std::min_element(batch.begin(), batch.end()) - eps && q2 <= *std::max_element(batch.begin(), batch.end()) + eps)) { o.bad("confidence interval does not fit the batches", fmt("[%.9g, %.9g] is outside all batches", q1, q2)); return; }
  }
  // the scores
  vector<string> sl = lines(f["scores.plot"]);
  vector<double> score;
  for (auto &l : sl) { vector<double> x = numbers(l); if (x.size() == 1) score.push_back(x[0]); }
  if (score.size() != sl.size() || (int)score.size() != n) { o.bad("scores are incomplete", fmt("%zu scores were logged, %d trials were asked for", score.size(), n)); return; }
  auto batchStart = [&](int i) { return i * (n / B) + std::min(i, n % B); };
  double tol = 0;
  for (double x : score) tol = std::max(tol, 1e-5 * fabs(x));
  tol += 1e-4;
  for (int i = 0; i < B; i++) {
    double x = 0;
    int a = batchStart(i), b = batchStart(i + 1);
    for (int j = a; j < b; j++) x += score[j] / (b - a);
    if (!(fabs(x - batch[i]) <= tol)) { o.bad("batch is not the mean of its trials", fmt("batch %d: %.9g, its trials average %.9g", i + 1, batch[i], x)); return; }
  }
  o.nontrivial = n >= 7;
  int logN = atoi(s.opt("simulationTracesToLogPerEpoch", "1").c_str());
  vector<SimTrace> tr;
  string why;
  if (!readSim(f["sim.plot"], tr, why)) { o.bad("unreadable traces", why); return; }
  if ((int)tr.size() != (logN < 0 ? n : std::min(n, logN))) { o.bad("wrong number of traces", fmt("%zu traces were logged, %d of %d were asked for", tr.size(), logN, n)); return; }
  Ref ref;
  if (s.m.family != "general" && s.m.family != "two-state") ref.build(s.m);
  World w(s.m, &ref);
  if (!w.ref && s.m.kind != K_POMDP) return;
  vector<Path> ps;
  if (!follow(s, o, w, tr, ps, maxSteps)) return;
  if (logN < 0 && success >= 0) {
    double x = 0;
    for (int i = 0; i < B; i++) {
      int a = batchStart(i), b = batchStart(i + 1), c = 0;
      for (int j = a; j < b; j++) c += ps[j].terminated;
      x += c / (double)n;
    }
    if (fabs(x - success) > 1e-5) { o.bad("success rate is not that of the trials", fmt("success rate %.9g, %.9g of the trials ended in a terminal state", success, x)); return; }
    o.hit("success rates checked");
  }
  // the score of each trial
  if (!cache) {
    for (size_t i = 0; i < ps.size(); i++) {
      if (ps[i].partial) continue;
      double x = returnOf(w, ps[i]);
      if (!(fabs(x - score[i]) <= 1e-5 * fabs(x) + 1e-6)) { o.bad("score is not the reward of the trial", fmt("trial %zu: score %.9g, its discounted reward is %.9g", i + 1, score[i], x)); return; }
      o.hit("scores checked");
    }
  } else if (logN < 0 && w.ref) {
    for (int b = 0; b < B; b++) {
      bool amb = false;
      for (int j = batchStart(b); j < batchStart(b + 1); j++) amb = amb || ps[j].partial;
      vector<double> x = reweighted(w, ps, batchStart(b), batchStart(b + 1), &amb);
      if (amb) continue;
      for (size_t i = 0; i < x.size(); i++) {
        double got = score[batchStart(b) + i];
        if (!(fabs(x[i] - got) <= 1e-5 * fabs(x[i]) + 1e-6)) { o.bad("score is not the reweighted reward of the trial", fmt("trial %zu of batch %d: score %.9g, its reweighted reward is %.9g", i + 1, b + 1, got, x[i])); return; }
        o.hit("scores checked");
      }
    }
  }
}

// =================================================================== C12
static Model perturbed(const Model &m0, uint64_t seed) {
  Model m = m0;
  Rng g(seed);
  if (g.chance(0.5)) {   // a world that tells less: observations do not depend on the state
    for (auto &za : m.Z) {
      vector<int> pos;
      for (int o = 0; o < m.O; o++) {
        bool all = true;
        for (auto &row : za) all = all && row[o];
        if (all) pos.push_back(o);
      }
      if (pos.empty()) continue;
      vector<int> row(m.O, 0);
      for (size_t i = 0; i < pos.size(); i++) row[pos[i]] = m.D / pos.size() + (i < m.D % pos.size());
      for (auto &r : za) r = row;
    }
    return m;
  }
  auto move = [&](vector<int> &d) {
    vector<int> pos;
    for (size_t i = 0; i < d.size(); i++) if (d[i]) pos.push_back(i);
    if (pos.size() < 2) return;
    int a = pos[g.below(pos.size())], b = pos[g.below(pos.size())];
    if (a != b && d[a] > 1) { d[a]--; d[b]++; }
  };
  for (auto &x : m.T) for (auto &y : x) if (g.chance(0.5)) move(y);
  for (auto &x : m.Z) for (auto &y : x) if (g.chance(0.5)) move(y);
  return m;
}
static void genC12(Rng &g, Scenario &s, bool th) {
  bool bench = g.chance(0.4);
  genEval(g, s, bench);
  if (g.chance(0.25)) s.plan.randExtreme = g.chance(0.5) ? 0.05 : 0.5;
  s.setOpt("simulationTracesToLogPerEpoch", "-1");
  if (s.m.kind == K_POMDP && bench && g.chance(0.3)) s.setOpt("runTimeActionSelection", g.chance(0.5) || !s.maintainsLB() ? "upper" : "lower");
  if (!bench && g.chance(0.35)) { s.par["other"] = 1 + g.below(1000); s.setOpt("useEvaluationCache", g.chance(0.5) ? "1" : "0"); }
}
static void runC12(const Scenario &s, Outcome &o) {
  common(s, o);
  o.hit("command " + s.cmd);
  Files f = s.files();
  vector<string> av = s.argv();
  if (s.cmd == "evaluate" && !solveFirst(s, o, f)) return;
  Model other;
  bool two = s.p("other") > 0;
  if (two) {   // the policy belongs to the model that 'solve' saw; the world is another one
    other = perturbed(s.m, (uint64_t)s.p("other"));
    Scenario t = s;
    t.m = other;
    string name = av.back(), ext = name.substr(name.find('.'));
    f["world" + ext] = t.files()[name];
    av.back() = "world" + ext;
    av.insert(av.begin() + 2, {"--plannerModel", name});
  }
  SolveRun r = solveRun(o, s, f, nullptr, &av);
  if (abnormal(o, r.p)) return;
  if (r.p.exitCode != 0) { o.bad("failed run", fmt("exit code %d: ", r.p.exitCode) + r.p.err.substr(0, 300)); return; }
  int maxSteps = atoi(s.opt("evaluationMaxStepsPerTrial", "251").c_str());
  vector<SimTrace> tr;
  string why;
  if (!readSim(f["sim.plot"], tr, why)) { o.bad("unreadable traces", why); return; }
  Ref ref;
  if (!two && s.m.family != "general" && s.m.family != "two-state") ref.build(s.m);
  World w(two ? other : s.m, &ref);
  if (!w.ref && s.m.kind != K_POMDP) return;
  vector<Path> ps;
  if (!follow(s, o, w, tr, ps, maxSteps)) return;
  if (w.ref && !stationary(o, ps)) return;
  fair(s, o, w, ps);
  o.nontrivial = ps.size() >= 7;
  if (s.cmd != "evaluate") return;
  // actions are those of one-step lookahead on the policy, at the belief the
  // planner's model assigns to the history
  Policy pol = readPolicy(f["out.policy"], s.m.S, s.m.A);
  if (!pol.ok) { o.bad("unreadable policy", pol.why); return; }
  World pw(s.m, nullptr);
  double tol = policyTol(pol) * 2 + 1e-5;
  std::map<string, std::pair<vector<double>, vector<double>>> memo;
  long checked = 0;
  for (size_t i = 0; i < ps.size(); i++) {
    Where at = pw.start();
    for (size_t j = 0; j < ps[i].a.size(); j++) {
      string key = keyText(at);
      if (!memo.count(key)) {
        if (memo.size() > 400) break;
        vector<double> lo, hi;
        for (int a = 0; a < s.m.A; a++) {
          double l = 0, h = 0;
          for (auto &mv : pw.moves(at, a)) {
            double v;
            if (bestPlane(pol, mv.to.b, &v) < 0) { l = -1e300; h = 1e300; break; }
            bool t = beliefTerminal(s.m, mv.to.b);
            l += mv.p * v;
            h += mv.p * (t ? std::max(v, 0.0) : v);
          }
          lo.push_back(l < -1e200 ? l : pw.reward(at, a) + s.m.gamma * l);
          hi.push_back(h > 1e200 ? h : pw.reward(at, a) + s.m.gamma * h);
        }
        memo[key] = {lo, hi};
      }
      auto &q = memo[key];
      int a = ps[i].a[j];
      double best = *std::max_element(q.first.begin(), q.first.end());
      if (q.second[a] < best - tol) { o.bad(two ? "action is not the policy's choice in another world" : "action is not the policy's choice", fmt("trace %zu, step %zu: action %d is worth %.9g, the best %.9g, at the planner's belief ", i + 1, j + 1, a, q.second[a], best) + spText(at.b)); return; }
      checked++;
      // the planner sees the same observation
      Where nx;
      bool found = false;
      for (auto &mv : pw.moves(at, a)) if (mv.o == ps[i].mv[j][ps[i].k[j]].o) { nx = mv.to; found = true; }
      if (!found) break;
      at = nx;
    }
  }
  o.hit(two ? "actions in another world checked" : "actions checked", checked);
}

extern const Check checksEval[];
extern const int nChecksEval;
const Check checksEval[] = {
  {"C11", genC11, runC11, "non-trivial: at least 7 trials evaluated; distinct: sequence of backed-up states and process results"},
  {"C12", genC12, runC12, "non-trivial: at least 7 simulated trials checked; distinct: sequence of backed-up states and process results"},
};
const int nChecksEval = sizeof checksEval / sizeof *checksEval;
