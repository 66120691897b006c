// Decision models generated for the simulated runs, and an independent exact
// reference solution of each of them.
#pragma once
#include "env.h"
#include "json.h"
#include <string>
#include <unordered_map>
#include <vector>

enum Kind { K_POMDP, K_MDP, K_RACE, K_CUSTOM };

struct Model {
  Kind kind = K_POMDP;
  std::string family;
  int S = 0, A = 0, O = 0;
  double gamma = 0.95;
  int D = 20;                                   // probabilities are multiples of 1/D
  std::vector<std::vector<std::vector<int>>> T; // [a][s][s']
  std::vector<std::vector<std::vector<int>>> Z; // [a][s'][o]
  std::vector<std::vector<int>> R;              // [s][a], in 1/rewardDen
  int rewardDen = 1;
  std::vector<int> b0;                          // initial belief (1/D)
  int s0 = 0;                                   // initial state (MDP)
  int horizon = -1;                             // layers until termination, -1 if none
  // race track
  std::vector<std::string> map;
  int errPct = 0;
  bool wind = false;
  bool useMaxCost = false;
  int maxCost = 0;
  // custom
  int customN = 5;

  double t(int a, int s, int sp) const { return T[a][s][sp] / (double)D; }
  double z(int a, int sp, int o) const { return Z[a][sp][o] / (double)D; }
  double r(int s, int a) const { return R[s][a] / (double)rewardDen; }
  double gammaText() const { return gamma; }
  std::vector<bool> terminalStates() const;
  double scale() const;      // magnitude of values
  std::string ext() const;   // file name of the model
  std::string fastText() const;
  // layout 0 is the plainest; others use wildcards, rows, matrices, names...
  std::string cassandraText(uint64_t layoutSeed) const;
  std::string raceText() const;
  Json toJson() const;
  static Model fromJson(const Json &j);
};

Model genLayered(sim::Rng &g, int maxLayers, int maxWidth, int maxA, int maxO);
Model genDeepLayered(sim::Rng &g);
Model genLong(sim::Rng &g, bool mdp);
Model genFiniteBelief(sim::Rng &g);
Model genTwoState(sim::Rng &g);
Model genGeneral(sim::Rng &g, int maxS);
Model genMdp(sim::Rng &g);
Model genLayeredMdp(sim::Rng &g);
Model genRace(sim::Rng &g);
Model genCustom(sim::Rng &g);

// ------------------------------------------------------------ reference
typedef std::vector<std::pair<int, double>> Sparse;

struct RefEdge { int to; double p; int o; };
struct RefNode {
  Sparse s;                                 // belief or state vector
  bool terminal = false;
  std::vector<double> rew;                  // per action
  std::vector<std::vector<RefEdge>> succ;   // per action
  double V = 0;
};

struct Ref {
  const Model *m = nullptr;
  bool closed = false;          // finite reachable set, exact values in nodes
  bool twoState = false;        // exact envelope
  double err = 0;               // bound on |V - V*| of the stored values
  std::vector<RefNode> nodes;   // node 0 is the initial state
  std::unordered_map<std::string, int> index;
  std::vector<std::pair<double, double>> lines;  // value a + b*p(state 1)
  double vmax = 1;              // magnitude of values

  bool build(const Model &m, int maxNodes = 6000);
  int find(const sim::SV *s, unsigned n) const;     // node or -1
  int find(const Sparse &s) const;
  int findText(const Sparse &s, double tol) const;  // for rounded text
  // optimal value; false if the state is not in the reachable set
  bool value(const sim::SV *s, unsigned n, double &lo, double &hi) const;
  bool value0(double &lo, double &hi) const;
  double q(int node, int a) const;
  // exact value of a stationary policy over nodes; act[i] = -1 means undefined
  std::vector<double> policyValue(const std::vector<int> &act) const;
  bool solve();
  std::vector<double> qValues(int node) const;
};
std::string keyOf(const Sparse &s);
// belief dynamics, independent of the program's
double obsProb(const Model &m, const Sparse &b, int a, int o, Sparse *next);
double beliefReward(const Model &m, const Sparse &b, int a);
bool beliefTerminal(const Model &m, const Sparse &b);
