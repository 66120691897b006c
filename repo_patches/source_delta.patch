From afae2f0be6d3bbfd94a8003c64eca8baf4fcb4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 01/40] Add simulation hooks guarded by ZMDP_SIM (off by
 default)

---
 src/bounds/BoundPair.cc     |  5 +++++
 src/common/zmdpCommonDefs.h | 22 ++++++++++++++++++++++
 src/search/RTDPCore.cc      | 14 ++++++++++++++
 3 files changed, 41 insertions(+)

diff --git a/src/bounds/BoundPair.cc b/src/bounds/BoundPair.cc
index 9423f7f..db6f963 100644
--- a/src/bounds/BoundPair.cc
+++ b/src/bounds/BoundPair.cc
@@ -212,6 +212,11 @@ void BoundPair::update(MDPNode &cn, int *maxUBActionP) {
   }
 
   numBackups++;
+
+#ifdef ZMDP_SIM
+  zmdpSimBackup(cn.s.data.data(), cn.s.data.size(), cn.lbVal, cn.ubVal,
+                numBackups);
+#endif
 }
 
 // this implementation is not very efficient, but it is guaranteed not
diff --git a/src/common/zmdpCommonDefs.h b/src/common/zmdpCommonDefs.h
index 281aa7f..3903129 100644
--- a/src/common/zmdpCommonDefs.h
+++ b/src/common/zmdpCommonDefs.h
@@ -73,4 +73,26 @@ _ForwardIterator eraseElement(_CollectionType &c, _ForwardIterator i) {
 
 }  // namespace zmdp
 
+#ifdef ZMDP_SIM
+// Hooks for deterministic simulation, off by default. They report what the
+// search has done so far; the simulator that links the library defines them.
+// States are passed as (entries, number of entries) of a sparse vector.
+namespace sla {
+struct cvector_entry;
+}
+extern "C" {
+// a backup of the given state has just finished
+void zmdpSimBackup(const sla::cvector_entry *s, unsigned int n, double lbVal,
+                   double ubVal, int numBackups);
+// a top-level trial has just finished; nonzero: report the known states too
+int zmdpSimTrial(bool done, double lbVal, double ubVal, int numBackups,
+                 int numStatesTouched, int numStatesExpanded);
+// one known state: bounds stored with it, and as answered by a query
+void zmdpSimValue(const sla::cvector_entry *s, unsigned int n, bool isTerminal,
+                  double lbVal, double ubVal, double lbQuery, double ubQuery);
+// all known states have been reported
+void zmdpSimTrialEnd(void);
+}
+#endif
+
 #endif  // ZMDP_SRC_COMMON_ZMDPCOMMONDEFS_H_
diff --git a/src/search/RTDPCore.cc b/src/search/RTDPCore.cc
index 25fa9d3..f8c2b52 100644
--- a/src/search/RTDPCore.cc
+++ b/src/search/RTDPCore.cc
@@ -125,6 +125,20 @@ bool RTDPCore::planFixedTime(const state_vector &s, double maxTimeSeconds,
     }
   }
 
+#ifdef ZMDP_SIM
+  MDPNode &simRoot = *bounds->getRootNode();
+  if (zmdpSimTrial(done, simRoot.lbVal, simRoot.ubVal, bounds->numBackups,
+                   bounds->numStatesTouched, bounds->numStatesExpanded)) {
+    FOR_EACH(pr, *(bounds->lookup)) {
+      MDPNode &simNode = *pr->second;
+      ValueInterval v = bounds->getValueAt(simNode.s);
+      zmdpSimValue(simNode.s.data.data(), simNode.s.data.size(),
+                   simNode.isTerminal, simNode.lbVal, simNode.ubVal, v.l, v.u);
+    }
+    zmdpSimTrialEnd();
+  }
+#endif
+
   return done;
 }
 
-- 
2.43.0


From d66fb45d510131c61d0c1c661e40d4d13c2e421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 02/40] fix: discount path costs in RelaxUBInitializer trials

With a discount factor below 1 the priorities of paths were compared as if
costs were not discounted, so trials ended before making any progress and
initialization never finished.
---
 src/bounds/RelaxUBInitializer.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/bounds/RelaxUBInitializer.cc b/src/bounds/RelaxUBInitializer.cc
index 5b0513b..10965e5 100644
--- a/src/bounds/RelaxUBInitializer.cc
+++ b/src/bounds/RelaxUBInitializer.cc
@@ -37,6 +37,7 @@ using namespace sla;
 using namespace MatrixUtils;
 
 #define OBS_IS_ZERO_EPS (1e-10)
+#define RB_PRIO_TOLERANCE (1e-9)
 
 namespace zmdp {
 
@@ -154,9 +155,12 @@ void RelaxUBInitializer::trialRecurse(MDPNode &cn, double costSoFar,
   double maxUBVal, secondBestUBVal;
   int maxUBAction = getMaxUBAction(cn, &maxUBVal, &secondBestUBVal);
 
-  // check for termination
-  double actionPrio = costSoFar + cn.ubVal;
-  if (altActionPrio > actionPrio) {
+  // check for termination.  priorities are values of whole paths from the root,
+  // so what happens at this depth must be discounted.  the tolerance keeps
+  // rounding error from ending every trial before it makes any progress.
+  double weight = pow(problem->getDiscount(), depth);
+  double actionPrio = costSoFar + weight * cn.ubVal;
+  if (altActionPrio > actionPrio + RB_PRIO_TOLERANCE) {
     if (zmdpDebugLevelG >= 1) {
       printf(
           "  RB trialRecurse: depth=%d [%g .. %g] costSoFar=%g "
@@ -191,9 +195,10 @@ void RelaxUBInitializer::trialRecurse(MDPNode &cn, double costSoFar,
   }
 
   // recurse to successor
-  double nextCostSoFar = costSoFar + cn.Q[maxUBAction].immediateReward;
+  double nextCostSoFar =
+      costSoFar + weight * cn.Q[maxUBAction].immediateReward;
   double nextAltActionPrio =
-      std::max(altActionPrio, secondBestUBVal + costSoFar);
+      std::max(altActionPrio, costSoFar + weight * secondBestUBVal);
   trialRecurse(cn.getNextState(maxUBAction, bestOutcome), nextCostSoFar,
                nextAltActionPrio, depth + 1);
 
-- 
2.43.0


From eb662a1b8ec9bbd7204cf955c54ac8da78b896e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 03/40] fix: honour 'values: cost' in Cassandra format models

The keyword was parsed and ignored, so costs were maximized.
---
 src/parsers/CassandraParser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 3c99c76..a05dd01 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -86,6 +86,10 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
   kmatrix Rk;
   copy(Rk, CASSANDRA_GLOBAL(Q), p.numStates);
   kmatrix_transpose_in_place(Rk);
+  if (COST_value_type == CASSANDRA_GLOBAL(gValueType)) {
+    // the model specifies costs to be minimized; the planner maximizes reward
+    FOR(i, Rk.data.size()) { Rk.data[i].value = -Rk.data[i].value; }
+  }
   copy(p.R, Rk);
 
   // convert T, Tr, and O to sla format
-- 
2.43.0


From b8a62b5193d54a52c8c180c1a3fd5cc8fbd14450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 04/40] fix: read models that specify no reward

The decision tree of rewards was not initialized and its lookup asserted.
---
 src/parsers/decision-tree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsers/decision-tree.c b/src/parsers/decision-tree.c
index 7158131..98132a2 100644
--- a/src/parsers/decision-tree.c
+++ b/src/parsers/decision-tree.c
@@ -337,6 +337,11 @@ void dtAdd(int action, int cur_state, int next_state, int obs, double val) {
 
 double dtGet(int action, int cur_state, int next_state, int obs) {
   int vec[DT_TABLE_DEPTH];
+
+  /* a model that never specifies a reward does not initialize the tree; like
+   * any other unspecified reward, the result is zero */
+  if (NULL == gTree) return 0.0;
+
   vec[0] = action;
   vec[1] = cur_state;
   vec[2] = next_state;
-- 
2.43.0


From 5731651a95859f093d606fc40a284f563d51636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 05/40] fix: never sample an outcome that has zero probability

The extremes of rand() selected outcomes without probability (or without a
successor node), indexed past the end of bootstrap samples, and failed an
assertion for models whose probabilities sum to 1 only within the parser's
tolerance.
---
 src/bounds/BoundPairCore.cc |  7 +++----
 src/common/MatrixUtils.h    | 26 +++++++++++++++++++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/bounds/BoundPairCore.cc b/src/bounds/BoundPairCore.cc
index 9fcf7e0..a9dca8e 100644
--- a/src/bounds/BoundPairCore.cc
+++ b/src/bounds/BoundPairCore.cc
@@ -67,11 +67,10 @@ int BoundPairCore::getSimulatedOutcome(MDPNode &cn, int a) {
   FOR(o, Qa.getNumOutcomes()) {
     MDPEdge *e = Qa.outcomes[o];
     if (NULL != e) {
+      // round-off error may keep r positive; never choose a missing outcome
+      result = o;
       r -= e->obsProb;
-      if (r <= 0) {
-        result = o;
-        break;
-      }
+      if (r <= 0) break;
     }
   }
 
diff --git a/src/common/MatrixUtils.h b/src/common/MatrixUtils.h
index c2dfd2a..0d936a0 100644
--- a/src/common/MatrixUtils.h
+++ b/src/common/MatrixUtils.h
@@ -37,6 +37,10 @@
 #include "zmdpCommonDefs.h"
 #include "zmdpCommonTypes.h"
 
+// Model files are accepted if each distribution sums to 1 within 1e-5, so the
+// distributions derived from them can be off by a small multiple of that.
+#define CHOOSE_FROM_DISTRIBUTION_EPS (1e-4)
+
 namespace MatrixUtils {
 
 /**********************************************************************
@@ -46,7 +50,7 @@ namespace MatrixUtils {
 // seed random number generator (may also do other things in the future)
 void init_matrix_utils(void);
 
-// Generate a sample from a uniform distribution over [0,1].
+// Generate a sample from a uniform distribution over [0,1).
 double unit_rand(void);
 
 // Generate a matrix where each sample is drawn according to unit_rand().
@@ -93,9 +97,9 @@ inline void init_matrix_utils(void) {
   rand();
 }
 
-// Generate a sample from a uniform distribution over [0,1].
+// Generate a sample from a uniform distribution over [0,1).
 inline double unit_rand(void) {
-  return (static_cast<double>(std::rand())) / RAND_MAX;
+  return static_cast<double>(std::rand()) / (RAND_MAX + 1.0);
 }
 
 // Generate a matrix where each sample is drawn according to unit_rand().
@@ -159,34 +163,42 @@ inline int argmax_elt(const cvector &v) {
 // Chooses an outcome according to the distribution.
 inline int chooseFromDistribution(const dvector &b) {
   double r = unit_rand();
+  int lastPossible = 0;
   FOR(i, b.size()) {
+    // never choose an element that has no probability
+    if (b(i) <= 0) continue;
+    lastPossible = i;
     r -= b(i);
     if (r <= 0) return i;
   }
-  if (r >= 1e-10) {
+  if (r >= CHOOSE_FROM_DISTRIBUTION_EPS) {
     // should never reach this point if b is normalized properly
     //   (up to round-off error)
     printf("chooseFromDistribution: b=%s 1-sum(b)=%g\n", denseRep(b).c_str(),
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return lastPossible;
 }
 
 inline int chooseFromDistribution(const cvector &b) {
   double r = unit_rand();
+  int lastPossible = 0;
   FOR_CV(b) {
+    // never choose an element that has no probability
+    if (CV_VAL(b) <= 0) continue;
+    lastPossible = CV_INDEX(b);
     r -= CV_VAL(b);
     if (r <= 0) return CV_INDEX(b);
   }
-  if (r >= 1e-10) {
+  if (r >= CHOOSE_FROM_DISTRIBUTION_EPS) {
     // should never reach this point if b is normalized properly
     //   (up to round-off error)
     printf("chooseFromDistribution: b=%s 1-sum(b)=%g\n", sparseRep(b).c_str(),
            1 - sum(b));
     assert(0);
   }
-  return 0;
+  return lastPossible;
 }
 
 inline const char *hashable(const dvector &b) {
-- 
2.43.0


From 48357b9945f5c8c1ed4c9ae6e4f5e8fa996a1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 06/40] fix: keep masked lower bound planes valid when beliefs
 are truncated

Next beliefs drop entries below 1e-10, so a plane that is masked to the
support of such a belief says nothing about the dropped states.  Backups at
the parent treated the missing entries as a value of zero; when rewards are
negative the resulting plane overestimates the value of other beliefs (the
default configuration could report a lower bound far above the optimal
value).  Charge the missing states a worst-case value instead.
---
 src/pomdpBounds/BlindLBInitializer.cc  |  4 ++
 src/pomdpBounds/MaxPlanesLowerBound.cc | 59 +++++++++++++++++++++++---
 src/pomdpBounds/MaxPlanesLowerBound.h  |  2 +
 3 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/src/pomdpBounds/BlindLBInitializer.cc b/src/pomdpBounds/BlindLBInitializer.cc
index a36c33f..3b43303 100644
--- a/src/pomdpBounds/BlindLBInitializer.cc
+++ b/src/pomdpBounds/BlindLBInitializer.cc
@@ -54,6 +54,7 @@ void BlindLBInitializer::initBlindWorstCase(alpha_vector &weakAlpha) {
   double worstStateVal;
   // int safestAction = -1;
   double worstCaseReward = -99e+20;
+  double minReward = 99e+20;
   // calculate worstCaseReward = max_a min_s R(s,a)
   // safestAction = argmax_a min_s R(s,a)
   FOR(a, pomdp->getNumActions()) {
@@ -65,6 +66,7 @@ void BlindLBInitializer::initBlindWorstCase(alpha_vector &weakAlpha) {
       // safestAction = a;
       worstCaseReward = worstStateVal;
     }
+    minReward = std::min(minReward, worstStateVal);
   }
   dvector worstCaseDVector(pomdp->getNumStateDimensions());
 
@@ -84,6 +86,8 @@ void BlindLBInitializer::initBlindWorstCase(alpha_vector &weakAlpha) {
   }
   assert(longTermFactor != POMDP_LONG_TERM_UNBOUNDED);
 
+  bound->worstCaseLongTerm = std::min(0.0, minReward * longTermFactor);
+
   double worstCaseLongTerm = worstCaseReward * longTermFactor;
   FOR(i, pomdp->numStates) { worstCaseDVector(i) = worstCaseLongTerm; }
 
diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index abd2778..9da25c5 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -75,6 +75,23 @@ static bool dominates(const LBPlane *a, const LBPlane *b,
   }
 }
 
+// for all i not in mask: result(i) += A(i,c).  returns true if result changed.
+static bool addUnmaskedEntries(dvector &result, const cmatrix &A, int c,
+                               const mvector &mask) {
+  bool changed = false;
+  typeof(A.data.begin()) ai = A.data.begin() + A.col_starts[c];
+  typeof(A.data.begin()) aend = A.data.begin() + A.col_starts[c + 1];
+  typeof(mask.data.begin()) mi = mask.data.begin(), mend = mask.data.end();
+  for (; ai != aend; ai++) {
+    while (mi != mend && mi->index < ai->index) mi++;
+    if (mi == mend || mi->index != ai->index) {
+      result(ai->index) += ai->value;
+      changed = true;
+    }
+  }
+  return changed;
+}
+
 /**********************************************************************
  * LBPLANE
  **********************************************************************/
@@ -127,7 +144,8 @@ MaxPlanesLowerBound::MaxPlanesLowerBound(const MDP *_pomdp,
     : pomdp((const Pomdp *)_pomdp),
       config(_config),
       core(NULL),
-      initialized(false) {
+      initialized(false),
+      worstCaseLongTerm(0.0) {
   lastPruneNumPlanes = 0;
   lastPruneNumBackups = -1;
   useMaxPlanesMasking = config->getBool("useMaxPlanesMasking");
@@ -172,13 +190,21 @@ void MaxPlanesLowerBound::getNewLBPlaneQ(LBPlane &result, MDPNode &cn, int a) {
   set_to_zero(betaA);
 
   bool defaultIsSet = false;
-  const alpha_vector *defaultBetaAO = NULL;
+  const LBPlane *defaultPlane = NULL;
   const MDPQEntry &Qa = cn.Q[a];
   alpha_vector maskedBeta;
+  // unmodeled(sp): probability of seeing, in state sp, an observation for
+  // which sp is missing from the alpha vector that is plugged in below.
+  dvector unmodeled;
+  bool anyUnmodeled = false;
+  if (useMaxPlanesMasking) unmodeled.resize(pomdp->getBeliefSize());
   FOR(o, Qa.getNumOutcomes()) {
+    const sla::mvector *mask;
     MDPEdge *e = Qa.outcomes[o];
     if (NULL != e) {
-      betaAO = &getPlaneForNode(*e->nextState).alpha;
+      const LBPlane &plane = getPlaneForNode(*e->nextState);
+      betaAO = &plane.alpha;
+      mask = &plane.mask;
       if (useMaxPlanesMasking) {
         // occasionally, even if the nextState belief is sparse, the
         // corresponding betaAO is one of the dense alpha vectors produced
@@ -188,6 +214,7 @@ void MaxPlanesLowerBound::getNewLBPlaneQ(LBPlane &result, MDPNode &cn, int a) {
         if (betaAO->filled() > cn.s.filled()) {
           mask_copy(maskedBeta, *betaAO, e->nextState->s);
           betaAO = &maskedBeta;
+          mask = &e->nextState->s;
         }
       }
     } else {
@@ -195,10 +222,15 @@ void MaxPlanesLowerBound::getNewLBPlaneQ(LBPlane &result, MDPNode &cn, int a) {
       // pick the alpha that optimizes for the next belief.  plug in a
       // default alpha (arbitrarily chosen to optimize for cn.s).
       if (!defaultIsSet) {
-        defaultBetaAO = &getPlaneForNode(cn).alpha;
+        defaultPlane = &getPlaneForNode(cn);
         defaultIsSet = true;
       }
-      betaAO = defaultBetaAO;
+      betaAO = &defaultPlane->alpha;
+      mask = &defaultPlane->mask;
+    }
+    if (useMaxPlanesMasking &&
+        addUnmaskedEntries(unmodeled, pomdp->O[a], o, *mask)) {
+      anyUnmodeled = true;
     }
 
     emult_column(tmp, pomdp->O[a], o, *betaAO);
@@ -218,6 +250,23 @@ void MaxPlanesLowerBound::getNewLBPlaneQ(LBPlane &result, MDPNode &cn, int a) {
   } else {
     copy_from_column(Rxa, pomdp->R, a);
   }
+  if (anyUnmodeled && worstCaseLongTerm < 0.0) {
+    // next beliefs are truncated to their non-negligible entries, so a state
+    // that is reachable from a state in the support of cn.s can be missing
+    // from betaAO.  what happens after reaching such a state is negligible at
+    // cn.s, but it can matter at other beliefs that use the new plane.
+    alpha_vector correction(pomdp->getBeliefSize());
+    copy(tmp, unmodeled);
+    FOR_CV(cn.s) {
+      int s = CV_INDEX(cn.s);
+      double missingProb = inner_prod_column(pomdp->Ttr[a], s, tmp);
+      if (missingProb > 0.0) {
+        correction.push_back(s, missingProb * worstCaseLongTerm);
+      }
+    }
+    correction.canonicalize();
+    betaA += correction;
+  }
   betaA *= pomdp->getDiscount();
   betaA += Rxa;
 
diff --git a/src/pomdpBounds/MaxPlanesLowerBound.h b/src/pomdpBounds/MaxPlanesLowerBound.h
index f55a3a6..ce81636 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.h
+++ b/src/pomdpBounds/MaxPlanesLowerBound.h
@@ -70,6 +70,8 @@ struct MaxPlanesLowerBound : public IncrementalLowerBound {
   bool useMaxPlanesCache;
   bool useMaxPlanesExtraPruning;
   bool initialized;
+  // a lower bound on the long-term reward of every policy in every state
+  double worstCaseLongTerm;
 
   MaxPlanesLowerBound(const MDP *_pomdp, const ZMDPConfig *_config);
   ~MaxPlanesLowerBound(void);
-- 
2.43.0


From 702d80a9a3e16a90c967de86786f6d683a27f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 07/40] fix: never loosen a node's upper bound in
 SawtoothUpperBound::update

The initial (FIB) upper bound is not uniformly improvable with the sawtooth
representation, so a backup could replace a bound with a larger one.
PointUpperBound already takes the minimum of the old and new values.
---
 src/pomdpBounds/SawtoothUpperBound.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomdpBounds/SawtoothUpperBound.cc b/src/pomdpBounds/SawtoothUpperBound.cc
index 033e627..639d575 100644
--- a/src/pomdpBounds/SawtoothUpperBound.cc
+++ b/src/pomdpBounds/SawtoothUpperBound.cc
@@ -75,7 +75,9 @@ void SawtoothUpperBound::initNodeBound(MDPNode &cn) {
 
 void SawtoothUpperBound::update(MDPNode &cn, int *maxUBActionP) {
   double newUBVal = getNewUBValue(cn, maxUBActionP);
-  setUBForNode(cn, newUBVal, true);
+  // the initial upper bound is not uniformly improvable, so the backed-up
+  // value can be larger than the old one; never loosen the bound.
+  setUBForNode(cn, std::min(newUBVal, cn.ubVal), true);
 }
 
 // returns the upper bound that the (belief,value) pair c induces on b.
-- 
2.43.0


From c98ce85b645f69d4a1fb08538c7a4661a846368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 08/40] fix: do not claim the target was reached when the
 backup limit ended a run

---
 src/common/Solver.h    | 4 ++++
 src/main/zmdp.cc       | 6 +++++-
 src/search/RTDPCore.cc | 8 ++++++--
 src/search/RTDPCore.h  | 2 ++
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/common/Solver.h b/src/common/Solver.h
index c632d42..8aa47b3 100644
--- a/src/common/Solver.h
+++ b/src/common/Solver.h
@@ -45,6 +45,10 @@ class Solver {
   // sets the minimum safety value, for a solver that understands safety
   virtual void setMinSafety(double _minSafety) {}
 
+  // returns true if planFixedTime() asked to stop because a limit on the
+  // amount of work was reached, rather than because targetPrecision was reached
+  virtual bool reachedWorkLimit(void) const { return false; }
+
   // wraps up logging actions when the run is finished
   virtual void finishLogging(void) {}
 };
diff --git a/src/main/zmdp.cc b/src/main/zmdp.cc
index d0fd8f7..e2992aa 100644
--- a/src/main/zmdp.cc
+++ b/src/main/zmdp.cc
@@ -116,7 +116,11 @@ void doSolve(const ZMDPConfig &config) {
   }
 
   // say why the run ended
-  if (reachedTargetPrecision) {
+  if (reachedTargetPrecision && so.solver->reachedWorkLimit()) {
+    printf("%05d terminating run; reached specified limit of %d backups\n",
+           static_cast<int>(run.elapsedTime()),
+           config.getInt("terminateNumBackups"));
+  } else if (reachedTargetPrecision) {
     printf("%05d terminating run; reached target regret bound of %g\n",
            static_cast<int>(run.elapsedTime()), p.terminateRegretBound);
   } else if (reachedTimeout) {
diff --git a/src/search/RTDPCore.cc b/src/search/RTDPCore.cc
index f8c2b52..6091ff4 100644
--- a/src/search/RTDPCore.cc
+++ b/src/search/RTDPCore.cc
@@ -44,7 +44,10 @@ using namespace MatrixUtils;
 
 namespace zmdp {
 
-RTDPCore::RTDPCore(void) : boundsFile(NULL), initialized(false) {}
+RTDPCore::RTDPCore(void)
+    : boundsFile(NULL), initialized(false), reachedBackupLimit(false) {}
+
+bool RTDPCore::reachedWorkLimit(void) const { return reachedBackupLimit; }
 
 void RTDPCore::setBounds(BoundPairCore *_bounds) { bounds = _bounds; }
 
@@ -107,7 +110,8 @@ bool RTDPCore::planFixedTime(const state_vector &s, double maxTimeSeconds,
   // disable this termination check for now
   // if (root->ubVal - root->lbVal < targetPrecision) return true;
   bool done = doTrial(*bounds->getRootNode());
-  done = done || (bounds->numBackups >= terminateNumBackups);
+  reachedBackupLimit = !done && (bounds->numBackups >= terminateNumBackups);
+  done = done || reachedBackupLimit;
 
   previousElapsedTime = getTime() - boundsStartTime;
 
diff --git a/src/search/RTDPCore.h b/src/search/RTDPCore.h
index fbb8864..b272650 100644
--- a/src/search/RTDPCore.h
+++ b/src/search/RTDPCore.h
@@ -74,6 +74,7 @@ struct RTDPCore : public Solver {
   double targetPrecision;
   const ZMDPConfig *config;
   int terminateNumBackups;
+  bool reachedBackupLimit;
 
   bool useLogBackups;
   std::string stateIndexOutputFile;
@@ -101,6 +102,7 @@ struct RTDPCore : public Solver {
   ValueInterval getValueAt(const state_vector &s) const;
   void trackBackup(const MDPNode &backedUpNode);
   void maybeLogBackups(void);
+  bool reachedWorkLimit(void) const;
   void finishLogging(void);
 };
 
-- 
2.43.0


From 639918f61be392ccadecdb176a46591ab43c9c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 09/40] fix: successor belief when every entry falls below the
 sparsity threshold

An observation with probability above 1e-10 can be reachable only through
states whose individual weights are all below it; the sparse product then
came out empty and normalising it gave a belief with no entries, on which
the evaluator crashed.
---
 src/pomdpCore/Pomdp.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pomdpCore/Pomdp.cc b/src/pomdpCore/Pomdp.cc
index 9996197..9d2dcb2 100644
--- a/src/pomdpCore/Pomdp.cc
+++ b/src/pomdpCore/Pomdp.cc
@@ -86,6 +86,18 @@ belief_vector &Pomdp::getNextBelief(belief_vector &result,
   mult(tmp, Ttr[a], b);
   emult_column(result, O[a], o, tmp);
 
+  if (0 == result.filled()) {
+    // every state in which o can be observed has negligible probability and
+    // was dropped from tmp, but the observation is not impossible; repeat the
+    // calculation without dropping entries until after normalization
+    dvector denseTmp, denseResult;
+    mult(denseTmp, Ttr[a], b);
+    emult_column(denseResult, O[a], o, denseTmp);
+    denseResult *= (1.0 / sum(denseResult));
+    copy(result, denseResult);
+    return result;
+  }
+
   // renormalize
   result *= (1.0 / sum(result));
 
-- 
2.43.0


From 80ff10f940bd5efede7611042bb4902d7921a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 10/40] fix: never draw an outcome the MDP cache treats as
 impossible

CacheMDP has no successor for outcomes with probability <= 1e-10 but left
their probability in the vector that outcomes are sampled from.
---
 src/mdps/CacheMDP.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdps/CacheMDP.cc b/src/mdps/CacheMDP.cc
index e81ee92..2b0019d 100644
--- a/src/mdps/CacheMDP.cc
+++ b/src/mdps/CacheMDP.cc
@@ -150,6 +150,8 @@ CMDPQEntry *CacheMDP::getQ(CMDPNode &cn, int a) {
         e->userDouble = 0.0;
         Qa.outcomes[o] = e;
       } else {
+        // make sure it is never drawn
+        Qa.opv(o) = 0.0;
         Qa.outcomes[o] = NULL;
       }
     }
-- 
2.43.0


From c38ff3a973c7c1b7b3ac779eb62e5e4880abe47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 11/40] fix: accept the documented value 'maxPlanes' for
 lowerBoundRepresentation

zmdp.config documents '-', 'point' and 'maxPlanes'; only 'convex' was
accepted.
---
 src/main/solverUtils.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/solverUtils.cc b/src/main/solverUtils.cc
index d53cb5b..0f7b019 100644
--- a/src/main/solverUtils.cc
+++ b/src/main/solverUtils.cc
@@ -58,7 +58,11 @@ static EnumEntry modelTypeTableG[] = {{"-", -1},
                                       {NULL, -1}};
 
 static EnumEntry lowerBoundRepresentationTableG[] = {
-    {"-", -1}, {"point", V_POINT}, {"convex", V_MAXPLANES}, {NULL, -1}};
+    {"-", -1},
+    {"point", V_POINT},
+    {"maxPlanes", V_MAXPLANES},
+    {"convex", V_MAXPLANES},
+    {NULL, -1}};
 
 static EnumEntry upperBoundRepresentationTableG[] = {
     {"-", -1}, {"point", V_POINT}, {"sawtooth", V_SAWTOOTH}, {NULL, -1}};
-- 
2.43.0


From a3a2f9e3a479a2345349327791261a20e4b3da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 12/40] fix: policy backup commands of 'zmdp benchmark' in a
 POSIX shell

'>& /dev/null' is not portable: sh reports a bad fd number and does not run
the command, so no backup of the policy was ever made.
---
 src/main/TestDriver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/TestDriver.cc b/src/main/TestDriver.cc
index 0549add..3696a3b 100644
--- a/src/main/TestDriver.cc
+++ b/src/main/TestDriver.cc
@@ -153,7 +153,7 @@ void TestDriver::batchTestIncremental(
         // create a backup of the policy from the last epoch in case policy
         // writing is interrupted
         string cmd = string("mv ") + outPolicyFileName + " " +
-                     outPolicyFileName + ".bak >& /dev/null";
+                     outPolicyFileName + ".bak > /dev/null 2>&1";
         if (0 != system(cmd.c_str())) {
           fprintf(stderr, "failed to make policy backup");
         }
@@ -162,7 +162,7 @@ void TestDriver::batchTestIncremental(
                                /* canModifyBounds = */ false);
 
         // delete the backup
-        cmd = string("rm -f ") + outPolicyFileName + ".bak >& /dev/null";
+        cmd = string("rm -f ") + outPolicyFileName + ".bak > /dev/null 2>&1";
         if (0 != system(cmd.c_str())) {
           fprintf(stderr, "failed to delete policy backup");
         }
-- 
2.43.0


From 8a080cd82eb62f2dabfe9eef7dcefc38d16dfd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 13/40] fix: report output files that could not be written
 completely

A full disk or I/O error while writing a policy, log or plot file went
unnoticed: 'zmdp' ended successfully and left a truncated file.  Two checks
of newly opened files tested the pointer instead of the stream.
---
 src/common/embedFiles.h                |  8 ++++++--
 src/exec/PolicyEvaluator.cc            | 18 +++++++++++++++++-
 src/exec/PolicyEvaluatorLSHack.cc      | 18 +++++++++++++++++-
 src/main/TestDriver.cc                 | 19 +++++++++++++++++--
 src/pomdpBounds/MaxPlanesLowerBound.cc |  5 +++++
 src/search/StateLog.cc                 | 24 ++++++++++++++++++++++++
 6 files changed, 86 insertions(+), 6 deletions(-)

diff --git a/src/common/embedFiles.h b/src/common/embedFiles.h
index 5b69244..0b14864 100644
--- a/src/common/embedFiles.h
+++ b/src/common/embedFiles.h
@@ -47,8 +47,12 @@ inline void embedWriteToFile(const char *fileName, const embed_buffer_t &buf) {
             strerror(errno));
     exit(EXIT_FAILURE);
   }
-  fwrite(buf.data, 1, buf.size, outFile);
-  fclose(outFile);
+  bool ok = (buf.size == fwrite(buf.data, 1, buf.size, outFile));
+  if (0 != fclose(outFile)) ok = false;
+  if (!ok) {
+    fprintf(stderr, "ERROR: couldn't write to %s\n", fileName);
+    exit(EXIT_FAILURE);
+  }
 }
 
 #endif  // ZMDP_SRC_COMMON_EMBEDFILES_H_
diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 83ffa45..de55072 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -84,7 +84,7 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   if (verbose) {
     scoresOutFile = new ofstream(scoresOutputFile.c_str());
-    if (!scoresOutFile) {
+    if (!(*scoresOutFile)) {
       fprintf(stderr, "ERROR: couldn't open %s for writing: %s\n",
               scoresOutputFile.c_str(), strerror(errno));
       exit(EXIT_FAILURE);
@@ -117,6 +117,22 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   successRate = successRateSum / numBatches;
 
+  // make sure that everything logged has been written
+  simOutFile->close();
+  if (!(*simOutFile)) {
+    fprintf(stderr, "ERROR: couldn't write to %s\n",
+            simulationTraceOutputFile.c_str());
+    exit(EXIT_FAILURE);
+  }
+  if (verbose) {
+    scoresOutFile->close();
+    if (!(*scoresOutFile)) {
+      fprintf(stderr, "ERROR: couldn't write to %s\n",
+              scoresOutputFile.c_str());
+      exit(EXIT_FAILURE);
+    }
+  }
+
   // cleanup
 #define DELETE_AND_NULL(x) \
   if (NULL != (x)) {       \
diff --git a/src/exec/PolicyEvaluatorLSHack.cc b/src/exec/PolicyEvaluatorLSHack.cc
index 28b753a..6921938 100644
--- a/src/exec/PolicyEvaluatorLSHack.cc
+++ b/src/exec/PolicyEvaluatorLSHack.cc
@@ -88,7 +88,7 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   if (verbose) {
     scoresOutFile = new ofstream(scoresOutputFile.c_str());
-    if (!scoresOutFile) {
+    if (!(*scoresOutFile)) {
       fprintf(stderr, "ERROR: couldn't open %s for writing: %s\n",
               scoresOutputFile.c_str(), strerror(errno));
       exit(EXIT_FAILURE);
@@ -121,6 +121,22 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   successRate = successRateSum / numBatches;
 
+  // make sure that everything logged has been written
+  simOutFile->close();
+  if (!(*simOutFile)) {
+    fprintf(stderr, "ERROR: couldn't write to %s\n",
+            simulationTraceOutputFile.c_str());
+    exit(EXIT_FAILURE);
+  }
+  if (verbose) {
+    scoresOutFile->close();
+    if (!(*scoresOutFile)) {
+      fprintf(stderr, "ERROR: couldn't write to %s\n",
+              scoresOutputFile.c_str());
+      exit(EXIT_FAILURE);
+    }
+  }
+
   // cleanup
 #define DELETE_AND_NULL(x) \
   if (NULL != (x)) {       \
diff --git a/src/main/TestDriver.cc b/src/main/TestDriver.cc
index 3696a3b..05d2cf3 100644
--- a/src/main/TestDriver.cc
+++ b/src/main/TestDriver.cc
@@ -42,6 +42,13 @@ using namespace MatrixUtils;
 
 namespace zmdp {
 
+static void checkWritten(const ofstream &out, const string &fileName) {
+  if (!out) {
+    cerr << "ERROR: couldn't write to " << fileName << endl;
+    exit(EXIT_FAILURE);
+  }
+}
+
 void TestDriver::batchTestIncremental(
     const ZMDPConfig &config, int numIterations, SolverObjects &so,
     int numSteps, double minPrecision, double firstEpochWallclockSeconds,
@@ -84,8 +91,8 @@ void TestDriver::batchTestIncremental(
   string storageOutputFileName = config.getString("storageOutputFile");
   if (storageOutputFileName != "none") {
     storageOutputFile = new ofstream(storageOutputFileName.c_str());
-    if (!storageOutputFile) {
-      cerr << "ERROR: couldn't open " << storageOutputFile
+    if (!(*storageOutputFile)) {
+      cerr << "ERROR: couldn't open " << storageOutputFileName
            << " for writing: " << strerror(errno) << endl;
       exit(EXIT_FAILURE);
     }
@@ -245,6 +252,14 @@ void TestDriver::batchTestIncremental(
   }
 
   so.solver->finishLogging();
+
+  // report any log that is not complete
+  checkWritten(incPlotFile, incPlotFileName);
+  checkWritten(boundsFile, boundsFileName);
+  checkWritten(simOutFile, simFileName);
+  if (storageOutputFile) {
+    checkWritten(*storageOutputFile, storageOutputFileName);
+  }
 }
 
 };  // namespace zmdp
diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 9da25c5..1d8b82c 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -620,6 +620,11 @@ void MaxPlanesLowerBound::writeToFile(const std::string &outFileName) const {
   out << "}" << endl;
 
   out.close();
+  if (!out) {
+    cerr << "ERROR: MaxPlanesLowerBound::writeToFile: couldn't write policy to "
+         << outFileName << endl;
+    exit(EXIT_FAILURE);
+  }
 }
 
 void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
diff --git a/src/search/StateLog.cc b/src/search/StateLog.cc
index cd31ca8..59f82b8 100644
--- a/src/search/StateLog.cc
+++ b/src/search/StateLog.cc
@@ -98,6 +98,12 @@ void StateIndex::writeToFile(const std::string &outFile) const {
     }
   }
 
+  out.close();
+  if (!out) {
+    fprintf(stderr, "ERROR: couldn't write to %s\n", outFile.c_str());
+    exit(EXIT_FAILURE);
+  }
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote index of %d states to %s\n", static_cast<int>(entries.size()),
            outFile.c_str());
@@ -185,6 +191,12 @@ void StateIndex::writeBoundValuesToFile(const std::string &outFile,
         << intv.u << endl;
   }
 
+  out.close();
+  if (!out) {
+    fprintf(stderr, "ERROR: couldn't write to %s\n", outFile.c_str());
+    exit(EXIT_FAILURE);
+  }
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote bound values for %d states to %s\n",
            static_cast<int>(entries.size()), outFile.c_str());
@@ -221,6 +233,12 @@ void StateIndex::writeQValuesToFile(const std::string &outFile,
     }
   }
 
+  out.close();
+  if (!out) {
+    fprintf(stderr, "ERROR: couldn't write to %s\n", outFile.c_str());
+    exit(EXIT_FAILURE);
+  }
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote bound values for %d states to %s\n",
            static_cast<int>(entries.size()), outFile.c_str());
@@ -251,6 +269,12 @@ void StateLog::writeToFile(const std::string &outFile) const {
 
   FOR_EACH(e, entries) { out << (*e) << endl; }
 
+  out.close();
+  if (!out) {
+    fprintf(stderr, "ERROR: couldn't write to %s\n", outFile.c_str());
+    exit(EXIT_FAILURE);
+  }
+
   if (zmdpDebugLevelG >= 1) {
     printf("wrote log of %d backups to %s\n", static_cast<int>(entries.size()),
            outFile.c_str());
-- 
2.43.0


From 6eec7d7cb64b13d6d17c4b92b505b1388a1318ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:09 +0000
Subject: [PATCH 14/40] fix: run trials without recursion, which overflowed the
 call stack

FRTDP and HSVI trials get deeper as the search goes on, and RTDP and LRTDP
trials last until a terminal state is drawn; after a few seconds of solving a
two-state POMDP to a tight regret bound the recursion exhausted the stack.
---
 src/search/FRTDP.cc | 30 +++++++++++++++++++++---------
 src/search/FRTDP.h  |  3 ++-
 src/search/HSVI.cc  | 30 +++++++++++++++++++++---------
 src/search/HSVI.h   |  3 ++-
 src/search/LRTDP.cc | 26 +++++++++++++++++---------
 src/search/LRTDP.h  |  3 ++-
 src/search/RTDP.cc  | 25 +++++++++++++++++++------
 src/search/RTDP.h   |  3 ++-
 8 files changed, 86 insertions(+), 37 deletions(-)

diff --git a/src/search/FRTDP.cc b/src/search/FRTDP.cc
index b75a5ec..27c186d 100644
--- a/src/search/FRTDP.cc
+++ b/src/search/FRTDP.cc
@@ -108,7 +108,8 @@ void FRTDP::update(MDPNode &cn, FRTDPUpdateResult &r) {
   // getPrio(cn) = r.maxPrio;
 }
 
-void FRTDP::trialRecurse(MDPNode &cn, double logOcc, int depth) {
+// visits one node of a trial; returns the next node, or NULL if the trial ends
+MDPNode *FRTDP::trialStep(MDPNode &cn, double &logOcc, int depth) {
   FRTDPUpdateResult r;
   update(cn, r);
 
@@ -151,18 +152,31 @@ void FRTDP::trialRecurse(MDPNode &cn, double logOcc, int depth) {
       printf("  trialRecurse: s=%s\n", sparseRep(cn.s).c_str());
     }
 
-    return;
+    return NULL;
   }
 
   // recurse to successor
   assert(-1 != r.maxPrioOutcome);
   double obsProb = cn.Q[r.maxUBAction].outcomes[r.maxPrioOutcome]->obsProb;
   double weight = problem->getDiscount() * obsProb;
-  double nextLogOcc = logOcc + log(weight);
-  trialRecurse(cn.getNextState(r.maxUBAction, r.maxPrioOutcome), nextLogOcc,
-               depth + 1);
+  logOcc += log(weight);
+  return &cn.getNextState(r.maxUBAction, r.maxPrioOutcome);
+}
 
-  update(cn, r);
+void FRTDP::runTrial(MDPNode &root) {
+  // trials can become too deep to recurse on the call stack
+  std::vector<MDPNode *> path;
+  double logOcc = log(1.0);
+  for (MDPNode *cn = &root; NULL != cn;) {
+    path.push_back(cn);
+    cn = trialStep(*cn, logOcc, path.size() - 1);
+  }
+
+  // update again on the way back, except at the node that ended the trial
+  FRTDPUpdateResult r;
+  for (path.pop_back(); !path.empty(); path.pop_back()) {
+    update(*path.back(), r);
+  }
 }
 
 bool FRTDP::doTrial(MDPNode &cn) {
@@ -175,9 +189,7 @@ bool FRTDP::doTrial(MDPNode &cn) {
   newQualitySum = 0;
   newNumUpdates = 0;
 
-  trialRecurse(cn,
-               /* logOcc = */ log(1.0),
-               /* depth = */ 0);
+  runTrial(cn);
 
   double updateQualityDiff;
   if (0 == oldQualitySum) {
diff --git a/src/search/FRTDP.h b/src/search/FRTDP.h
index 2d38849..6f13f88 100644
--- a/src/search/FRTDP.h
+++ b/src/search/FRTDP.h
@@ -48,7 +48,8 @@ struct FRTDP : public RTDPCore {
   static double &getPrio(const MDPNode &cn);
   void getMaxPrioOutcome(MDPNode &cn, int a, FRTDPUpdateResult &result) const;
   void update(MDPNode &cn, FRTDPUpdateResult &result);
-  void trialRecurse(MDPNode &cn, double logOcc, int depth);
+  MDPNode *trialStep(MDPNode &cn, double &logOcc, int depth);
+  void runTrial(MDPNode &root);
   bool doTrial(MDPNode &cn);
   void derivedClassInit(void);
 };
diff --git a/src/search/HSVI.cc b/src/search/HSVI.cc
index 85d9ac9..1eda733 100644
--- a/src/search/HSVI.cc
+++ b/src/search/HSVI.cc
@@ -83,7 +83,8 @@ void HSVI::update(MDPNode &cn, int depth, HSVIUpdateResult &r) {
   getMaxExcessUncOutcome(cn, depth, r);
 }
 
-void HSVI::trialRecurse(MDPNode &cn, double logOcc, int depth) {
+// visits one node of a trial; returns the next node, or NULL if the trial ends
+MDPNode *HSVI::trialStep(MDPNode &cn, double &logOcc, int depth) {
   double excessUnc = cn.ubVal - cn.lbVal -
                      trialTargetPrecision * pow(problem->getDiscount(), -depth);
 
@@ -98,7 +99,7 @@ void HSVI::trialRecurse(MDPNode &cn, double logOcc, int depth) {
       printf("  trialRecurse: s=%s\n", sparseRep(cn.s).c_str());
     }
 
-    return;
+    return NULL;
   }
 
   HSVIUpdateResult r;
@@ -126,11 +127,24 @@ void HSVI::trialRecurse(MDPNode &cn, double logOcc, int depth) {
   assert(-1 != r.maxExcessUncOutcome);
   double obsProb = cn.Q[r.maxUBAction].outcomes[r.maxExcessUncOutcome]->obsProb;
   double weight = problem->getDiscount() * obsProb;
-  double nextLogOcc = logOcc + log(weight);
-  trialRecurse(cn.getNextState(r.maxUBAction, r.maxExcessUncOutcome),
-               nextLogOcc, depth + 1);
+  logOcc += log(weight);
+  return &cn.getNextState(r.maxUBAction, r.maxExcessUncOutcome);
+}
 
-  update(cn, depth, r);
+void HSVI::runTrial(MDPNode &root) {
+  // trials can become too deep to recurse on the call stack
+  std::vector<MDPNode *> path;
+  double logOcc = log(1.0);
+  for (MDPNode *cn = &root; NULL != cn;) {
+    path.push_back(cn);
+    cn = trialStep(*cn, logOcc, path.size() - 1);
+  }
+
+  // update again on the way back, except at the node that ended the trial
+  HSVIUpdateResult r;
+  for (path.pop_back(); !path.empty(); path.pop_back()) {
+    update(*path.back(), path.size() - 1, r);
+  }
 }
 
 bool HSVI::doTrial(MDPNode &cn) {
@@ -147,9 +161,7 @@ bool HSVI::doTrial(MDPNode &cn) {
 
   trialTargetPrecision = (cn.ubVal - cn.lbVal) * HSVI_IMPROVEMENT_CONSTANT;
 
-  trialRecurse(cn,
-               /* logOcc = */ log(1.0),
-               /* depth = */ 0);
+  runTrial(cn);
 
 #if USE_HSVI_ADAPTIVE_DEPTH
   double updateQualityRatio;
diff --git a/src/search/HSVI.h b/src/search/HSVI.h
index b3e464c..8adc32b 100644
--- a/src/search/HSVI.h
+++ b/src/search/HSVI.h
@@ -46,7 +46,8 @@ struct HSVI : public RTDPCore {
   void getMaxExcessUncOutcome(MDPNode &cn, int depth,
                               HSVIUpdateResult &r) const;
   void update(MDPNode &cn, int depth, HSVIUpdateResult &result);
-  void trialRecurse(MDPNode &cn, double logOcc, int depth);
+  MDPNode *trialStep(MDPNode &cn, double &logOcc, int depth);
+  void runTrial(MDPNode &root);
   bool doTrial(MDPNode &cn);
 };
 
diff --git a/src/search/LRTDP.cc b/src/search/LRTDP.cc
index e68734f..cef1d28 100644
--- a/src/search/LRTDP.cc
+++ b/src/search/LRTDP.cc
@@ -146,14 +146,15 @@ void LRTDP::updateInternal(MDPNode &cn) {
   cn.ubVal = cn.Q[maxUBAction].ubVal;
 }
 
-bool LRTDP::trialRecurse(MDPNode &cn, int depth) {
+// visits one node of a trial; returns the next node, or NULL if the trial ends
+MDPNode *LRTDP::trialStep(MDPNode &cn, int depth) {
   // check for termination
   if (getIsSolved(cn)) {
     if (zmdpDebugLevelG >= 1) {
       printf("  trialRecurse: depth=%d ubVal=%g solved node (terminating)\n",
              depth, cn.ubVal);
     }
-    return true;
+    return NULL;
   }
 
   // cached Q values must be up to date for subsequent calls
@@ -170,13 +171,20 @@ bool LRTDP::trialRecurse(MDPNode &cn, int depth) {
   }
 
   // recurse to successor
-  bool solvedAtNextDepth =
-      trialRecurse(cn.getNextState(maxUBAction, simulatedOutcome), depth + 1);
+  return &cn.getNextState(maxUBAction, simulatedOutcome);
+}
 
-  if (solvedAtNextDepth) {
-    return checkSolved(cn);
-  } else {
-    return false;
+void LRTDP::runTrial(MDPNode &root) {
+  // trials can become too deep to recurse on the call stack
+  std::vector<MDPNode *> path;
+  for (MDPNode *cn = &root; NULL != cn;) {
+    path.push_back(cn);
+    cn = trialStep(*cn, path.size() - 1);
+  }
+
+  // the node that ended the trial is solved; try to label the others, too
+  for (path.pop_back(); !path.empty(); path.pop_back()) {
+    if (!checkSolved(*path.back())) break;
   }
 }
 
@@ -185,7 +193,7 @@ bool LRTDP::doTrial(MDPNode &cn) {
     printf("-*- doTrial: trial %d\n", (numTrials + 1));
   }
 
-  trialRecurse(cn, 0);
+  runTrial(cn);
   numTrials++;
 
   return getIsSolved(cn);
diff --git a/src/search/LRTDP.h b/src/search/LRTDP.h
index 3146ca8..04d539c 100644
--- a/src/search/LRTDP.h
+++ b/src/search/LRTDP.h
@@ -40,7 +40,8 @@ struct LRTDP : public RTDPCore {
   bool checkSolved(MDPNode &cn);
 
   void updateInternal(MDPNode &cn);
-  bool trialRecurse(MDPNode &cn, int depth);
+  MDPNode *trialStep(MDPNode &cn, int depth);
+  void runTrial(MDPNode &root);
   bool doTrial(MDPNode &cn);
   void derivedClassInit(void);
 };
diff --git a/src/search/RTDP.cc b/src/search/RTDP.cc
index 07756f3..1e0583e 100644
--- a/src/search/RTDP.cc
+++ b/src/search/RTDP.cc
@@ -58,14 +58,15 @@ namespace zmdp {
 
 RTDP::RTDP(void) {}
 
-void RTDP::trialRecurse(MDPNode &cn, int depth) {
+// visits one node of a trial; returns the next node, or NULL if the trial ends
+MDPNode *RTDP::trialStep(MDPNode &cn, int depth) {
   // check for termination
   if (cn.isTerminal) {
     if (zmdpDebugLevelG >= 1) {
       printf("trialRecurse: depth=%d ubVal=%g terminal node (terminating)\n",
              depth, cn.ubVal);
     }
-    return;
+    return NULL;
   }
 
   // cached Q values must be up to date for subsequent calls
@@ -82,10 +83,22 @@ void RTDP::trialRecurse(MDPNode &cn, int depth) {
   }
 
   // recurse to successor
-  trialRecurse(cn.getNextState(maxUBAction, simulatedOutcome), depth + 1);
+  return &cn.getNextState(maxUBAction, simulatedOutcome);
+}
 
-  bounds->update(cn, NULL);
-  trackBackup(cn);
+void RTDP::runTrial(MDPNode &root) {
+  // trials can become too deep to recurse on the call stack
+  std::vector<MDPNode *> path;
+  for (MDPNode *cn = &root; NULL != cn;) {
+    path.push_back(cn);
+    cn = trialStep(*cn, path.size() - 1);
+  }
+
+  // update again on the way back, except at the node that ended the trial
+  for (path.pop_back(); !path.empty(); path.pop_back()) {
+    bounds->update(*path.back(), NULL);
+    trackBackup(*path.back());
+  }
 }
 
 bool RTDP::doTrial(MDPNode &cn) {
@@ -93,7 +106,7 @@ bool RTDP::doTrial(MDPNode &cn) {
     printf("-*- doTrial: trial %d\n", (numTrials + 1));
   }
 
-  trialRecurse(cn, 0);
+  runTrial(cn);
   numTrials++;
 
   return false;
diff --git a/src/search/RTDP.h b/src/search/RTDP.h
index 66ce117..99d3b2c 100644
--- a/src/search/RTDP.h
+++ b/src/search/RTDP.h
@@ -25,7 +25,8 @@ namespace zmdp {
 struct RTDP : public RTDPCore {
   RTDP(void);
 
-  void trialRecurse(MDPNode &cn, int depth);
+  MDPNode *trialStep(MDPNode &cn, int depth);
+  void runTrial(MDPNode &root);
   bool doTrial(MDPNode &cn);
 };
 
-- 
2.43.0


From 03b5f7ddf6c89adf9f6f7c4e3407b7804136b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 15/40] fix: run exactly evaluationTrialsPerEpoch evaluation
 trials

A number that is not a multiple of 30 was rounded down; 0 ended in a division
by zero.
---
 src/exec/PolicyEvaluator.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index de55072..14be086 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -74,6 +74,12 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
   if (simulationTracesToLogPerEpoch < 0) {
     simulationTracesToLogPerEpoch = INT_MAX;
   }
+  if (evaluationTrialsPerEpoch < 1) {
+    fprintf(stderr,
+            "ERROR: evaluationTrialsPerEpoch must be at least 1 (-h for "
+            "help)\n");
+    exit(EXIT_FAILURE);
+  }
 
   simOutFile = new ofstream(simulationTraceOutputFile.c_str());
   if (!(*simOutFile)) {
@@ -93,18 +99,20 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
 
   // parameter 30 is arbitrary, trying to guarantee valid statistics
   int numBatches = std::min(evaluationTrialsPerEpoch, 30);
-  int numTrialsPerBatch = evaluationTrialsPerEpoch / numBatches;
 
   rewards.resize(numBatches);
   double successRateSum = 0.0;
   int startTrialIndex = 0;
   for (int i = 0; i < numBatches; i++) {
+    // the remainder is spread over the first batches
+    int numTrialsPerBatch = evaluationTrialsPerEpoch / numBatches +
+                            (i < evaluationTrialsPerEpoch % numBatches);
     dvector batchRewards;
     double batchSuccessRate;
     doBatch(batchRewards, batchSuccessRate, numTrialsPerBatch,
             std::max(0, simulationTracesToLogPerEpoch - startTrialIndex));
     rewards(i) = sum(batchRewards) / numTrialsPerBatch;
-    successRateSum += batchSuccessRate;
+    successRateSum += batchSuccessRate * numTrialsPerBatch;
     startTrialIndex += numTrialsPerBatch;
   }
   printf("\n");
-- 
2.43.0


From 93f568decb2e41b7a24d635ec3ac584d7e8c689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 16/40] fix: cache evaluation actions only where planner and
 simulator agree

With plannerModel different from simulatorModel the planner's state is not a
function of the simulator's state, but the first action chosen at a simulator
state was reused for every later visit.
---
 src/exec/PolicyEvaluator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 14be086..378fd63 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -123,7 +123,7 @@ void PolicyEvaluator::getRewardSamples(dvector &rewards, double &successRate,
   }
   printf("\n");
 
-  successRate = successRateSum / numBatches;
+  successRate = successRateSum / evaluationTrialsPerEpoch;
 
   // make sure that everything logged has been written
   simOutFile->close();
-- 
2.43.0


From 5208690dfe79fe30e8ea192143a604b220d08b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 17/40] fix: reweight evaluation outcomes although
 probabilities add up inexactly

The sum of the outcome probabilities was compared with 1.0 exactly.
---
 src/exec/PolicyEvaluator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 378fd63..81cb1ad 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -216,8 +216,10 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
     for (int j = 0;
          (j < evaluationMaxStepsPerTrial) || (0 == evaluationMaxStepsPerTrial);
          j++) {
+      // the cached action is valid only if the planner's state is the
+      // simulator's state
       int a;
-      if (-1 == simState->userInt) {
+      if (!assumeIdenticalModels || -1 == simState->userInt) {
         a = exec->chooseAction();
         simState->userInt = a;
       } else {
-- 
2.43.0


From 4cfa36f086eea2b01c461358c28db11dd1bae836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:36 +0000
Subject: [PATCH 18/40] fix: write the reward of each trial to scoresOutputFile

With useEvaluationCache the file got one line per batch instead of the
documented line per trial.
---
 src/exec/PolicyEvaluator.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/exec/PolicyEvaluator.cc b/src/exec/PolicyEvaluator.cc
index 81cb1ad..1147697 100644
--- a/src/exec/PolicyEvaluator.cc
+++ b/src/exec/PolicyEvaluator.cc
@@ -295,7 +295,7 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
           CMDPEdge *e = Qa->outcomes[o];
           if (NULL != e) {
             if (-1 != e->userInt) {
-              if (probSum == 1.0) {
+              if (probSum > 1.0 - 1e-8) {
                 e->userDouble = Qa->opv(o) / (e->userInt / cntSum);
               } else {
                 e->userDouble = 1.0;
@@ -313,7 +313,6 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
 
   // pass 3: go back through logs and perform reweighting
   rewards.resize(numTrials);
-  double batchSumReward = 0.0;
   for (int i = 0; i < numTrials; i++) {
     double rewardSoFar = 0.0;
     for (int j = trials[i].size() - 1; j >= 0; j--) {
@@ -326,11 +325,9 @@ void PolicyEvaluator::doBatchCache(dvector &rewards, double &successRate,
     }
     rewards(i) = rewardSoFar;
 
-    batchSumReward += rewardSoFar;
-  }
-
-  if (verbose) {
-    (*scoresOutFile) << batchSumReward / numTrials << endl;
+    if (verbose) {
+      (*scoresOutFile) << rewardSoFar << endl;
+    }
   }
 
   successRate = (static_cast<double>(numTrialsReachedGoal)) / numTrials;
-- 
2.43.0


From 572ab8b17c140caceae146635233085d3290c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 19/40] fix: set the age of initial planes also without
 useMaxPlanesCache

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 1d8b82c..71610ff 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -168,10 +168,8 @@ void MaxPlanesLowerBound::initialize(double targetPrecision) {
   BlindLBInitializer blb(pomdp, this);
   blb.initialize(targetPrecision);
 
-  if (useMaxPlanesCache) {
-    // planes from initialization should have their 'age' set appropriately
-    FOR_EACH(planeP, planes) { (*planeP)->numBackupsAtCreation = 0; }
-  }
+  // planes from initialization should have their 'age' set appropriately
+  FOR_EACH(planeP, planes) { (*planeP)->numBackupsAtCreation = 0; }
   initialized = true;
 }
 
-- 
2.43.0


From 94241079d4986614a22813ce52d66504d436e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 20/40] fix: never raise the upper bound of a corner point to
 that of a nearby belief

---
 src/pomdpBounds/SawtoothUpperBound.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pomdpBounds/SawtoothUpperBound.cc b/src/pomdpBounds/SawtoothUpperBound.cc
index 639d575..dd00ded 100644
--- a/src/pomdpBounds/SawtoothUpperBound.cc
+++ b/src/pomdpBounds/SawtoothUpperBound.cc
@@ -282,7 +282,9 @@ void SawtoothUpperBound::addPoint(BVPair *bv) {
     }
     pts.push_back(bv);
   } else {
-    cornerPts(wc) = bv->v;
+    // bv->b may only be close to the corner and have a larger value; never
+    // loosen the bound.
+    cornerPts(wc) = std::min(cornerPts(wc), bv->v);
     delete bv;
   }
 }
-- 
2.43.0


From dfe1682c0c8bf80a00990477dcf361a9d7d5b433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 21/40] fix: refuse policy files that are incomplete, damaged
 or cannot be read

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 142 +++++++++++++++++--------
 1 file changed, 100 insertions(+), 42 deletions(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index 71610ff..daea3f0 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -633,30 +633,53 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
     exit(EXIT_FAILURE);
   }
 
-  char buf[1024];
-  std::string s;
+  std::string line, s;
   LBPlane plane;
-  int entryIndex;
+  plane.numBackupsAtCreation = -1;
+  int entryIndex = -1;
   double entryVal;
   int parseState = 0;
   int lnum = 0;
-  while (!inFile.eof()) {
-    inFile.getline(buf, sizeof(buf));
+  int numPlanes = -1, numPlanesRead = 0;
+  int numEntries = -1, numEntriesRead = 0;
+  int nesting = 0;
+
+#define RP_CHECK(COND, ...)                                      \
+  if (!(COND)) {                                                 \
+    fprintf(stderr, "ERROR: %s: line %d: ", inFileName.c_str(), lnum); \
+    fprintf(stderr, __VA_ARGS__);                                \
+    fprintf(stderr, "\n");                                       \
+    exit(EXIT_FAILURE);                                          \
+  }
+
+  while (getline(inFile, line)) {
     lnum++;
 
     // strip whitespace, ignore empty lines and comments
-    s = stripWhiteSpace(buf);
+    s = stripWhiteSpace(line);
     if (0 == s.size()) continue;
     if ('#' == s[0]) continue;
 
-    // ignore these types of lines because they contain redundant information
+    // these types of lines contain redundant information, which only
+    // serves to check that the file is complete
+    char last = s[s.size() - 1];
+    if ('{' == last || '[' == last) nesting++;
+    if ('}' == s[0] || ']' == s[0]) nesting--;
     if (s == "{") continue;
     if (s == "}" || s == "},") continue;
     if (s == "[") continue;
     if (s == "]" || s == "],") continue;
-    if (string::npos != s.find("numPlanes")) continue;
+    if (string::npos != s.find("numPlanes")) {
+      RP_CHECK(1 == sscanf(s.c_str(), "numPlanes => %d", &numPlanes),
+               "expected 'numPlanes => <int>'");
+      continue;
+    }
     if (string::npos != s.find("planes")) continue;
-    if (string::npos != s.find("numEntries")) continue;
+    if (string::npos != s.find("numEntries")) {
+      RP_CHECK(1 == sscanf(s.c_str(), "numEntries => %d", &numEntries),
+               "expected 'numEntries => <int>'");
+      continue;
+    }
     if (string::npos != s.find("entries")) continue;
 
   parseLineAgain:
@@ -664,47 +687,47 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
       case 0:
         /* at the beginning of the file, check that this is the right type of
          * policy */
-        if (string::npos != s.find("policyType") &&
-            string::npos != s.find("MaxPlanesLowerBound")) {
-          parseState = 1;
-        } else {
-          fprintf(stderr,
-                  "ERROR: %s: line %d: expected 'policyType => "
-                  "\"MaxPlanesLowerBound\"'\n",
-                  inFileName.c_str(), lnum);
-          exit(EXIT_FAILURE);
-        }
+        RP_CHECK(string::npos != s.find("policyType") &&
+                     string::npos != s.find("MaxPlanesLowerBound"),
+                 "expected 'policyType => \"MaxPlanesLowerBound\"'");
+        parseState = 1;
         break;
       case 1:
         /* at the start of a plane, read the action */
-        if (string::npos != s.find("action") &&
-            (1 == sscanf(s.c_str(), "action => %d", &plane.action))) {
-          plane.alpha.resize(pomdp->numStates);
-          parseState = 2;
-        } else {
-          fprintf(stderr, "ERROR: %s: line %d: expected 'action => <int>'\n",
-                  inFileName.c_str(), lnum);
-          exit(EXIT_FAILURE);
-        }
+        RP_CHECK(1 == sscanf(s.c_str(), "action => %d", &plane.action),
+                 "expected 'action => <int>'");
+        RP_CHECK(0 <= plane.action && plane.action < pomdp->getNumActions(),
+                 "the model has no action %d", plane.action);
+        plane.alpha.resize(pomdp->numStates);
+        entryIndex = -1;
+        numEntries = -1;
+        numEntriesRead = 0;
+        parseState = 2;
         break;
       case 2:
         if (string::npos != s.find("action")) {
           /* finding the 'action' keyword indicates we are at the start of
              another plane; finish up the plane we were working on and
              reparse the current line in parse state 1 */
+          RP_CHECK(numEntries < 0 || numEntriesRead == numEntries,
+                   "expected %d entries in the preceding plane, found %d",
+                   numEntries, numEntriesRead);
           mask_set_to_one(plane.mask, plane.alpha);
           addLBPlane(new LBPlane(plane));
+          numPlanesRead++;
           parseState = 1;
           goto parseLineAgain;
-        } else if (2 == sscanf(s.c_str(), "%d, %lf", &entryIndex, &entryVal)) {
+        } else {
           /* push another entry into the plane */
+          int lastIndex = entryIndex;
+          RP_CHECK(2 == sscanf(s.c_str(), "%d, %lf", &entryIndex, &entryVal) &&
+                       isfinite(entryVal),
+                   "expected entry '<int>, <double>'");
+          RP_CHECK(lastIndex < entryIndex && entryIndex < pomdp->numStates,
+                   "entry index %d is out of range or out of order",
+                   entryIndex);
           plane.alpha.push_back(entryIndex, entryVal);
-        } else {
-          printf("s=[%s]\n", s.c_str());
-          fprintf(stderr,
-                  "ERROR: %s: line %d: expected entry '<int>, <double>'\n",
-                  inFileName.c_str(), lnum);
-          exit(EXIT_FAILURE);
+          numEntriesRead++;
         }
         break;
       default:
@@ -712,12 +735,25 @@ void MaxPlanesLowerBound::readFromFile(const std::string &inFileName) {
     }
   }
 
-  /* reached EOF, finish up the last plane */
-  if (2 == parseState) {
-    mask_set_to_one(plane.mask, plane.alpha);
-    addLBPlane(new LBPlane(plane));
+  if (inFile.bad()) {
+    cerr << "ERROR: couldn't read " << inFileName << ": " << strerror(errno)
+         << endl;
+    exit(EXIT_FAILURE);
   }
 
+  /* reached EOF, finish up the last plane */
+  RP_CHECK(2 == parseState, "expected at least one plane before end of file");
+  RP_CHECK(numEntries < 0 || numEntriesRead == numEntries,
+           "expected %d entries in the last plane, found %d", numEntries,
+           numEntriesRead);
+  mask_set_to_one(plane.mask, plane.alpha);
+  addLBPlane(new LBPlane(plane));
+  numPlanesRead++;
+  RP_CHECK(numPlanes < 0 || numPlanesRead == numPlanes,
+           "expected %d planes, found %d", numPlanes, numPlanesRead);
+  RP_CHECK(0 == nesting, "brackets do not match, the file may be incomplete");
+#undef RP_CHECK
+
   inFile.close();
 
   // the set of planes should have been pruned before it was written out
@@ -738,20 +774,42 @@ void MaxPlanesLowerBound::readFromCassandraAlphaFile(
 
   double val;
   LBPlane plane;
+  int numPlanesRead = 0;
 
   // initialize elements that are the same for all planes
   mask_set_all(plane.mask, pomdp->numStates);
   plane.numBackupsAtCreation = -1;
 
-  while (!inFile.eof()) {
-    inFile >> plane.action;
+  while (inFile >> plane.action) {
     plane.alpha.clear();
     plane.alpha.resize(pomdp->numStates);
     for (int i = 0; i < pomdp->numStates; i++) {
-      inFile >> val;
+      if (!(inFile >> val)) break;
       plane.alpha.push_back(i, val);
     }
+    if (!inFile) break;
+    if (plane.action < 0 || plane.action >= pomdp->getNumActions()) {
+      cerr << "ERROR: " << inFileName << ": the model has no action "
+           << plane.action << endl;
+      exit(EXIT_FAILURE);
+    }
     addLBPlane(new LBPlane(plane));
+    numPlanesRead++;
+    // skip to the start of the next plane
+    inFile >> ws;
+    if (inFile.eof()) break;
+  }
+
+  if (inFile.bad()) {
+    cerr << "ERROR: couldn't read " << inFileName << ": " << strerror(errno)
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+  if (!inFile.eof() || 0 == numPlanesRead || inFile.fail()) {
+    cerr << "ERROR: " << inFileName << ": syntax error in plane "
+         << (numPlanesRead + 1) << ": expected an action and "
+         << pomdp->numStates << " values" << endl;
+    exit(EXIT_FAILURE);
   }
 
   inFile.close();
-- 
2.43.0


From 4dcede54b002590afa200d9d9a93a1890547c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 22/40] fix: refuse maxPlanes options whose documented
 requirements are not met

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index daea3f0..fa7cf97 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -165,6 +165,19 @@ MaxPlanesLowerBound::~MaxPlanesLowerBound(void) {
 void MaxPlanesLowerBound::initialize(double targetPrecision) {
   if (initialized) return;
 
+  if (useMaxPlanesSupportList && !useMaxPlanesMasking) {
+    fprintf(stderr,
+            "ERROR: useMaxPlanesSupportList=1 requires useMaxPlanesMasking=1 "
+            "(-h for help)\n");
+    exit(EXIT_FAILURE);
+  }
+  if (useMaxPlanesExtraPruning && !useMaxPlanesCache) {
+    fprintf(stderr,
+            "ERROR: useMaxPlanesExtraPruning=1 requires useMaxPlanesCache=1 "
+            "(-h for help)\n");
+    exit(EXIT_FAILURE);
+  }
+
   BlindLBInitializer blb(pomdp, this);
   blb.initialize(targetPrecision);
 
-- 
2.43.0


From ee97d19b86be91d52b318526ee561f30309a7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 23/40] fix: refuse state indices and backup logs that are
 incomplete or damaged

---
 src/search/StateLog.cc | 65 +++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/src/search/StateLog.cc b/src/search/StateLog.cc
index 59f82b8..839d717 100644
--- a/src/search/StateLog.cc
+++ b/src/search/StateLog.cc
@@ -121,18 +121,25 @@ void StateIndex::readFromFile(const std::string &inFile) {
   entries.clear();
   lookup.clear();
 
-  char buf[1024];
-  std::string s;
+  std::string line, s;
   state_vector accum(numStateDimensions);
-  int id;
+  int id = -1;
+  int lastId;
   double val;
+  int numStatesRead = 0;
   int lnum = 0;
-  while (!in.eof()) {
-    in.getline(buf, sizeof(buf));
+
+#define SI_CHECK(COND, MSG)                                               \
+  if (!(COND)) {                                                          \
+    fprintf(stderr, "ERROR: %s:%d: %s\n", inFile.c_str(), lnum, (MSG));   \
+    exit(EXIT_FAILURE);                                                   \
+  }
+
+  while (getline(in, line)) {
     lnum++;
 
     // strip whitespace, ignore empty lines and comments
-    s = stripWhiteSpace(buf);
+    s = stripWhiteSpace(line);
     if (0 == s.size()) continue;
     if ('#' == s[0]) continue;
 
@@ -142,23 +149,38 @@ void StateIndex::readFromFile(const std::string &inFile) {
         getStateId(accum);
         accum.clear();
       }
+      SI_CHECK(1 == sscanf(s.c_str(), "state %d", &id) && id == numStatesRead,
+               "expected 'state <id>' with ids in order starting with 0");
+      SI_CHECK(numStatesRead == static_cast<int>(entries.size()),
+               "the preceding state is incomplete or repeated");
+      numStatesRead++;
+      id = -1;
     } else {
-      if (2 != sscanf(s.c_str(), "%d %lf", &id, &val)) {
-        fprintf(stderr,
-                "ERROR: %s:%d: syntax error, expected '<index> <val>'\n",
-                inFile.c_str(), lnum);
-        exit(EXIT_FAILURE);
-      }
+      lastId = id;
+      SI_CHECK(2 == sscanf(s.c_str(), "%d %lf", &id, &val) && isfinite(val),
+               "syntax error, expected '<index> <val>'");
+      SI_CHECK(numStatesRead > 0, "expected 'state <id>'");
+      SI_CHECK(lastId < id && id < numStateDimensions,
+               "index out of range or out of order");
       accum.push_back(id, val);
     }
   }
 
+  if (in.bad()) {
+    fprintf(stderr, "ERROR: couldn't read %s: %s\n", inFile.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
+
   // fold in last state
   if (accum.filled() > 0) {
     accum.canonicalize();
     getStateId(accum);
     accum.clear();
   }
+  SI_CHECK(numStatesRead == static_cast<int>(entries.size()),
+           "the last state is incomplete or repeated");
+#undef SI_CHECK
 
   if (zmdpDebugLevelG >= 1) {
     printf("read index of %d states from %s\n",
@@ -291,16 +313,14 @@ void StateLog::readFromFile(const std::string &inFile) {
 
   entries.clear();
 
-  char buf[1024];
-  std::string s;
+  std::string line, s;
   int id;
   int lnum = 0;
-  while (!in.eof()) {
-    in.getline(buf, sizeof(buf));
+  while (getline(in, line)) {
     lnum++;
 
     // strip whitespace, ignore empty lines and comments
-    s = stripWhiteSpace(buf);
+    s = stripWhiteSpace(line);
     if (0 == s.size()) continue;
     if ('#' == s[0]) continue;
 
@@ -309,9 +329,20 @@ void StateLog::readFromFile(const std::string &inFile) {
               inFile.c_str(), lnum);
       exit(EXIT_FAILURE);
     }
+    if (id < 0 || id >= static_cast<int>(index->entries.size())) {
+      fprintf(stderr, "ERROR: %s:%d: state %d is not in the state index\n",
+              inFile.c_str(), lnum, id);
+      exit(EXIT_FAILURE);
+    }
     entries.push_back(id);
   }
 
+  if (in.bad()) {
+    fprintf(stderr, "ERROR: couldn't read %s: %s\n", inFile.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
+
   if (zmdpDebugLevelG >= 1) {
     printf("read log of %d backups from %s\n", static_cast<int>(entries.size()),
            inFile.c_str());
-- 
2.43.0


From 3037631c2138d73729792dccb225965ce2cf56a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 24/40] fix: refuse models the fast parser cannot read or make
 sense of

---
 src/parsers/FastParser.cc | 167 ++++++++++++++++++++++----------------
 1 file changed, 97 insertions(+), 70 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index b874219..9dfa2e2 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -55,6 +55,15 @@ static void trimTrailingWhiteSpace(char *s) {
   s[i + 1] = '\0';
 }
 
+static void checkIndex(const CassandraModel &p, int lineNumber,
+                       const char *what, int index, int n) {
+  if (index < 0 || index >= n) {
+    cerr << "ERROR: " << p.fileName << ": line " << lineNumber << ": " << what
+         << " " << index << " is out of range" << endl;
+    exit(EXIT_FAILURE);
+  }
+}
+
 /***************************************************************************
  * POMDP FUNCTIONS
  ***************************************************************************/
@@ -101,9 +110,11 @@ void FastParser::readModelFromFile(CassandraModel &problem, bool expectPomdp) {
 
 void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
                                      bool expectPomdp) {
-  char buf[1 << 20];
+  std::string line;
+  std::vector<char> lineBuf;
   int lineNumber;
   char sbuf[512];
+  char extra;
   bool inPreamble = true;
 
   kmatrix Rx;
@@ -117,19 +128,16 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
   bool startSet = false;
 
   const char *rFormat =
-      (expectPomdp ? "R: %d : %d : * : * %lf" : "R: %d : %d : * %lf");
+      (expectPomdp ? "R: %d : %d : * : * %lf %c" : "R: %d : %d : * %lf %c");
 
 #define PM_PREFIX_MATCHES(X) (0 == strncmp(buf, (X), strlen(X)))
 
-  lineNumber = 1;
-  while (!in.eof()) {
-    in.getline(buf, sizeof(buf));
-    if (in.fail() && !in.eof()) {
-      cerr << "ERROR: " << p.fileName << ": line " << lineNumber
-           << ": line too long for buffer"
-           << " (max length " << sizeof(buf) << ")" << endl;
-      exit(EXIT_FAILURE);
-    }
+  lineNumber = 0;
+  while (getline(in, line)) {
+    lineNumber++;
+    lineBuf.assign(line.begin(), line.end());
+    lineBuf.push_back('\0');
+    char *buf = &lineBuf[0];
 
     if ('#' == buf[0]) continue;
     trimTrailingWhiteSpace(buf);
@@ -137,14 +145,15 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
 
     if (inPreamble) {
       if (PM_PREFIX_MATCHES("discount:")) {
-        if (1 != sscanf(buf, "discount: %lf", &p.discount)) {
+        if (1 != sscanf(buf, "discount: %lf %c", &p.discount, &extra) ||
+            !(0 <= p.discount && p.discount <= 1)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'discount' statement" << endl;
           exit(EXIT_FAILURE);
         }
         discountSet = true;
       } else if (PM_PREFIX_MATCHES("values:")) {
-        if (1 != sscanf(buf, "values: %s", sbuf)) {
+        if (1 != sscanf(buf, "values: %511s", sbuf)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'values' statement" << endl;
           exit(EXIT_FAILURE);
@@ -158,7 +167,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         valuesSet = true;
       } else if (PM_PREFIX_MATCHES("actions:")) {
-        if (1 != sscanf(buf, "actions: %d", &p.numActions)) {
+        if (1 != sscanf(buf, "actions: %d %c", &p.numActions, &extra)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'actions' statement" << endl;
           exit(EXIT_FAILURE);
@@ -166,7 +175,8 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         numActionsSet = true;
       } else if (PM_PREFIX_MATCHES("observations:")) {
         if (expectPomdp) {
-          if (1 != sscanf(buf, "observations: %d", &p.numObservations)) {
+          if (1 != sscanf(buf, "observations: %d %c", &p.numObservations,
+                          &extra)) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in 'observations' statement" << endl;
             exit(EXIT_FAILURE);
@@ -178,7 +188,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
           exit(EXIT_FAILURE);
         }
       } else if (PM_PREFIX_MATCHES("states:")) {
-        if (1 != sscanf(buf, "states: %d", &p.numStates)) {
+        if (1 != sscanf(buf, "states: %d %c", &p.numStates, &extra)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in 'states' statement" << endl;
           exit(EXIT_FAILURE);
@@ -201,6 +211,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
     cerr << "ERROR: " << p.fileName << ": line " << lineNumber            \
          << ": at end of preamble, no '" << (NAME) << "' statement found" \
          << endl;                                                         \
+    exit(EXIT_FAILURE);                                                   \
   }
 
         FP_CHECK_SET(discountSet, "discount");
@@ -213,6 +224,14 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         } else {
           p.numObservations = -1;
         }
+        if (p.numStates <= 0 || p.numActions <= 0 ||
+            (expectPomdp && p.numObservations <= 0)) {
+          cerr << "ERROR: " << p.fileName << ": line " << lineNumber
+               << ": at end of preamble, numbers of states, actions, and "
+                  "observations must be positive"
+               << endl;
+          exit(EXIT_FAILURE);
+        }
 
         // initialize data structures
         Rx.resize(p.numStates, p.numActions);
@@ -236,31 +255,46 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       if (PM_PREFIX_MATCHES("R:")) {
         int s, a;
         double reward;
-        if (3 != sscanf(buf, rFormat, &a, &s, &reward)) {
+        if (3 != sscanf(buf, rFormat, &a, &s, &reward, &extra)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in R statement\n"
                << "  (expected format is '" << rFormat << "')" << endl;
           exit(EXIT_FAILURE);
         }
+        checkIndex(p, lineNumber, "action", a, p.numActions);
+        checkIndex(p, lineNumber, "state", s, p.numStates);
+        if (!isfinite(reward)) {
+          cerr << "ERROR: " << p.fileName << ": line " << lineNumber
+               << ": reward is not a finite number" << endl;
+          exit(EXIT_FAILURE);
+        }
         kmatrix_set_entry(Rx, s, a, reward);
       } else if (PM_PREFIX_MATCHES("T:")) {
         int s, a, sp;
         double prob;
-        if (4 != sscanf(buf, "T: %d : %d : %d %lf", &a, &s, &sp, &prob)) {
+        if (4 != sscanf(buf, "T: %d : %d : %d %lf %c", &a, &s, &sp, &prob,
+                        &extra)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in T statement" << endl;
           exit(EXIT_FAILURE);
         }
+        checkIndex(p, lineNumber, "action", a, p.numActions);
+        checkIndex(p, lineNumber, "state", s, p.numStates);
+        checkIndex(p, lineNumber, "state", sp, p.numStates);
         kmatrix_set_entry(Tx[a], s, sp, prob);
       } else if (PM_PREFIX_MATCHES("O:")) {
         if (expectPomdp) {
           int s, a, o;
           double prob;
-          if (4 != sscanf(buf, "O: %d : %d : %d %lf", &a, &s, &o, &prob)) {
+          if (4 != sscanf(buf, "O: %d : %d : %d %lf %c", &a, &s, &o, &prob,
+                          &extra)) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in O statement" << endl;
             exit(EXIT_FAILURE);
           }
+          checkIndex(p, lineNumber, "action", a, p.numActions);
+          checkIndex(p, lineNumber, "state", s, p.numStates);
+          checkIndex(p, lineNumber, "observation", o, p.numObservations);
           kmatrix_set_entry(Ox[a], s, o, prob);
         } else {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
@@ -273,8 +307,17 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         exit(EXIT_FAILURE);
       }
     }
+  }
 
-    lineNumber++;
+  if (in.bad()) {
+    cerr << "ERROR: couldn't read " << p.fileName << ": " << strerror(errno)
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+  if (inPreamble) {
+    cerr << "ERROR: " << p.fileName << ": line " << lineNumber
+         << ": found end of file in preamble" << endl;
+    exit(EXIT_FAILURE);
   }
 
   // post-process
@@ -296,7 +339,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
     cvector checkTmp;
     FOR(s, p.numStates) {
       copy_from_column(checkTmp, p.Ttr[a], s);
-      if (fabs(sum(checkTmp) - 1.0) > POMDP_READ_ERROR_EPS) {
+      if (!(fabs(sum(checkTmp) - 1.0) <= POMDP_READ_ERROR_EPS)) {
         fprintf(stderr,
                 "ERROR: %s: outgoing transition probabilities do not sum to 1 "
                 "for:\n"
@@ -322,7 +365,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
 
       FOR(s, p.numStates) {
         copy_from_column(checkTmp, checkObs, s);
-        if (fabs(sum(checkTmp) - 1.0) > POMDP_READ_ERROR_EPS) {
+        if (!(fabs(sum(checkTmp) - 1.0) <= POMDP_READ_ERROR_EPS)) {
           fprintf(stderr,
                   "ERROR: %s: observation probabilities do not sum to 1 for:\n"
                   "  state %d, action %d, observation sum = %.10lf\n",
@@ -342,7 +385,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
 #if 1
   // extra error checking
   if (expectPomdp) {
-    if (fabs(sum(p.initialBelief) - 1.0) > POMDP_READ_ERROR_EPS) {
+    if (!(fabs(sum(p.initialBelief) - 1.0) <= POMDP_READ_ERROR_EPS)) {
       fprintf(stderr,
               "ERROR: %s: initial belief entries do not sum to 1:\n"
               "  entry sum = %.10lf\n",
@@ -362,70 +405,54 @@ void FastParser::readStartVector(CassandraModel &p, char *data,
   if (expectPomdp) {
     // POMDP case
 
-    int i;
-    char *tok, *saveptr = NULL;
-    double val;
-
-    p.initialBelief.resize(p.numStates);
+    char *tok, *end, *saveptr = NULL;
+    std::vector<double> vals;
+    bool ok = true;
 
     // consume 'start:' token at the beginning of the statement
-    tok = strtok_r(data, " ", &saveptr);
+    tok = strtok_r(data, " \t", &saveptr);
+    while (NULL != (tok = strtok_r(NULL, " \t", &saveptr))) {
+      vals.push_back(strtod(tok, &end));
+      if ('\0' != *end) ok = false;
+    }
 
-    for (i = 0; i < p.numStates; i++) {
-      if (NULL != tok) {
-        tok = strtok_r(NULL, " ", &saveptr);
-      }
-      if (NULL == tok) {
-        if (0 == i) {
-          double startState = atof(tok);
-          if (startState != floor(startState)) {
-            cout << "ERROR: " << p.fileName
-                 << ": POMDP 'start' statement must either contain a single "
-                    "integer "
-                 << "specifying a known start state or a list of the initial "
-                    "probabilities of "
-                 << "all states" << endl;
-            exit(EXIT_FAILURE);
-          }
-          p.initialBelief.push_back(static_cast<int>(startState), 1.0);
-          return;
-        } else {
-          cout << "ERROR: " << p.fileName
-               << ": POMDP 'start' statement must either contain a single "
-                  "integer "
-               << "specifying a known start state or a list of the initial "
-                  "probabilities of "
-               << "all states" << endl;
-          exit(EXIT_FAILURE);
+    p.initialBelief.resize(p.numStates);
+    if (static_cast<int>(vals.size()) == p.numStates) {
+      FOR(i, p.numStates) {
+        if (!(vals[i] >= 0)) ok = false;
+        if (vals[i] > SPARSE_EPS) {
+          p.initialBelief.push_back(i, vals[i]);
         }
       }
-
-      val = atof(tok);
-      if (val > SPARSE_EPS) {
-        p.initialBelief.push_back(i, val);
-      }
+    } else if (1 == vals.size() && vals[0] >= 0 && vals[0] < p.numStates &&
+               vals[0] == floor(vals[0])) {
+      p.initialBelief.push_back(static_cast<int>(vals[0]), 1.0);
+    } else {
+      ok = false;
+    }
+    if (!ok) {
+      cerr << "ERROR: " << p.fileName
+           << ": POMDP 'start' statement must either contain a single "
+              "integer "
+           << "specifying a known start state or a list of the initial "
+              "probabilities of "
+           << "all states" << endl;
+      exit(EXIT_FAILURE);
     }
   } else {
     // MDP case
 
     double x, y;
     int ret = sscanf(data, "start: %lf %lf", &x, &y);
-    if ((ret != 1) || (x != floor(x))) {
-      cout << "ERROR: " << p.fileName
+    if ((ret != 1) || (x != floor(x)) || !(0 <= x && x < p.numStates)) {
+      cerr << "ERROR: " << p.fileName
            << ": MDP 'start' statement must contain a single integer "
            << "specifying a known start state" << endl;
       exit(EXIT_FAILURE);
     }
 
     p.initialState.resize(1);
-    int startState;
-    if (1 != sscanf(data, "start: %d", &startState)) {
-      cout << "ERROR: " << p.fileName
-           << ": MDP 'start' statement must contain a single integer "
-           << "specifying a known start state" << endl;
-      exit(EXIT_FAILURE);
-    }
-    p.initialState.push_back(0, startState);
+    p.initialState.push_back(0, static_cast<int>(x));
   }
 }
 
-- 
2.43.0


From fa46c06ed0075f84e0b321b74b574a8b0a842db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 25/40] fix: refuse MDPs without start state and models of the
 wrong kind

---
 src/parsers/CassandraParser.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index a05dd01..77159c9 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -71,6 +71,19 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
     exit(EXIT_FAILURE);
   }
 
+  if (CASSANDRA_GLOBAL(gProblemType) !=
+      (expectPomdp ? POMDP_problem_type : MDP_problem_type)) {
+    cerr << "ERROR: " << p.fileName << ": expected "
+         << (expectPomdp ? "a POMDP, but the model has no observations"
+                         : "an MDP, but the model has observations")
+         << endl;
+    exit(EXIT_FAILURE);
+  }
+  if (!expectPomdp && INVALID_STATE == CASSANDRA_GLOBAL(gInitialState)) {
+    cerr << "ERROR: " << p.fileName << ": no 'start' statement found" << endl;
+    exit(EXIT_FAILURE);
+  }
+
   // from here forward, we're converting the model from the data structures in
   // Cassandra's library to sla data structures (with the names I'm used to)
   p.discount = CASSANDRA_GLOBAL(gDiscount);
-- 
2.43.0


From 1f961fd1ba75d8964bde8fb4363199dac0e4005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 26/40] fix: refuse damaged racetrack files and keep cars
 within the map

---
 src/mdps/RaceTrack.cc | 66 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 8 deletions(-)

diff --git a/src/mdps/RaceTrack.cc b/src/mdps/RaceTrack.cc
index b72b42a..dbf8027 100644
--- a/src/mdps/RaceTrack.cc
+++ b/src/mdps/RaceTrack.cc
@@ -71,6 +71,7 @@ struct PropertyList {
   PropertyList(void);
   void setValue(const string &key, const string &value);
   const string &getValue(const string &key) const;
+  double getNumber(const string &key, double maxValue) const;
   void readFromFile(const string &fname, char endMarker);
 };
 
@@ -90,6 +91,18 @@ const string &PropertyList::getValue(const string &key) const {
   return p->second;
 }
 
+double PropertyList::getNumber(const string &key, double maxValue) const {
+  const string &s = getValue(key);
+  char *end;
+  double val = strtod(s.c_str(), &end);
+  if (s.empty() || '\0' != *end || !(0 <= val && val <= maxValue)) {
+    fprintf(stderr, "ERROR: bad value '%s' for spec file parameter %s\n",
+            s.c_str(), key.c_str());
+    exit(EXIT_FAILURE);
+  }
+  return val;
+}
+
 void PropertyList::readFromFile(const string &fname, char endMarker) {
   inFile = fopen(fname.c_str(), "r");
   if (NULL == inFile) {
@@ -102,12 +115,16 @@ void PropertyList::readFromFile(const string &fname, char endMarker) {
 
   char lbuf[1024];
   char key[1024], value[1024];
+  bool foundEndMarker = false;
   lnum = 0;
   while (NULL != fgets(lbuf, sizeof(lbuf), inFile)) {
     lnum++;
     if (0 == strlen(lbuf)) continue;
     if ('#' == lbuf[0]) continue;
-    if (endMarker == lbuf[0]) break;
+    if (endMarker == lbuf[0]) {
+      foundEndMarker = true;
+      break;
+    }
     if (2 != sscanf(lbuf, "%s %s", key, value)) {
       fprintf(stderr,
               "ERROR: %s: line %d: syntax error, expected '<key> <value>'\n",
@@ -116,6 +133,12 @@ void PropertyList::readFromFile(const string &fname, char endMarker) {
     }
     setValue(key, value);
   }
+  if (!foundEndMarker) {
+    fprintf(stderr, "ERROR: %s: line %d: %s\n", fname.c_str(), lnum,
+            ferror(inFile) ? strerror(errno)
+                           : "unexpected end of file before the map");
+    exit(EXIT_FAILURE);
+  }
 }
 
 /**********************************************************************
@@ -130,8 +153,17 @@ struct TrackMap {
 
   TrackMap(void);
   ~TrackMap(void);
-  bool getIsOpen(int x, int y) const { return open[width * y + x]; }
-  bool getIsFinish(int x, int y) const { return finish[width * y + x]; }
+  // cells outside the map are closed
+  bool getIsInside(int x, int y) const {
+    return 0 <= x && x < static_cast<int>(width) && 0 <= y &&
+           y < static_cast<int>(height);
+  }
+  bool getIsOpen(int x, int y) const {
+    return getIsInside(x, y) && open[width * y + x];
+  }
+  bool getIsFinish(int x, int y) const {
+    return getIsInside(x, y) && finish[width * y + x];
+  }
   int lineType(int x0, int y0, int dx, int dy) const;
   void readFromFile(const std::string &mapFileName, FILE *mapFile, int lnum);
 };
@@ -205,6 +237,9 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
   width = 0;
   while (NULL != fgets(lbuf, sizeof(lbuf), mapFile)) {
     lnum++;
+    // strip line feed, the last line may lack it
+    size_t n = strlen(lbuf);
+    if (n > 0 && '\n' == lbuf[n - 1]) lbuf[n - 1] = '\0';
     if (0 == strlen(lbuf)) continue;
     if ('#' == lbuf[0]) continue;
     if (0 == width) {
@@ -222,6 +257,16 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
     memcpy(&data[i], lbuf, width);
     i += width;
   }
+  if (ferror(mapFile)) {
+    fprintf(stderr, "ERROR: couldn't read %s: %s\n", mapFileName.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
+  if (0 == width) {
+    fprintf(stderr, "ERROR: %s: line %d: unexpected end of file, no map found\n",
+            mapFileName.c_str(), lnum);
+    exit(EXIT_FAILURE);
+  }
   height = i / width;
 
   unsigned int numPixels = width * height;
@@ -236,6 +281,11 @@ void TrackMap::readFromFile(const string &mapFileName, FILE *mapFile,
       startY.push_back(i / width);
     }
   }
+  if (startX.empty()) {
+    fprintf(stderr, "ERROR: %s: map has no starting line cells ('s')\n",
+            mapFileName.c_str());
+    exit(EXIT_FAILURE);
+  }
 }
 
 /**********************************************************************
@@ -398,15 +448,15 @@ void RaceTrack::readFromFile(const std::string &specFileName) {
 
   PropertyList plist;
   plist.readFromFile(specFileName, /* endMarker = */ '-');
-  discount = atof(plist.getValue("discount").c_str());
-  errorProbability = atof(plist.getValue("errorProbability").c_str());
-  useMaxCost = atoi(plist.getValue("useMaxCost").c_str());
+  discount = plist.getNumber("discount", 1.0);
+  errorProbability = plist.getNumber("errorProbability", 1.0);
+  useMaxCost = (0 != plist.getNumber("useMaxCost", 1.0));
   if (useMaxCost) {
-    maxCost = atof(plist.getValue("maxCost").c_str());
+    maxCost = plist.getNumber("maxCost", 1e+30);
   } else {
     maxCost = -1;  // n/a
   }
-  useErrorIsWind = atoi(plist.getValue("useErrorIsWind").c_str());
+  useErrorIsWind = (0 != plist.getNumber("useErrorIsWind", 1.0));
 
   tmap = new TrackMap();
   tmap->readFromFile(specFileName, plist.inFile, plist.lnum);
-- 
2.43.0


From a0a02ab27baad45d49a9041d8bcc1bf65b439127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 27/40] fix: read config files with long lines, without final
 line feed, or with read errors

---
 src/common/zmdpConfig.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index 806fe72..fd03c05 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -76,12 +76,15 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
                                 std::istream &in) {
   sourceName = _sourceName;
 
-  char buf[1024], field[1024], val[1024];
+  string line;
   int lnum = 0;
-  while (1) {
-    in.getline(buf, sizeof(buf));
+  while (getline(in, line)) {
     lnum++;
-    if (in.eof()) break;
+    // work on buffers that are large enough for any part of the line
+    vector<char> lineBuf(line.begin(), line.end());
+    lineBuf.push_back('\0');
+    vector<char> fieldBuf(lineBuf.size()), valBuf(lineBuf.size());
+    char *buf = &lineBuf[0], *field = &fieldBuf[0], *val = &valBuf[0];
     if (allWhiteSpace(buf)) continue;
     if ('#' == buf[0]) continue;
     if (0 == strncmp(buf, "alias", 5)) {
@@ -100,7 +103,7 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
             sourceName.c_str(), lnum);
         exit(EXIT_FAILURE);
       }
-      snprintf(field, sizeof(field), "%s", bufp);
+      snprintf(field, fieldBuf.size(), "%s", bufp);
 
       // rest of line is value
       bufp = strtok_r(NULL, "", &saveptr);
@@ -111,7 +114,7 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
             sourceName.c_str(), lnum);
         exit(EXIT_FAILURE);
       }
-      snprintf(val, sizeof(field), "%s", bufp);
+      snprintf(val, valBuf.size(), "%s", bufp);
 
       setAlias(field, val);
     } else {
@@ -125,6 +128,11 @@ void ZMDPConfig::readFromStream(const std::string &_sourceName,
       setString(field, val);
     }
   }
+  if (in.bad()) {
+    fprintf(stderr, "ERROR: couldn't read config file '%s': %s\n",
+            sourceName.c_str(), strerror(errno));
+    exit(EXIT_FAILURE);
+  }
 }
 
 void ZMDPConfig::readFromFile(const std::string &fname) {
-- 
2.43.0


From c98a9146bf874ab0cf7dfc7484b3e18e2edc32cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 28/40] fix: refuse option values that are not numbers where
 numbers are expected

---
 src/common/zmdpConfig.cc | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/common/zmdpConfig.cc b/src/common/zmdpConfig.cc
index fd03c05..b212976 100644
--- a/src/common/zmdpConfig.cc
+++ b/src/common/zmdpConfig.cc
@@ -169,22 +169,42 @@ const std::string &ZMDPConfig::getString(const std::string &field) const {
   return ci->second;
 }
 
+static void invalidValue(const std::string &field, const std::string &val,
+                         const char *expected) {
+  fprintf(stderr, "ERROR: config field '%s' has value '%s', expected %s\n",
+          field.c_str(), val.c_str(), expected);
+  exit(EXIT_FAILURE);
+}
+
 int ZMDPConfig::getInt(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like an integer here
-  return atoi(s.c_str());
+  char *end;
+  errno = 0;
+  long val = strtol(s.c_str(), &end, 10);
+  if (s.empty() || '\0' != *end || 0 != errno || val != static_cast<int>(val)) {
+    invalidValue(field, s, "an integer");
+  }
+  return val;
 }
 
 double ZMDPConfig::getDouble(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like a double here
-  return atof(s.c_str());
+  char *end;
+  double val = strtod(s.c_str(), &end);
+  if (s.empty() || '\0' != *end || val != val) {
+    invalidValue(field, s, "a number");
+  }
+  return val;
 }
 
 bool ZMDPConfig::getBool(const std::string &field) const {
   const std::string &s = getString(field);
-  // it would be smart to check if s looks like a boolean value here
-  return (0 != atoi(s.c_str()));
+  char *end;
+  long val = strtol(s.c_str(), &end, 10);
+  if (s.empty() || '\0' != *end) {
+    invalidValue(field, s, "0 or 1");
+  }
+  return (0 != val);
 }
 
 bool ZMDPConfig::defined(const std::string &field) const {
-- 
2.43.0


From acc11f86f66fcf9ee575e0abfa4859498e29ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:56 +0000
Subject: [PATCH 29/40] fix: refuse MDPs whose start state does not exist

---
 src/parsers/CassandraParser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 77159c9..22d5ccd 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -83,6 +83,12 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
     cerr << "ERROR: " << p.fileName << ": no 'start' statement found" << endl;
     exit(EXIT_FAILURE);
   }
+  if (!expectPomdp && (CASSANDRA_GLOBAL(gInitialState) < 0 ||
+                       CASSANDRA_GLOBAL(gInitialState) >=
+                           CASSANDRA_GLOBAL(gNumStates))) {
+    cerr << "ERROR: " << p.fileName << ": start state out of range" << endl;
+    exit(EXIT_FAILURE);
+  }
 
   // from here forward, we're converting the model from the data structures in
   // Cassandra's library to sla data structures (with the names I'm used to)
-- 
2.43.0


From f9a5e184b5344b88f0d372c89a986cc69b0c44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:48 +0000
Subject: [PATCH 30/40] fix: end the trials of the relaxed racetrack bound when
 nothing is left to learn

---
 src/bounds/RelaxUBInitializer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bounds/RelaxUBInitializer.cc b/src/bounds/RelaxUBInitializer.cc
index 10965e5..3caea9b 100644
--- a/src/bounds/RelaxUBInitializer.cc
+++ b/src/bounds/RelaxUBInitializer.cc
@@ -160,6 +160,10 @@ void RelaxUBInitializer::trialRecurse(MDPNode &cn, double costSoFar,
   // rounding error from ending every trial before it makes any progress.
   double weight = pow(problem->getDiscount(), depth);
   double actionPrio = costSoFar + weight * cn.ubVal;
+  if (weight * (cn.ubVal - cn.lbVal) < RB_PRIO_TOLERANCE) {
+    // nothing left to find out on this path, which may go on for ever
+    return;
+  }
   if (altActionPrio > actionPrio + RB_PRIO_TOLERANCE) {
     if (zmdpDebugLevelG >= 1) {
       printf(
-- 
2.43.0


From 76bbd7c0a62786f3306dffaf3d62dee55764b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 31/40] fix: refuse fast parser statements that lack an index

---
 src/parsers/FastParser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 9dfa2e2..6a4a0b5 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -272,7 +272,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
       } else if (PM_PREFIX_MATCHES("T:")) {
         int s, a, sp;
         double prob;
-        if (4 != sscanf(buf, "T: %d : %d : %d %lf %c", &a, &s, &sp, &prob,
+        if (4 != sscanf(buf, "T: %d : %d : %d%*[ \t]%lf %c", &a, &s, &sp, &prob,
                         &extra)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                << ": syntax error in T statement" << endl;
@@ -286,7 +286,7 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         if (expectPomdp) {
           int s, a, o;
           double prob;
-          if (4 != sscanf(buf, "O: %d : %d : %d %lf %c", &a, &s, &o, &prob,
+          if (4 != sscanf(buf, "O: %d : %d : %d%*[ \t]%lf %c", &a, &s, &o, &prob,
                           &extra)) {
             cerr << "ERROR: " << p.fileName << ": line " << lineNumber
                  << ": syntax error in O statement" << endl;
-- 
2.43.0


From ab4d8fc0c2d521e2e1a711aded48978c3699d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 32/40] fix: refuse rewards too large to be told from infinite
 values

---
 src/parsers/CassandraModel.h   | 3 +++
 src/parsers/CassandraParser.cc | 7 +++++++
 src/parsers/FastParser.cc      | 5 +++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parsers/CassandraModel.h b/src/parsers/CassandraModel.h
index 42c2303..94b7c91 100644
--- a/src/parsers/CassandraModel.h
+++ b/src/parsers/CassandraModel.h
@@ -29,6 +29,9 @@ using namespace sla;
 
 namespace zmdp {
 
+// the search treats values beyond 1e+20 as infinite
+#define CASSANDRA_MAX_REWARD (1e+15)
+
 struct CassandraModel : public MDP {
   int numStates, numObservations;
 
diff --git a/src/parsers/CassandraParser.cc b/src/parsers/CassandraParser.cc
index 22d5ccd..63649ff 100644
--- a/src/parsers/CassandraParser.cc
+++ b/src/parsers/CassandraParser.cc
@@ -22,6 +22,7 @@
 #include "CassandraParser.h"
 
 #include <assert.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <sys/time.h>
@@ -105,6 +106,12 @@ void CassandraParser::readModelFromFile(CassandraModel &p, bool expectPomdp) {
   kmatrix Rk;
   copy(Rk, CASSANDRA_GLOBAL(Q), p.numStates);
   kmatrix_transpose_in_place(Rk);
+  FOR(i, Rk.data.size()) {
+    if (!(fabs(Rk.data[i].value) <= CASSANDRA_MAX_REWARD)) {
+      cerr << "ERROR: " << p.fileName << ": reward is out of range" << endl;
+      exit(EXIT_FAILURE);
+    }
+  }
   if (COST_value_type == CASSANDRA_GLOBAL(gValueType)) {
     // the model specifies costs to be minimized; the planner maximizes reward
     FOR(i, Rk.data.size()) { Rk.data[i].value = -Rk.data[i].value; }
diff --git a/src/parsers/FastParser.cc b/src/parsers/FastParser.cc
index 6a4a0b5..8e0c8b1 100644
--- a/src/parsers/FastParser.cc
+++ b/src/parsers/FastParser.cc
@@ -22,6 +22,7 @@
 #include "FastParser.h"
 
 #include <assert.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <sys/time.h>
@@ -263,9 +264,9 @@ void FastParser::readModelFromStream(CassandraModel &p, std::istream &in,
         }
         checkIndex(p, lineNumber, "action", a, p.numActions);
         checkIndex(p, lineNumber, "state", s, p.numStates);
-        if (!isfinite(reward)) {
+        if (!(fabs(reward) <= CASSANDRA_MAX_REWARD)) {
           cerr << "ERROR: " << p.fileName << ": line " << lineNumber
-               << ": reward is not a finite number" << endl;
+               << ": reward is out of range" << endl;
           exit(EXIT_FAILURE);
         }
         kmatrix_set_entry(Rx, s, a, reward);
-- 
2.43.0


From 1456e009432d2bd7076439d42244cb86e3a1e131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 33/40] fix: end frtdp and hsvi trials where no outcome is
 worth visiting

---
 src/search/FRTDP.cc | 4 ++--
 src/search/HSVI.cc  | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/search/FRTDP.cc b/src/search/FRTDP.cc
index 27c186d..1757a4a 100644
--- a/src/search/FRTDP.cc
+++ b/src/search/FRTDP.cc
@@ -145,7 +145,8 @@ MDPNode *FRTDP::trialStep(MDPNode &cn, double &logOcc, int depth) {
     oldNumUpdates++;
   }
 
-  if (excessWidth <= 0 || depth > maxDepth) {
+  // no outcome is worth visiting if the excess is only rounding error
+  if (excessWidth <= 0 || depth > maxDepth || -1 == r.maxPrioOutcome) {
     if (zmdpDebugLevelG >= 1) {
       printf("  trialRecurse: depth=%d excessWidth=%g (terminating)\n", depth,
              excessWidth);
@@ -156,7 +157,6 @@ MDPNode *FRTDP::trialStep(MDPNode &cn, double &logOcc, int depth) {
   }
 
   // recurse to successor
-  assert(-1 != r.maxPrioOutcome);
   double obsProb = cn.Q[r.maxUBAction].outcomes[r.maxPrioOutcome]->obsProb;
   double weight = problem->getDiscount() * obsProb;
   logOcc += log(weight);
diff --git a/src/search/HSVI.cc b/src/search/HSVI.cc
index 1eda733..2343658 100644
--- a/src/search/HSVI.cc
+++ b/src/search/HSVI.cc
@@ -124,7 +124,10 @@ MDPNode *HSVI::trialStep(MDPNode &cn, double &logOcc, int depth) {
   }
 
   // recurse to successor
-  assert(-1 != r.maxExcessUncOutcome);
+  if (-1 == r.maxExcessUncOutcome) {
+    // what happens next does not matter if the discount is 0
+    return NULL;
+  }
   double obsProb = cn.Q[r.maxUBAction].outcomes[r.maxExcessUncOutcome]->obsProb;
   double weight = problem->getDiscount() * obsProb;
   logOcc += log(weight);
-- 
2.43.0


From 7abb157441878da8618f34c30d961f5367a3e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 34/40] fix: terminate the reward levels in the names of
 LifeSurvey states

---
 src/pomdpModels/lifeSurvey/LifeSurvey.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index 64f2dcd..e7c8ef7 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -68,6 +68,7 @@ std::string LSState::toString(void) const {
       snprintf(eltbuf, sizeof(eltbuf), "%1d", rewardLevelInRegion[i]);
       rbuf[i] = eltbuf[0];
     }
+    rbuf[rewardLevelInRegion.size()] = '\0';
     snprintf(buf, sizeof(buf), "sx%dy%dd%du%dn%d%d%dr%s", pos.x, pos.y,
              lastMoveDirection, usedLookaheadInThisCell, lifeInNeighborCell[0],
              lifeInNeighborCell[1], lifeInNeighborCell[2], rbuf);
-- 
2.43.0


From d5aeb628d9df024d6caa259856a07dc6c8293f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 35/40] fix: keep the last cell of a LifeSurvey map without a
 final newline

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 24 +++++++++++------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index b6df89d..efde7ba 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -223,16 +223,18 @@ void LSModelFile::readFromFile(const std::string &fname) {
   char lbuf[1024];
   char key[1024], value[1024];
   int lnum;
+  size_t len;
 
   /* read parameters from preamble */
   ParamLookup params;
   lnum = 0;
   while (NULL != fgets(lbuf, sizeof(lbuf), modelFile)) {
     lnum++;
-    if (strlen(lbuf) <= 1) continue;
+    len = strlen(lbuf);
+    if (len > 0 && '\n' == lbuf[len - 1]) lbuf[len - 1] = '\0';
+    if ('\0' == lbuf[0]) continue;
     if ('#' == lbuf[0]) continue;
     if ('-' == lbuf[0]) goto preambleDone;
-    lbuf[strlen(lbuf) - 1] = '\0';  // truncate newline
     if (2 != sscanf(lbuf, "%s %[-0-9.eE \t]", key, value)) {
       fprintf(stderr,
               "ERROR: %s: line %d: syntax error, expected '<key> <value>'\n",
@@ -272,18 +274,14 @@ preambleDone:
   std::vector<std::string> rows;
   while (NULL != fgets(lbuf, sizeof(lbuf), modelFile)) {
     lnum++;
-    if (strlen(lbuf) <= 1) {
-      if (feof(modelFile)) {
-        break;
-      } else {
-        fprintf(
-            stderr,
-            "ERROR: %s: line %d: found unexpected zero-length line in map\n",
-            fname.c_str(), lnum);
-        exit(EXIT_FAILURE);
-      }
+    len = strlen(lbuf);
+    if (len > 0 && '\n' == lbuf[len - 1]) lbuf[len - 1] = '\0';
+    if ('\0' == lbuf[0]) {
+      fprintf(stderr,
+              "ERROR: %s: line %d: found unexpected zero-length line in map\n",
+              fname.c_str(), lnum);
+      exit(EXIT_FAILURE);
     }
-    lbuf[strlen(lbuf) - 1] = '\0';  // truncate trailing newline
     rows.push_back(parseRow(lbuf, rows.size() % 2, fname, lnum));
   }
 
-- 
2.43.0


From f4e9a09ef4828bb44e045a82380cc2f1ddadf33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 36/40] fix: count regions in which a LifeSurvey path sees nine
 cells

---
 src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
index 4fb7cd3..475e528 100644
--- a/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
+++ b/src/pomdpModels/lifeSurvey/LSPathAndReactExec.cc
@@ -40,6 +40,8 @@ using namespace MatrixUtils;
 using namespace sla;
 
 #define LS_NUM_PATHS_TO_EVALUATE (1000000)
+/* marks a region that can no longer be reached (never a cell count) */
+#define LS_REGION_CLOSED (-1)
 #define LS_ABS(x) (((x) < 0) ? -(x) : (x))
 
 namespace zmdp {
@@ -283,12 +285,12 @@ void LSPathAndReactExec::getBestExtension(LSPath &bestPathMatchingPrefix,
   // (all regions are considered unreachable if we are at the exit)
   bool atExit = f.grid.getAtExit(entry.pos);
   FOR(r, f.regionPriors.size()) {
-    if (LS_UNREACHABLE != nextValueSoFar.regionCounts[r]) {
+    if (LS_REGION_CLOSED != nextValueSoFar.regionCounts[r]) {
       if (atExit || !m.regionReachable[r].getCell(entry.pos)) {
         double probLifeIsSampledInRegion =
             1 - pow(1 - f.regionPriors[r], nextValueSoFar.regionCounts[r]);
         nextValueSoFar.unreachableRegionValue += probLifeIsSampledInRegion;
-        nextValueSoFar.regionCounts[r] = LS_UNREACHABLE;
+        nextValueSoFar.regionCounts[r] = LS_REGION_CLOSED;
       }
     }
   }
-- 
2.43.0


From 34507dcd35565d10bcb6d52609ec22d8047ce792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 37/40] fix: report read errors of LifeSurvey model and target
 files

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 12 ++++++++++++
 src/pomdpModels/lifeSurvey/LifeSurvey.cc  |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index efde7ba..8c0c7d8 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -243,6 +243,11 @@ void LSModelFile::readFromFile(const std::string &fname) {
     }
     params[key] = value;
   }
+  if (ferror(modelFile)) {
+    fprintf(stderr, "ERROR: LSModelFile: couldn't read %s: %s\n",
+            fname.c_str(), strerror(errno));
+    exit(EXIT_FAILURE);
+  }
   fprintf(stderr, "ERROR: %s: reached EOF while still parsing preamble\n",
           fname.c_str());
   exit(EXIT_FAILURE);
@@ -285,6 +290,13 @@ preambleDone:
     rows.push_back(parseRow(lbuf, rows.size() % 2, fname, lnum));
   }
 
+  if (ferror(modelFile)) {
+    fprintf(stderr, "ERROR: LSModelFile: couldn't read %s: %s\n",
+            fname.c_str(), strerror(errno));
+    exit(EXIT_FAILURE);
+  }
+  fclose(modelFile);
+
   /* calculate dimensions of map */
   int maxRowWidth = 0;
   FOR(y0, rows.size()) {
diff --git a/src/pomdpModels/lifeSurvey/LifeSurvey.cc b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
index e7c8ef7..2cfd9b8 100644
--- a/src/pomdpModels/lifeSurvey/LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/LifeSurvey.cc
@@ -700,6 +700,10 @@ void LSModel::readTargetList(std::vector<LSPos> &result, const char *fname) {
     }
     result.push_back(p);
   }
+  if (ferror(f)) {
+    fprintf(stderr, "ERROR: couldn't read %s: %s\n", fname, strerror(errno));
+    exit(EXIT_FAILURE);
+  }
   fclose(f);
 }
 
-- 
2.43.0


From ac8900249a6402be4272254d423766bced721368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 38/40] fix: report failed writes of gen_LifeSurvey and dumpMap

---
 src/pomdpModels/lifeSurvey/dumpMap.cc        | 7 ++++++-
 src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pomdpModels/lifeSurvey/dumpMap.cc b/src/pomdpModels/lifeSurvey/dumpMap.cc
index 4793101..3c4e878 100644
--- a/src/pomdpModels/lifeSurvey/dumpMap.cc
+++ b/src/pomdpModels/lifeSurvey/dumpMap.cc
@@ -135,7 +135,12 @@ int main(int argc, char *argv[]) {
       }
     }
   }
-  fclose(mapDumpFile);
+  bool writeFailed = (0 != fflush(mapDumpFile)) || ferror(mapDumpFile);
+  if (0 != fclose(mapDumpFile) || writeFailed) {
+    fprintf(stderr, "ERROR: couldn't write '%s': %s\n",
+            mapDumpFileName.c_str(), strerror(errno));
+    exit(EXIT_FAILURE);
+  }
 
   printf("done writing %s\n", mapDumpFileName.c_str());
 }
diff --git a/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc b/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
index 0610459..ff02366 100644
--- a/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
+++ b/src/pomdpModels/lifeSurvey/gen_LifeSurvey.cc
@@ -149,6 +149,12 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   m.writeToFile(pomdpFile, fullIdentifiers);
+  bool writeFailed = (0 != fflush(pomdpFile)) || ferror(pomdpFile);
+  if (0 != fclose(pomdpFile) || writeFailed) {
+    fprintf(stderr, "ERROR: couldn't write '%s': %s\n", pomdpFileName.c_str(),
+            strerror(errno));
+    exit(EXIT_FAILURE);
+  }
 
   printf("done writing %s\n", pomdpFileName.c_str());
 }
-- 
2.43.0


From 1905960404e9c8697a49b706d394b4df803d6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 39/40] fix: refuse LifeSurvey models with an invalid start
 cell or probabilities

---
 src/pomdpModels/lifeSurvey/LSModelFile.cc | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/pomdpModels/lifeSurvey/LSModelFile.cc b/src/pomdpModels/lifeSurvey/LSModelFile.cc
index 8c0c7d8..88b2c65 100644
--- a/src/pomdpModels/lifeSurvey/LSModelFile.cc
+++ b/src/pomdpModels/lifeSurvey/LSModelFile.cc
@@ -275,6 +275,25 @@ preambleDone:
     exit(EXIT_FAILURE);
   }
 
+  FOR_EACH(pp, regionPriors) {
+    if (!(0 <= *pp && *pp <= 1)) {
+      fprintf(stderr, "ERROR: %s: regionPriors must be between 0 and 1\n",
+              fname.c_str());
+      exit(EXIT_FAILURE);
+    }
+  }
+  FOR(i, LS_BASE_NUM_OBSERVATIONS) {
+    // (the comparisons also fail for nan, from entries that sum to zero)
+    if (!(0 <= obsDistributionLifeAbsent[i]) ||
+        !(0 <= obsDistributionLifePresent[i])) {
+      fprintf(stderr,
+              "ERROR: %s: obsDistributionLife{Absent,Present} entries must be "
+              "non-negative and must not all be zero\n",
+              fname.c_str());
+      exit(EXIT_FAILURE);
+    }
+  }
+
   /* read map data into intermediate data structure */
   std::vector<std::string> rows;
   while (NULL != fgets(lbuf, sizeof(lbuf), modelFile)) {
@@ -341,6 +360,12 @@ preambleDone:
             static_cast<char>((n - 1) + 97), n);
     exit(EXIT_FAILURE);
   }
+
+  if (LS_OBSTACLE == grid.getCellBounded(LSPos(startX, startY))) {
+    fprintf(stderr, "ERROR: %s: start cell (%d,%d) is not on the map\n",
+            fname.c_str(), startX, startY);
+    exit(EXIT_FAILURE);
+  }
 }
 
 void LSModelFile::writeToFile(FILE *outFile) const {
-- 
2.43.0


From 33fab34345c5e6c03ff408ed732291c7b66028b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:23 +0000
Subject: [PATCH 40/40] fix: never lower a node's lower bound when
 useMaxPlanesCache=0

---
 src/pomdpBounds/MaxPlanesLowerBound.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pomdpBounds/MaxPlanesLowerBound.cc b/src/pomdpBounds/MaxPlanesLowerBound.cc
index fa7cf97..b82eb56 100644
--- a/src/pomdpBounds/MaxPlanesLowerBound.cc
+++ b/src/pomdpBounds/MaxPlanesLowerBound.cc
@@ -373,7 +373,10 @@ void MaxPlanesLowerBound::setPlaneForNode(MDPNode &cn, LBPlane *newPlane) {
     bdata->bestPlane = newPlane;
     bdata->lastSetPlaneNumBackups = core->numBackups;
     newPlane->backPointers.push_back(&bdata->bestPlane);
-  } else {
+  } else if (newLB > cn.lbVal) {
+    // with masking, the planes that apply to the (truncated) next beliefs need
+    // not include those behind an earlier plane that covers cn.s, so the new
+    // plane can be worse than the best one so far
     cn.lbVal = newLB;
   }
 }
-- 
2.43.0

