From cb3dd4b55a22f55f75b2da8c28bfc4298ef21b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 01/61] fix: accumulate the objective linearization in the
 Benders cut right-hand side

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 7271c30..890788d 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2176,7 +2176,7 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
     double f;
     problem_to_optimize_->eval_f(n, x, 1, f);
 
-    ub = -f;
+    ub -= f;
     //double minCoeff = 1e50;
     for(int i = 0; i<n ; i++) {
       if(cleanNnz(obj[i],colLower[i], colUpper[i], -getInfinity(), 0,
-- 
2.43.0


From 5384547cbf196ebe808131b0f6e177b1f04ddfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:22 +0000
Subject: [PATCH 02/61] fix: strong branching forgot that a candidate was
 infeasible in both directions

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 02f0b9d..3d1137d 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -919,7 +919,8 @@ namespace Bonmin
         //break; // exit loop
       } else if (status0==1||status1==1) {
         numberStrongFixed_++;
-  	returnCode=1;
+        // do not forget a candidate that is infeasible both ways
+  	if (returnCode!=-1) returnCode=1;
       }
       bool hitMaxTime = ( CoinCpuTime()-timeStart > info->timeRemaining_)
                         || ( CoinCpuTime() - start_time_ > time_limit_);
-- 
2.43.0


From 0110d22a1de91f3a48dc6eacc6409250475dc34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:34 +0000
Subject: [PATCH 03/61] fix: fix variables after strong branching with respect
 to the node's solution

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 3d1137d..4abfbdc 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -609,11 +609,8 @@ namespace Bonmin
     if (isRoot) {
       numberStrong = CoinMax(numberStrong_, numberStrongRoot_);
     }
-    std::vector<double> save_sol;
-    if (bb_log_level_>=3) {
-       save_sol.resize(info->numberColumns_);
-       std::copy(info->solution_, info->solution_ + info->numberColumns_ , save_sol.begin());
-    }
+    // Strong branching changes the solution held by the solver.
+    std::vector<double> save_sol(info->solution_, info->solution_ + info->numberColumns_);
     if (numberUnsatisfied_) {
       const double* upTotalChange = pseudoCosts_.upTotalChange();
       const double* downTotalChange = pseudoCosts_.downTotalChange();
@@ -657,6 +654,9 @@ namespace Bonmin
       int numberFixed=0;
       if (results_.size() > 0) {
         returnCode = doStrongBranching(solver, info, (int)results_.size(), 1);
+        // Fixings below are relative to the solution of the node.
+        const double * branchedSolution = info->solution_;
+        info->solution_ = save_sol.data();
         if (bb_log_level_>=3) {
           OsiObject ** obj = solver->objects();
           const char* stat_msg[] = {"NOTDON", "FEAS", "INFEAS", "NOFINI"};
@@ -752,6 +752,7 @@ namespace Bonmin
           bestWhichWay_ = 0;
           returnCode=0;
         }
+        info->solution_ = branchedSolution;
       }
       else {
         bestObjectIndex_=list_[0];
-- 
2.43.0


From c0d0491c8576f651d6b8ffccd024e41ccd0eb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:21 +0000
Subject: [PATCH 04/61] fix: decrease the cutoff of decompositions also when
 the incumbent value is (close to) zero

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp      | 4 +---
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 2 +-
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp   | 2 +-
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index cab337f..27351c7 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -158,9 +158,7 @@ namespace Bonmin
            //nlp is solved and feasible
            // Update the cutoff
            ub = std::min(ub, nlp_->getObjValue());
-           cutoff = ub > 0 ?
-                    ub * (1 - parameters_.cbcCutoffIncrement_):
-                    ub * (1 + parameters_.cbcCutoffIncrement_);
+           cutoff = ub - parameters_.cbcCutoffIncrement_*std::max(1., fabs(ub));
            assert(cutoff < ub);
            
            numSols_++;
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 33d9c80..ffac392 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -146,7 +146,7 @@ namespace Bonmin
         //nlp solved and feasible
         // Update the cutoff
         ub = std::min(nlp_->getObjValue(), ub);
-        cutoff = ub > 0 ? ub *(1 - parameters_.cbcCutoffIncrement_) : ub*(1 + parameters_.cbcCutoffIncrement_);
+        cutoff = ub - parameters_.cbcCutoffIncrement_*std::max(1., fabs(ub));
         assert(cutoff < ub);
         // Update the lp solver cutoff
         lp->setDblParam(OsiDualObjectiveLimit, cutoff);
diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 1149a5d..8727e3c 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -66,7 +66,7 @@ namespace Bonmin
         //nlp solved and feasible
         // Update the cutoff
         double ub = nlp_->getObjValue();
-        cutoff = ub > 0 ? ub *(1 - parameters_.cbcCutoffIncrement_) : ub*(1 + parameters_.cbcCutoffIncrement_);
+        cutoff = ub - parameters_.cbcCutoffIncrement_*std::max(1., fabs(ub));
         // Update the lp solver cutoff
         lp->setDblParam(OsiDualObjectiveLimit, cutoff);
       }
-- 
2.43.0


From bd846ce2c233a9d61e43e71a9a2f5656fa16defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:21 +0000
Subject: [PATCH 05/61] fix: outer approximation and feasibility pump aborted
 when no new cut could be generated

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp      | 5 +++--
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index 27351c7..58c99d7 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -196,8 +196,9 @@ namespace Bonmin
 #endif
       
       int numberCuts = cs.sizeRowCuts() - numberCutsBefore;
-      assert(numberCuts);
-      installCuts(*lp, cs, numberCuts);
+      // there may be none (for example if the problem is linear)
+      if (numberCuts > 0)
+        installCuts(*lp, cs, numberCuts);
       numberCutsBefore = cs.sizeRowCuts();
      
       //check time
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index ffac392..8c4b5bd 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -166,8 +166,9 @@ namespace Bonmin
       }
 
       int numberCuts = cs.sizeRowCuts() - numberCutsBefore;
-      assert(numberCuts);
-      installCuts(*lp, cs, numberCuts);
+      // there may be none (for example if the problem is linear)
+      if (numberCuts > 0)
+        installCuts(*lp, cs, numberCuts);
 
       lp->resolve();
 
-- 
2.43.0


From 1a6b67053c5ee136fea4731186407dc0433acab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:48 +0000
Subject: [PATCH 06/61] fix: outer approximation skipped non-violated cuts only
 when logging was on

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 890788d..0a0d4a1 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2015,7 +2015,8 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
       double violation = 0.;
       violation = std::max(violation, rhs - ub[cutIdx]);
       violation = std::max(violation, lb[cutIdx] - rhs);
-      if(violation < theta && oaHandler_->logLevel() > 0) {
+      if(violation < theta) {
+        if(oaHandler_->logLevel() > 0)
           oaHandler_->message(CUT_NOT_VIOLATED_ENOUGH, oaMessages_)<<cut2rowIdx[cutIdx]<<violation<<CoinMessageEol;
         continue;}
       if(oaHandler_->logLevel() > 0)
-- 
2.43.0


From d63e45f106f683a7e5e190097d99f49c75861a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:48 +0000
Subject: [PATCH 07/61] fix: relax the left-hand side of outer approximation
 cuts too

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 0a0d4a1..4184e3c 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2041,7 +2041,7 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
     if(global) {
       newCut.setGloballyValidAsInteger(1);
     }
-    if(lb[cutIdx] > infty) lb[cutIdx] -= rhsRelax_*std::max(fabs(lb[cutIdx]), 1.);
+    if(lb[cutIdx] > -infty) lb[cutIdx] -= rhsRelax_*std::max(fabs(lb[cutIdx]), 1.);
     if(ub[cutIdx] < infty) ub[cutIdx] += rhsRelax_*std::max(fabs(ub[cutIdx]), 1.);
     newCut.setLb(lb[cutIdx]);
     newCut.setUb(ub[cutIdx]);
-- 
2.43.0


From d1d2d3c2b6ef579906db4c9d70c89a82e873e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:48 +0000
Subject: [PATCH 08/61] fix: do not generate empty redundant outer
 approximation cuts

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 4184e3c..8d9aa88 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2043,6 +2043,9 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
     }
     if(lb[cutIdx] > -infty) lb[cutIdx] -= rhsRelax_*std::max(fabs(lb[cutIdx]), 1.);
     if(ub[cutIdx] < infty) ub[cutIdx] += rhsRelax_*std::max(fabs(ub[cutIdx]), 1.);
+    // an empty redundant row carries no information and makes cut loops cycle
+    if(cuts[cutIdx].getNumElements() == 0 && lb[cutIdx] <= 0. && ub[cutIdx] >= 0.)
+      continue;
     newCut.setLb(lb[cutIdx]);
     newCut.setUb(ub[cutIdx]);
     newCut.setRow(cuts[cutIdx]);
-- 
2.43.0


From 56151cd4db9384495c88e7da2565a2f5349bdb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:49 +0000
Subject: [PATCH 09/61] fix: ECP cuts aborted when MILP cuts push the LP bound
 above the objective function

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 8d9aa88..abb4a87 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1870,7 +1870,6 @@ OsiTMINLPInterface::getNonLinearitiesViolation(const double *x, const double obj
 {
   double f;
   double norm = getConstraintsViolation(x, f);
-  assert((f - obj) > -1e-08);
   norm =  (f - obj) > norm ? f - obj : norm;
   return norm;
 }
-- 
2.43.0


From 30088b2f0b5ffb90c983d2f9662487f9f92740ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:29 +0000
Subject: [PATCH 10/61] fix: feasibility checker fathomed nodes whose LP
 solution is fractional but close to the NLP's

---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 8727e3c..290748e 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -105,12 +105,10 @@ namespace Bonmin
                                         0.1,
                                         nlp_->getColSolution(), lp->getColSolution());
       }
-      if (changed) {
-       branch_info.solution_ = lp->getColSolution();
-       isInteger = integerFeasible(*lp,branch_info, parameters_.cbcIntegerTolerance_,
-                                     objects_, nObjects_);
-      }
-      else {
+      branch_info.solution_ = lp->getColSolution();
+      isInteger = integerFeasible(*lp,branch_info, parameters_.cbcIntegerTolerance_,
+                                  objects_, nObjects_);
+      if (isInteger && !changed) {
         isInteger = 0;
         //	  if(!fixed)//fathom on bounds
          milpBound = 1e200;
-- 
2.43.0


From 72445ff886d26e7d698fca56c1961c961018184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:51 +0000
Subject: [PATCH 11/61] fix: dfs diving lost nodes in bound-closing mode and
 aborted in its other modes

---
 src/CbcBonmin/BonDiver.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 2f3054e..5b29dac 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -487,7 +487,7 @@ namespace Bonmin
       nBacktracks_ = rhs.nBacktracks_;
       maxDepthBFS_ = rhs.maxDepthBFS_;
       maxDiveBacktracks_ = rhs.maxDiveBacktracks_;
-      maxDiveDepth_ = maxDiveDepth_;
+      maxDiveDepth_ = rhs.maxDiveDepth_;
       mode_ = rhs.mode_;
     }
     return *this;
@@ -512,9 +512,9 @@ namespace Bonmin
 #ifdef DIVE_DEBUG
     std::cout<<"CbcDfsDiver::top"<<std::endl;
 #endif
-    if (mode_ != CbcDfsDiver::FindSolutions) {
+    if (mode_ > CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::top();
+      return CbcTree::top();
     }
     if (diveListSize_) {
       return dive_.front();
@@ -599,9 +599,8 @@ namespace Bonmin
     }
     if (mode_ != CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::bestNode(cutoff);
+      return CbcTree::bestNode(cutoff);
     }
-    assert(nBacktracks_ < maxDiveBacktracks_);
     CbcNode * node = NULL;
     while (diveListSize_ > 0) {
 #ifdef DIVE_DEBUG
@@ -613,7 +612,6 @@ namespace Bonmin
       dive_.pop_front();
       diveListSize_ --;
       assert(node);
-      assert((node->depth() - divingBoardDepth_) <= maxDiveDepth_);
       if (node->objectiveValue() > cutoff) {//throw away node for now just put it on the heap as deleting a node is
         //more complicated than that (has to delete nodeInfo, cuts...)
 #ifdef DIVE_DEBUG
@@ -666,7 +664,7 @@ namespace Bonmin
     assert(dive_.empty());
     assert(diveListSize_ == 0);
     node = CbcTree::bestNode(cutoff);
-    divingBoardDepth_ = node->depth();
+    if (node != NULL) divingBoardDepth_ = node->depth();
     nBacktracks_ = 0;
     return node;
   }
@@ -817,7 +815,7 @@ namespace Bonmin
     assert(comparisonDive_);
     assert(comparisonBound_);
     CbcDfsDiver::ComparisonModes mode = diver_->getComparisonMode();
-    if (mode == CbcDfsDiver::FindSolutions) {
+    if (mode == CbcDfsDiver::FindSolutions || mode == CbcDfsDiver::Enlarge) {
       return comparisonDive_->test(x,y);
     }
     else if (mode == CbcDfsDiver::CloseBound) {
-- 
2.43.0


From 2082a5898030a3e5c0cf6de7061c9dd82deb8abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:51 +0000
Subject: [PATCH 12/61] fix: probed diving pushed a null node and kept a child
 above the cutoff forever

---
 src/CbcBonmin/BonDiver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 5b29dac..4e063de 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -345,7 +345,7 @@ namespace Bonmin
           CbcTree::push(nextOnBranch_);
           nextOnBranch_ = NULL;
           //Also have to cleanup candidateChild_
-          CbcTree::push(candidateChild_);
+          if (candidateChild_ != NULL) CbcTree::push(candidateChild_);
           candidateChild_ = NULL;
           return CbcTree::bestNode(cutoff);
         }
@@ -386,6 +386,8 @@ namespace Bonmin
         return ret_val;
       }
       assert(true && "Should not get here.");
+      CbcTree::push(candidateChild_);//For safety
+      candidateChild_ = NULL;
    }
    CbcNode * ret_val = CbcTree::bestNode(cutoff);
 #ifdef DIVE_DEBUG
-- 
2.43.0


From cd27646ad771936bd808012cc1656f8b7172c18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:51 +0000
Subject: [PATCH 13/61] fix: size of the diving trees hid instead of overriding
 the size of the tree

---
 src/CbcBonmin/BonDiver.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.hpp b/src/CbcBonmin/BonDiver.hpp
index 2e06559..a16007a 100644
--- a/src/CbcBonmin/BonDiver.hpp
+++ b/src/CbcBonmin/BonDiver.hpp
@@ -59,7 +59,7 @@ namespace Bonmin
     /** Test if empty. */
     virtual bool empty();
     /** Give size of the tree.*/
-    virtual int size()
+    virtual int size() const
     {
       return (static_cast<int>(nodes_.size()) + (nextOnBranch_ != NULL) );
     }
@@ -141,7 +141,7 @@ namespace Bonmin
     /** Test if empty. */
     virtual bool empty();
     /** Give size of the tree.*/
-    virtual int size()
+    virtual int size() const
     {
       return (static_cast<int>(nodes_.size()) + (nextOnBranch_ != NULL) + (candidateChild_ != NULL) );
     }
@@ -237,7 +237,7 @@ namespace Bonmin
     /** Test if empty. */
     virtual bool empty();
     /** Give size of the tree.*/
-    virtual int size()
+    virtual int size() const
     {
       return static_cast<int>(nodes_.size()) + diveListSize_;
     }
-- 
2.43.0


From 2f2793873e94108aed9cf97feaf8360693705c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:51 +0000
Subject: [PATCH 14/61] fix: guess heuristic dereferenced a null branching
 method

---
 src/CbcBonmin/BonGuessHeuristic.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonGuessHeuristic.cpp b/src/CbcBonmin/BonGuessHeuristic.cpp
index 157eca7..c5c80e5 100644
--- a/src/CbcBonmin/BonGuessHeuristic.cpp
+++ b/src/CbcBonmin/BonGuessHeuristic.cpp
@@ -24,7 +24,9 @@ namespace Bonmin
   GuessHeuristic::solution(double &solutionValue, double *betterSolution)
   {
     // Get pointer to pseudo costs object
-    const BonChooseVariable* chooseMethod = dynamic_cast<BonChooseVariable*>(model_->branchingMethod()->chooseMethod());
+    const BonChooseVariable* chooseMethod = NULL;
+    if (model_->branchingMethod())
+      chooseMethod = dynamic_cast<BonChooseVariable*>(model_->branchingMethod()->chooseMethod());
 
     if (!chooseMethod) {
       (*model_->messageHandler()) << "Can't get pseudo costs!!!\n";
-- 
2.43.0


From ca28b63be9518c0f21d814c9f994f549c5681f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:41 +0000
Subject: [PATCH 15/61] fix: strong and reliability branching of Cbc crash or
 cut off solutions on the nonlinear relaxation, use NLP strong branching

---
 src/Algorithms/BonBonminSetup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/BonBonminSetup.cpp b/src/Algorithms/BonBonminSetup.cpp
index ae60d2f..2fb5d1b 100644
--- a/src/Algorithms/BonBonminSetup.cpp
+++ b/src/Algorithms/BonBonminSetup.cpp
@@ -415,7 +415,7 @@ namespace Bonmin
     }
     int varSelection;
     bool val = options_->GetEnumValue("variable_selection",varSelection,prefix_.c_str());
-    if (!val){// || varSelection == STRONG_BRANCHING || varSelection == RELIABILITY_BRANCHING ) {
+    if (!val || varSelection == STRONG_BRANCHING || varSelection == RELIABILITY_BRANCHING ) {
       std::string o_name = prefix_ + "variable_selection";
       options_->SetStringValue(o_name.c_str(), "nlp-strong-branching",true,true);
       varSelection = NLP_STRONG_BRANCHING;
-- 
2.43.0


From 0ee7e58f1aec3a051d999bf546ca10edd0ef3707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:41 +0000
Subject: [PATCH 16/61] fix: LP strong branching set the upper bound of the
 branching variable to its lower bound

---
 src/Algorithms/Branching/BonLpBranchingSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/Branching/BonLpBranchingSolver.cpp b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
index 4faaa63..3a61b1d 100644
--- a/src/Algorithms/Branching/BonLpBranchingSolver.cpp
+++ b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
@@ -145,7 +145,7 @@ namespace Bonmin
           diff_up_bnd_index.push_back(i);
           diff_up_bnd_value.push_back(colUp_orig[i]);
         }
-        lin->setColUpper(i,lo);
+        lin->setColUpper(i,up);
       }
     }
 
@@ -179,7 +179,7 @@ namespace Bonmin
       }
     }
     tminlp_interface->problem()->set_obj_value(obj);
-    tminlp_interface->problem()->Set_x_sol(numCols, lin_->getColSolution());
+    tminlp_interface->problem()->Set_x_sol(numCols, lin->getColSolution());
 
     //restore the original bounds
     if(warm_start_mode_ == Basis){
-- 
2.43.0


From cafe724a9dc695d8d5ded736fdfa27051baae60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:41 +0000
Subject: [PATCH 17/61] fix: look-ahead in strong branching aborted when a
 candidate is infeasible in one direction

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 4abfbdc..4ae9dca 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -930,8 +930,7 @@ namespace Bonmin
         break;
       }
       // stop if look ahead heuristic tells us so
-      if (!isRoot && numberLookAhead_) {
-	assert(status0==0 && status1==0);
+      if (!isRoot && numberLookAhead_ && status0==0 && status1==0) {
 	double upEstimate = result->upChange();
 	double downEstimate = result->downChange();
 	double MAXMIN_CRITERION = maxminCrit(info);
-- 
2.43.0


From f6faf8a1ec64a0cba73bdac210ac077c339e966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:17 +0000
Subject: [PATCH 18/61] fix: without strong branching the choice of branching
 variable ignored pseudo-costs and gave no direction

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 4ae9dca..2639501 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -754,8 +754,9 @@ namespace Bonmin
         }
         info->solution_ = branchedSolution;
       }
-      else {
+      else if (bestObjectIndex_ < 0) {
         bestObjectIndex_=list_[0];
+        bestWhichWay_ = solver->object(bestObjectIndex_)->whichWay();
       }
       if ( bestObjectIndex_ >=0 ) {
         OsiObject * obj = solver->objects()[bestObjectIndex_];
-- 
2.43.0


From 0a9aa862957ec3b012ff3d1f6fbf0230bf727270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:15 +0000
Subject: [PATCH 19/61] fix: dynamic NLP crashed on problems without
 constraints and on infeasible problems with a linear objective

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 1 +
 src/CbcBonmin/BonCbc.cpp                   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index 62e71ff..5b7d422 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -232,6 +232,7 @@ namespace Bonmin {
 
         bool retval = TMINLP2TNLP::eval_jac_g(n, x, new_x, m_orig ,
                                 n_ele_orig, iRow, jCol, values);
+        if(nele_jac == 0) return retval;// arrays may be NULL
         if(values == NULL){
            assert(iRow != NULL);
            assert(jCol != NULL);
diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 65fcb20..5ad1db7 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -464,8 +464,10 @@ namespace Bonmin
                                             // can be solved
         OsiTMINLPInterface * tmpOsi = dynamic_cast<OsiTMINLPInterface *> (model_.solver());
         TMINLPLinObj * tmp_tminlp = dynamic_cast<TMINLPLinObj *> (tmpOsi->model());
-        tmpOsi->setModel(tmp_tminlp->tminlp());
-        model_.initialSolve();
+        if(tmp_tminlp != NULL){
+          tmpOsi->setModel(tmp_tminlp->tminlp());
+          model_.initialSolve();
+        }
       } 
       else {
         LinearCutsGenerator cgl;
-- 
2.43.0


From 61d64658c4da00d938f05e307a2d789dff495be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:09 +0000
Subject: [PATCH 20/61] fix: heuristics based on a local solver deleted their
 nonlinear solver twice

---
 src/CbcBonmin/Heuristics/BonDummyPump.cpp            | 3 +--
 src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp | 8 +++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonDummyPump.cpp b/src/CbcBonmin/Heuristics/BonDummyPump.cpp
index dd9bf72..bb913c9 100644
--- a/src/CbcBonmin/Heuristics/BonDummyPump.cpp
+++ b/src/CbcBonmin/Heuristics/BonDummyPump.cpp
@@ -55,8 +55,7 @@ namespace Bonmin {
     nlp->switchToFeasibilityProblem(inds.size(), vals(), inds(), 1., 0., 1);
 
     double cutoff = info.cutoff_; 
-    int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff);
-    delete nlp;
+    int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff); // takes ownership of nlp
     return r_val;
   }
 
diff --git a/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp b/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
index ca21485..3ed8c17 100644
--- a/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
+++ b/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
@@ -64,10 +64,12 @@ namespace Bonmin {
          nFixed ++;
       }
     }
-    if(nFixed < numberObjects / 3) return 0;
+    if(nFixed < numberObjects / 3){
+      delete nlp;
+      return 0;
+    }
     double cutoff = info.cutoff_; 
-    int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff);
-    delete nlp;
+    int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff); // takes ownership of nlp
     return r_val;
   }
 
-- 
2.43.0


From f4fe16df172570315a2d9671c35f195662b1bbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:29 +0000
Subject: [PATCH 21/61] fix: feasibility problem had the wrong Hessian and
 Jacobian structure and bounded the wrong objective

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 37 ++++++++++++++++----------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 913f8e6..fcffaf5 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -206,7 +206,7 @@ namespace Bonmin
       ret_code = tnlp_->eval_g(n, x, new_x, m-2, g);
       // compute the value of the cutoff constraint
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-2] = obj_value;
       else
 	ret_code = false;
@@ -223,7 +223,7 @@ namespace Bonmin
     else if(use_cutoff_constraint_) {
       ret_code = tnlp_->eval_g(n, x, new_x, m-1, g);
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-1] = obj_value;
       else
 	ret_code = false;
@@ -254,7 +254,7 @@ namespace Bonmin
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m-2, nele_jac - n - n_integers, 
 				   iRow, jCol, values);
 
       if (iRow && jCol && !values) { //Initialization phase 
@@ -268,9 +268,8 @@ namespace Bonmin
 	  jCol[i] = i + index_correction;
 	}
 	// compute the jacobian contribution of the local branching constraint
-	k = nele_jac - n_integers;
-	iRow += k;
-	jCol += k;
+	iRow += n;
+	jCol += n;
 	for(int i = 0; i< n_integers; i++) {
 	  iRow[i] = m - 1 + index_correction;
 	  jCol[i] = inds_[i] + index_correction;
@@ -279,10 +278,9 @@ namespace Bonmin
       else if (!iRow & !jCol && values) { //computation phase
 	// compute the jacobian contribution of the cutoff constraint
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
+	values += nele_jac - n - n_integers;
 	if(ret_code_grad_f) {
-	  int k = nele_jac - n - n_integers;
-	  values += k;
 	  for(int i = 0; i< n; i++) {
 	    values[i] = grad_f[i];
 	  }
@@ -291,8 +289,7 @@ namespace Bonmin
 	  ret_code = false;
 	delete [] grad_f;
 	// compute the jacobian contribution of the local branching constraint
-	int k = nele_jac - n_integers;
-	values += k;
+	values += n;
 	for(int i = 0; i< n_integers; i++) {
 	  if(vals_[i] <= 0.1)
 	    values[i] = 1.0;
@@ -305,7 +302,7 @@ namespace Bonmin
       }
     }
     else if(use_cutoff_constraint_) {
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m-1, nele_jac - n, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
@@ -320,7 +317,7 @@ namespace Bonmin
       }
       else if (!iRow & !jCol && values) { //computation phase
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	if(ret_code_grad_f) {
 	  int k = nele_jac - n;
 	  values += k;
@@ -338,7 +335,7 @@ namespace Bonmin
     }
     else if(use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m-1, nele_jac - n_integers, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
@@ -380,27 +377,29 @@ namespace Bonmin
   {
     bool ret_code;
 
-    int  nnz_obj_h = (norm_ == 2) ? (int)inds_.size() : 0;
+    int  nnz_obj_h = (use_feasibility_pump_objective_ && norm_ == 2) ? (int)inds_.size() : 0;
+    // factor of the original objective in the one which is minimized
+    Number coef_f = use_feasibility_pump_objective_ ? (1-lambda_)*sigma_ : 1.;
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 2];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*coef_f + coef_obj, 
 			       m - 2, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_cutoff_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 1];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*coef_f + coef_obj, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_local_branching_constraint_) {
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*coef_f, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else { // this is the original feasibility pump implementation
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*coef_f, 
 			       m, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
-- 
2.43.0


From bd4e7d58dbe982819c413bf5ef3332cde5389f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:54 +0000
Subject: [PATCH 22/61] fix: branching below infeasible or unsolved nodes
 crashed when every integer variable is fixed

---
 src/CbcBonmin/BonCbcNlpStrategy.cpp | 15 +++++++++++----
 src/Interfaces/BonTMINLP2TNLP.cpp   |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/CbcBonmin/BonCbcNlpStrategy.cpp b/src/CbcBonmin/BonCbcNlpStrategy.cpp
index 729bf57..72593e4 100644
--- a/src/CbcBonmin/BonCbcNlpStrategy.cpp
+++ b/src/CbcBonmin/BonCbcNlpStrategy.cpp
@@ -114,7 +114,14 @@ namespace Bonmin
       <<CoinMessageEol;
     }
 
-    if (seqOfInfeasiblesSize < maxInfeasible_ &&
+    // Can only continue below this node if an integer variable is not fixed
+    bool branchable = false;
+    for (int i = 0 ; i < solver->getNumCols() && !branchable ; i++) {
+      branchable = solver->isInteger(i) &&
+                   solver->getColLower()[i] + 0.5 < solver->getColUpper()[i];
+    }
+
+    if (seqOfInfeasiblesSize < maxInfeasible_ && branchable &&
         solved && !feasible) {
       (*model->messageHandler())<<"Branching on infeasible node, sequence of infeasible size "
       <<seqOfInfeasiblesSize<<CoinMessageEol;
@@ -126,7 +133,7 @@ namespace Bonmin
 
     }
 
-    if (!solved && parent != NULL &&
+    if (!solved && parent != NULL && branchable &&
         seqOfUnsolvedSize <= maxFailure_) {
       (*model->messageHandler())<<"Branching on unsolved node, sequence of unsolved size "<<seqOfUnsolvedSize<<CoinMessageEol;
       // Have to make sure that we will branch
@@ -135,8 +142,8 @@ namespace Bonmin
       returnStatus = 0;
     }
 
-    if (solver->isAbandoned() && parent != NULL &&
-        seqOfUnsolvedSize > maxFailure_) {
+    if (!solved && parent != NULL &&
+        (seqOfUnsolvedSize > maxFailure_ || !branchable)) {
       hasFailed_ = true;
       OsiTMINLPInterface * osiMinlp =
         dynamic_cast<OsiTMINLPInterface *>(solver);
diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index e5ee820..42b60c0 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -621,7 +621,7 @@ namespace Bonmin
     for(int i=0 ; i < num_variables() ; i++) {
       if( ( var_types_[i] == TMINLP::INTEGER ||
           var_types_[i] == TMINLP::BINARY )&&
-          x_l_[i] < x_u_[i] + 0.5)//not fixed
+          x_l_[i] + 0.5 < x_u_[i])//not fixed
       {
         x_sol_[i] = ceil(x_l_[i]) + 0.5;//make it integer infeasible
       }
-- 
2.43.0


From 4730f7636d2fea9bb190c3ef030708358bf8768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:19 +0000
Subject: [PATCH 23/61] fix: Benders cuts of the feasibility checker were empty
 or failed to cut off infeasible integer points

---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 3 ++-
 src/Interfaces/BonOsiTMINLPInterface.cpp         | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 290748e..b1e6789 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -76,7 +76,8 @@ namespace Bonmin
 
       const double * toCut = (parameter().addOnlyViolated_)?
                              colsol:NULL;
-      if(cut_count_ <= maximum_oa_cuts_ && type_ == OA)
+      //Multipliers of an infeasible NLP don't give a Benders cut which cuts off the integer point
+      if((cut_count_ <= maximum_oa_cuts_ && type_ == OA) || !nlp_->isProvenOptimal())
         nlp_->getOuterApproximation(cs, nlpSol, 1, toCut,
                                     true);
       else {//if (type_ == Benders)
diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index abb4a87..53c28aa 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2195,6 +2195,8 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
       v.insert(i, cut[i]);
     }
   }
+  //Do not generate an empty redundant cut
+  if(v.getNumElements() == 0 && ub >= 0.) return;
   OsiRowCut newCut;
   if(global)
     newCut.setGloballyValidAsInteger(1);
-- 
2.43.0


From 097158a26b2b8d0ae77b07ec011a2b453c218780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:49 +0000
Subject: [PATCH 24/61] fix: cut strengthening ignored the index style of the
 problem

---
 src/Interfaces/BonCutStrengthener.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Interfaces/BonCutStrengthener.cpp b/src/Interfaces/BonCutStrengthener.cpp
index 9a0ca49..8c41f21 100644
--- a/src/Interfaces/BonCutStrengthener.cpp
+++ b/src/Interfaces/BonCutStrengthener.cpp
@@ -265,6 +265,12 @@ namespace Bonmin
 	delete [] jCol;
 	return false;
       }
+      Index n_tminlp, m_tminlp, nnz_jac_g, nnz_h_lag;
+      TNLP::IndexStyleEnum index_style;
+      tminlp->get_nlp_info(n_tminlp, m_tminlp, nnz_jac_g, nnz_h_lag, index_style);
+      if (index_style == TNLP::FORTRAN_STYLE) {
+	for (int i=0; i<nele_grad_gi; i++) jCol[i]--;
+      }
     }
 
     bool lower_bound;
-- 
2.43.0


From 3efc612c98f01a0cc38fe70a853eeed3da56712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:19 +0000
Subject: [PATCH 25/61] fix: linear-objective reformulation gave stale points
 to the user's problem and crashed on the gradient structure of its objective
 row

---
 src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp | 22 ++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
index 2dd7729..a15392a 100644
--- a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
@@ -130,7 +130,7 @@ namespace Bonmin{
      assert(m == m_);
      assert(n == n_);
 
-     bool ret_val =  tminlp_->eval_f(n - 1, x, new_x, g[0]);
+     bool ret_val =  tminlp_->eval_f(n - 1, x, true, g[0]);//objective evaluations are not passed to tminlp_, x may be new to it
      g[0] -= x[n -1];
      return ret_val && tminlp_->eval_g(n - 1, x, false, m - 1, g+1);
    }
@@ -154,7 +154,7 @@ namespace Bonmin{
        return ret_val;
      }
      else {
-       ret_val &= tminlp_->eval_grad_f(n-1, x, new_x, values);
+       ret_val &= tminlp_->eval_grad_f(n-1, x, true, values);
        values[n-1] = -1;
        ret_val &= tminlp_->eval_jac_g(n - 1, x, false, m - 1, nele_jac - n_, NULL, NULL, values + n);
      }
@@ -169,7 +169,7 @@ namespace Bonmin{
      assert(IsValid(tminlp_));
      assert(m == m_);
      assert(n == n_);
-     return tminlp_->eval_h(n_ - 1, x, new_x, (lambda != NULL)? lambda[0]: 1., m_ - 1, (lambda != NULL)? lambda + 1: NULL, new_lambda,
+     return tminlp_->eval_h(n_ - 1, x, true, (lambda != NULL)? lambda[0]: 1., m_ - 1, (lambda != NULL)? lambda + 1: NULL, new_lambda,
                                   nele_hess, iRow, jCol, values);
     }
 
@@ -181,11 +181,11 @@ namespace Bonmin{
      assert(i < m_);
      assert(n == n_);
      if(i == 0){
-      bool ret_val = tminlp_->eval_f(n-1, x, new_x, gi);
+      bool ret_val = tminlp_->eval_f(n-1, x, true, gi);
       gi -= x[n -1];
       return ret_val;}
       else
-      return tminlp_->eval_gi(n-1, x, new_x, i - 1, gi);
+      return tminlp_->eval_gi(n-1, x, true, i - 1, gi);
    }
 
    bool
@@ -196,14 +196,18 @@ namespace Bonmin{
      assert(i < m_);
      assert(n == n_);
      if(i == 0){
+      bool ret_val = true;
+      nele_grad_gi = n;
       if(jCol != NULL){
-        for(int i = 0 ; i < n ; i++) jCol[i] = i + offset_;
+        for(int j = 0 ; j < n ; j++) jCol[j] = j + offset_;
+      }
+      if(values != NULL){
+        ret_val = tminlp_->eval_grad_f(n-1, x, true, values);
+        values[n-1] = -1;
       }
-      bool ret_val= tminlp_->eval_grad_f(n-1, x, new_x, values);
-      values[n-1] = -1;
       return ret_val;}
       else
-        return tminlp_->eval_grad_gi(n - 1, x, new_x, i - 1, nele_grad_gi,
+        return tminlp_->eval_grad_gi(n - 1, x, true, i - 1, nele_grad_gi,
                         jCol, values);
    }
 
-- 
2.43.0


From cfcb624b9b28b4a00a8cb9f158afe572e40c55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:19 +0000
Subject: [PATCH 26/61] fix: feasibility problem declared its nonlinear cutoff
 row and quadratic variables linear

---
 src/Interfaces/BonTNLP2FPNLP.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.hpp b/src/Interfaces/BonTNLP2FPNLP.hpp
index 991d989..bf06aa1 100644
--- a/src/Interfaces/BonTNLP2FPNLP.hpp
+++ b/src/Interfaces/BonTNLP2FPNLP.hpp
@@ -157,7 +157,13 @@ namespace Bonmin
 
     virtual bool get_variables_linearity(Ipopt::Index n, LinearityType* var_types)
     {
-      return tnlp_->get_variables_linearity(n, var_types);;
+      bool ret_code = tnlp_->get_variables_linearity(n, var_types);
+      if(ret_code && use_feasibility_pump_objective_ && norm_ == 2) {
+        //the distance is quadratic
+        for(unsigned int i = 0 ; i < inds_.size() ; i++)
+          var_types[inds_[i]] = Ipopt::TNLP::NON_LINEAR;
+      }
+      return ret_code;
     }
 
     /** overload this method to return the constraint linearity.
@@ -166,14 +172,15 @@ namespace Bonmin
     virtual bool get_constraints_linearity(Ipopt::Index m, LinearityType* const_types)
     {
       int m2 = m;
-      if(use_cutoff_constraint_) {
-        m2--;
-        const_types[m2] = Ipopt::TNLP::NON_LINEAR;
-      } 
+      //the local branching constraint comes last
       if(use_local_branching_constraint_) {
         m2--;
         const_types[m2] = Ipopt::TNLP::LINEAR;
       }
+      if(use_cutoff_constraint_) {
+        m2--;
+        const_types[m2] = Ipopt::TNLP::NON_LINEAR;
+      } 
       return tnlp_->get_constraints_linearity(m2, const_types);
     }
     /** @name Scaling of the objective function */
-- 
2.43.0


From 6d4241f3bf823154d787d32037d7aba155ae8991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:10 +0000
Subject: [PATCH 27/61] fix: quadratic cuts lost their constant, and those
 stored as full matrices hung

---
 src/Algorithms/QuadCuts/BonQuadCut.cpp |  2 +-
 src/Algorithms/QuadCuts/BonQuadRow.cpp |  2 +-
 src/Algorithms/QuadCuts/BonTMatrix.cpp | 36 ++++++++++++++++----------
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonQuadCut.cpp b/src/Algorithms/QuadCuts/BonQuadCut.cpp
index c723953..c3f0d1f 100644
--- a/src/Algorithms/QuadCuts/BonQuadCut.cpp
+++ b/src/Algorithms/QuadCuts/BonQuadCut.cpp
@@ -59,7 +59,7 @@ namespace Bonmin {
     	int s=start[i];
 	int l=length[i];
       for(int k = s ; k < s+l ; k++){
-        if(i == indice[k]) rhs += solution[i] * solution[indice[k]] * val[k];
+        if(i == indice[k] || type_ == Full) rhs += solution[i] * solution[indice[k]] * val[k];
         else rhs += 2*solution[i] * solution[indice[k]] * val[k];
       }
     }
diff --git a/src/Algorithms/QuadCuts/BonQuadRow.cpp b/src/Algorithms/QuadCuts/BonQuadRow.cpp
index c473701..efe95a6 100644
--- a/src/Algorithms/QuadCuts/BonQuadRow.cpp
+++ b/src/Algorithms/QuadCuts/BonQuadRow.cpp
@@ -52,7 +52,7 @@ QuadRow & QuadRow::operator=(const QuadRow &rhs){
 }
 
 QuadRow::QuadRow(const QuadCut &cut):
-  c_(0),
+  c_(cut.c()),
   a_(cut.row()),
   Q_(cut.Q(), cut.type())
   {
diff --git a/src/Algorithms/QuadCuts/BonTMatrix.cpp b/src/Algorithms/QuadCuts/BonTMatrix.cpp
index 12ab75b..b8e0f7e 100644
--- a/src/Algorithms/QuadCuts/BonTMatrix.cpp
+++ b/src/Algorithms/QuadCuts/BonTMatrix.cpp
@@ -137,23 +137,31 @@ TMat::numNonEmptyCols(){
 /** Remove the duplicated entries.*/
 void 
 TMat::removeDuplicates(){
+  if(nnz_ == 0) return;
   orderByRows();
-  int j = 0;
-  for(int i = 1; i < nnz_ ; i++){
-    if((jCol_[rowOrdering_[i]] == jCol_[rowOrdering_[j]]) && 
-       (iRow_[rowOrdering_[i]] == iRow_[rowOrdering_[j]])){
-       value_[rowOrdering_[j]] += value_[rowOrdering_[i]];
+  int * iRow = new int[nnz_];
+  int * jCol = new int[nnz_];
+  double * value = new double[nnz_];
+  int nnz = 0;
+  for(int i = 0; i < nnz_ ; i++){
+    const int& k = rowOrdering_[i];
+    if(nnz && jCol[nnz - 1] == jCol_[k] && iRow[nnz - 1] == iRow_[k]){
+      value[nnz - 1] += value_[k];
     }
     else{
-      jCol_[rowOrdering_[++j]] = jCol_[rowOrdering_[i]];
-      iRow_[rowOrdering_[j]] = iRow_[rowOrdering_[i]];
-      value_[rowOrdering_[j]] = value_[rowOrdering_[i]];
+      iRow[nnz] = iRow_[k];
+      jCol[nnz] = jCol_[k];
+      value[nnz++] = value_[k];
     }
   }
-  resizeAndCopyArray(jCol_, j, capacity_);
-  resizeAndCopyArray(iRow_, j, capacity_);
-  resizeAndCopyArray(value_, j, capacity_);
-  nnz_ = j;
+  freeSpace();
+  iRow_ = iRow;
+  jCol_ = jCol;
+  value_ = value;
+  capacity_ = nnz_;
+  nnz_ = nnz;
+  columnOrdering_.clear();
+  rowOrdering_.clear();
 }
 
 void
@@ -192,8 +200,8 @@ TMat::make_lower_to_be_upper(){
 void
 TMat::make_full_upper_triangular(){
   // Make it upper triangular
-  for(int i = 0 , j = 0; i < nnz_ && j < nnz_ ;){
-    if(iRow_[i] < jCol_[i]){//swap the two entries
+  for(int i = 0 ; i < nnz_ ; i++){
+    if(iRow_[i] > jCol_[i]){//swap the two entries
       int buf = iRow_[i];
       iRow_[i] = jCol_[i];
       jCol_[i] = buf;
-- 
2.43.0


From 4b7f335a8c85bcffc7f49541b02b0834879a5b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:36 +0000
Subject: [PATCH 28/61] fix: resetting the starting point left a dangling
 pointer to its dual part

---
 src/Interfaces/BonTMINLP2TNLP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index 42b60c0..aed3ea3 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -281,6 +281,7 @@ namespace Bonmin
   {
     curr_warm_starter_ = NULL;
     x_init_.clear();
+    duals_init_ = NULL;//it pointed into x_init_
   }
 
   void TMINLP2TNLP::setxInit(Index n,const Number* x_init)
-- 
2.43.0


From 17bfeb33e0dbe71926fdb4a3ed1bd03c28bc1b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:13 +0000
Subject: [PATCH 29/61] fix: problem with cuts failed on single cut
 evaluations, lost its constant when copied and its multipliers when cuts are
 removed

---
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 23 ++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index 5b7d422..babe5cd 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -55,7 +55,8 @@ namespace Bonmin {
       quadRows_(other.quadRows_),
       H_(),
       curr_nnz_jac_(other.curr_nnz_jac_),
-      obj_(other.obj_)
+      obj_(other.obj_),
+      c_(other.c_)
       {
        // Get the number of nonzoeroes in the matrix
        const size_t nnz_h = TMINLP2TNLP::nnz_h_lag();
@@ -152,7 +153,7 @@ namespace Bonmin {
                                         bool& use_g_scaling, Index m,
                                         Number* g_scaling){
            assert(num_constraints() == m);
-           bool retval = get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
+           bool retval = TMINLP2TNLP::get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
            if(use_g_scaling){
              g_scaling += m - (int)quadRows_.size();
              CoinFillN(g_scaling, (int)quadRows_.size(), 1.);}
@@ -202,7 +203,7 @@ namespace Bonmin {
     }
     i -= m_orig;
      gi = quadRows_[i]->eval_f(x, new_x);
-     return false;
+     return true;
   }
 
 
@@ -279,7 +280,7 @@ namespace Bonmin {
       assert(jCol == NULL);
       quadRows_[i]->eval_grad(nele_grad_gi, x, new_x, values);
     }
-    return false;
+    return true;
   }
     /** Return the hessian of the
      *  lagrangian. The vectors iRow and jCol only need to be set once
@@ -470,6 +471,13 @@ namespace Bonmin {
 
 
     int i;
+    //row part of the dual vectors (when there is one)
+    const size_t n_var = x_l_.size();
+    const size_t m_old = g_l_.size();
+    double * duals_sol = (duals_sol_.size() == m_old + 2*n_var) ?
+                         duals_sol_() + 2*n_var + m_tminlp : NULL;
+    double * duals_init = (duals_init_ != NULL && x_init_.size() == m_old + 3*n_var) ?
+                          x_init_() + 3*n_var + m_tminlp : NULL;
     double * g_l = g_l_() + m_tminlp;
     double * g_u = g_u_() + m_tminlp;
     for(i = 0 ; order[i] < INT_MAX ; i++){
@@ -477,10 +485,17 @@ namespace Bonmin {
       quadRows_[i] = quadRows_[order[i]]; 
       g_l[i] = g_l[order[i]];
       g_u[i] = g_u[order[i]];
+      if(duals_sol) duals_sol[i] = duals_sol[order[i]];
+      if(duals_init) duals_init[i] = duals_init[order[i]];
     }
     quadRows_.erase(quadRows_.begin() + i, quadRows_.end());
     g_l_.erase(g_l_.begin() + m_tminlp + i, g_l_.end());
     g_u_.erase(g_u_.begin() + m_tminlp + i, g_u_.end());
+    if(duals_sol) duals_sol_.resize(g_l_.size() + 2*n_var);
+    if(duals_init){
+      x_init_.resize(g_l_.size() + 3*n_var);
+      duals_init_ = x_init_() + n_var;
+    }
  }
 
 void
-- 
2.43.0


From a207f0845f353416b312565dcc8636b410dee4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:31 +0000
Subject: [PATCH 30/61] fix: outer approximation of a single row used indices
 that were never filled in and ignored the index style

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 53c28aa..dff0750 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2217,8 +2217,17 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
   int * indices = new int[getNumCols()];
   double * values = new double[getNumCols()];
   int nnz;
-  problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, indices, values);
-  problem_->eval_gi(getNumCols(),x,1, rowIdx, g);
+  // The sparsity structure and the values have to be asked for separately.
+  problem_->eval_grad_gi(getNumCols(), NULL, 0, rowIdx, nnz, indices, NULL);
+  problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, NULL, values);
+  problem_->eval_gi(getNumCols(),x,0, rowIdx, g);
+  {
+    int n, m, nnz_jac_g, nnz_h_lag;
+    TNLP::IndexStyleEnum index_style;
+    problem_->get_nlp_info(n, m, nnz_jac_g, nnz_h_lag, index_style);
+    if(index_style == Ipopt::TNLP::FORTRAN_STYLE)//put C-style
+      for(int i = 0 ; i < nnz ; i++) indices[i]--;
+  }
 
   CoinPackedVector cut;
   double lb;
-- 
2.43.0


From 958e0d8be01fc7915a15bb841107f485d10cb834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:31 +0000
Subject: [PATCH 31/61] fix: linear relaxation ignored constants of linear
 rows, kept removed coefficients and misaligned bounds after removing rows

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 30 ++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index dff0750..c862c89 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2492,6 +2492,8 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
           if(rowUp[jRow_[i]] < infty)
           rowUp[jRow_[i]] += jValues_[i] *x[jCol_[i]];
        }
+       else
+          jValues_[i] = 0.;//the coefficient is dropped
     }
     else {
       //double value = jValues_[i] * x[jCol_[i]];
@@ -2500,12 +2502,40 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
     } 
   }
 
+  //The constant term of a linear constraint has to go to the right-hand-side
+  {
+    vector<double> constant(g);
+    vector<double> magnitude(m, 1.);
+    for(int i = 0 ; i < nnz_jac_g ; i++) {
+      const double value = jValues_[i] * x[jCol_[i]];
+      constant[jRow_[i]] -= value;
+      magnitude[jRow_[i]] += fabs(value);
+    }
+    for(int i = 0 ; i < m ; i++) {
+      if(constTypes_[i] != TNLP::LINEAR || fabs(constant[i]) <= 1e-11 * magnitude[i]) continue;
+      if(rowLow[i] > - infty) rowLow[i] -= constant[i];
+      if(rowUp[i] < infty) rowUp[i] -= constant[i];
+    }
+  }
 
   CoinPackedMatrix mat(true, jRow_, jCol_, jValues_, nnz_jac_g);
   mat.setDimensions(m,n); // In case matrix was empty, this should be enough
   
   //remove non-bindings equality constraints
   mat.deleteRows(numNonBindings, nonBindings());
+  if(numNonBindings > 0) {//and their bounds
+    int numKept = 0;
+    for(int i = 0, next = 0 ; i < m ; i++) {
+      if(next < numNonBindings && nonBindings[next] == i) {
+        next++;
+        continue;
+      }
+      rowLow[numKept] = rowLow[i];
+      rowUp[numKept++] = rowUp[i];
+    }
+    rowLow.resize(numKept);
+    rowUp.resize(numKept);
+  }
 
   int numcols=getNumCols();
   vector<double> obj(numcols);
-- 
2.43.0


From a51e5c521aac819847b6f12f45620761e3271669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:31 +0000
Subject: [PATCH 32/61] fix: integers of the NLP were looked up past its last
 column when fixing them from an LP with an objective column

---
 src/Algorithms/BonSolverHelp.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/BonSolverHelp.cpp b/src/Algorithms/BonSolverHelp.cpp
index f17db57..69f1ecb 100644
--- a/src/Algorithms/BonSolverHelp.cpp
+++ b/src/Algorithms/BonSolverHelp.cpp
@@ -58,7 +58,9 @@ void fixIntegers(OsiSolverInterface & si,
   }
   else {
     const double * colsol = info.solution_;
-    for (int i = 0; i < info.numberColumns_; i++) {
+    // info may come from a relaxation with more columns than si
+    const int numcols = std::min(info.numberColumns_, si.getNumCols());
+    for (int i = 0; i < numcols; i++) {
       if (si.isInteger(i)) {
         double  value =  colsol[i];
 #ifndef NDEBUG
@@ -108,7 +110,8 @@ void relaxIntegers(OsiSolverInterface & si,
     }
   }
   else {
-    for (int i = 0; i < info.numberColumns_; i++) {
+    const int numcols = std::min(info.numberColumns_, si.getNumCols());
+    for (int i = 0; i < numcols; i++) {
       if (si.isInteger(i)) {
         const int &colNumber = i;
         si.setColLower(colNumber, si.getColLower()[colNumber] - integer_tolerance); 
@@ -133,7 +136,8 @@ bool refixIntegers(OsiSolverInterface & si,
     }
   }
   else {
-    for (int i = 0; i < info.numberColumns_; i++) {
+    const int numcols = std::min(info.numberColumns_, si.getNumCols());
+    for (int i = 0; i < numcols; i++) {
       if (si.isInteger(i)) {
         const int &colNumber = i;
         si.setColLower(colNumber, si.getColLower()[colNumber] - integer_tolerance); 
-- 
2.43.0


From a69f10b10b36c669e469a2bb28850d9e101a05b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:32 +0000
Subject: [PATCH 33/61] fix: small coefficients were removed from cuts using
 bounds that only hold for the current subproblem

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index c862c89..930d049 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1948,8 +1948,9 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
 
   const double * rowLower = getRowLower();
   const double * rowUpper = getRowUpper();
-  const double * colLower = getColLower();
-  const double * colUpper = getColUpper();
+  // Current bounds may come from fixing the integers: a cut is only valid outside if it doesn't use them.
+  const double * colLower = problem_->orig_x_l();
+  const double * colUpper = problem_->orig_x_u();
   const double * duals = getRowPrice() + 2 * n;
   double infty = getInfinity();
   
@@ -2132,8 +2133,9 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
 
   const double * rowLower = getRowLower();
   const double * rowUpper = getRowUpper();
-  const double * colLower = getColLower();
-  const double * colUpper = getColUpper();
+  // Current bounds may come from fixing the integers: a cut is only valid outside if it doesn't use them.
+  const double * colLower = problem_->orig_x_l();
+  const double * colUpper = problem_->orig_x_u();
   const double * duals = getRowPrice() + 2 * n;
   //double infty = getInfinity();
   
@@ -2236,8 +2238,9 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
 
   const double rowLower = getRowLower()[rowIdx];
   const double rowUpper = getRowUpper()[rowIdx];
-  const double * colLower = getColLower();
-  const double * colUpper = getColUpper();
+  // Current bounds may come from fixing the integers: a cut is only valid outside if it doesn't use them.
+  const double * colLower = problem_->orig_x_l();
+  const double * colUpper = problem_->orig_x_u();
   const double dual = (getRowPrice() + 2 * getNumCols())[rowIdx];
   double infty = getInfinity();
   
-- 
2.43.0


From 493170d7cfcd3449ef42aa6716ec4a380e370bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:05 +0000
Subject: [PATCH 34/61] fix: an interrupted solve claimed optimality, used
 stale NLP results or looped forever

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp |  2 ++
 .../OaGenerators/BonOACutGenerator2.cpp       |  5 +++++
 .../OaGenerators/BonOaFeasChecker.cpp         |  5 +++++
 src/CbcBonmin/BonCbc.cpp                      | 19 +++++++++++++++----
 src/Interfaces/BonOsiTMINLPInterface.cpp      | 19 ++++++++++++++++---
 src/Interfaces/BonTMINLP2TNLP.hpp             |  5 +++++
 6 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index 58c99d7..8aef244 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -22,6 +22,7 @@
 
 #include <climits>
 
+extern bool BonminAbortAll;
 namespace Bonmin
 {
    static const char * txt_id = "FP for MINLP";
@@ -139,6 +140,7 @@ namespace Bonmin
          x_bar[i] = colsol[indices[i]];
       }
 
+      if (BonminAbortAll) break;
       double dist = nlp_->solveFeasibilityProblem(indices.size(), x_bar(), indices(), 1, 0, 2);
 
       handler_->message(FP_DISTANCE, messages_) 
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 8c4b5bd..2fbc784 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -22,6 +22,7 @@
 
 #include <climits>
 
+extern bool BonminAbortAll;
 namespace Bonmin
 {
    static const char * txt_id = "OA decomposition";
@@ -142,6 +143,10 @@ namespace Bonmin
       fixIntegers(*nlp_,branch_info, parameters_.cbcIntegerTolerance_,objects_, nObjects_);
 
       nlp_->resolve(txt_id);
+      if (BonminAbortAll) {//The NLP was not solved, drop the node
+        milpBound = 1e200;
+        break;
+      }
       if (post_nlp_solve(babInfo, cutoff)) {
         //nlp solved and feasible
         // Update the cutoff
diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index b1e6789..e478320 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -13,6 +13,7 @@
 #include "OsiAuxInfo.hpp"
 #include "BonSolverHelp.hpp"
 
+extern bool BonminAbortAll;
 namespace Bonmin
 {
    static const char * txt_id = "check integer sol.";
@@ -62,6 +63,10 @@ namespace Bonmin
 
       //Now solve the NLP get the cuts, and intall them in the local LP
       nlp_->resolve(txt_id);
+      if (BonminAbortAll) {//The NLP was not solved, drop the node
+        milpBound = 1e200;
+        break;
+      }
       if (post_nlp_solve(babInfo, cutoff)) {
         //nlp solved and feasible
         // Update the cutoff
diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 5ad1db7..b06e187 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -69,7 +69,7 @@ namespace Bonmin
   /** Constructor.*/
   Bab::Bab():
       bestSolution_(NULL),
-      mipStatus_(),
+      mipStatus_(NoSolutionKnown),
       bestObj_(1e200),
       bestBound_(-1e200),
       continuousRelaxation_(-COIN_DBL_MAX),
@@ -594,7 +594,6 @@ namespace Bonmin
     }
     TMINLP::SolverReturn status = TMINLP::MINLP_ERROR;
 
-    if(BonminAbortAll) status = TMINLP::USER_INTERRUPT;
     if (model_.numberObjects()==0) {
       if (bestSolution_)
         delete [] bestSolution_;
@@ -603,7 +602,13 @@ namespace Bonmin
              model_.solver() : s.nonlinearSolver();
       if(! solver->isProvenOptimal()){
          bestSolution_ = NULL;
-         if ( solver->isProvenPrimalInfeasible () ) {
+         if (BonminAbortAll) {
+           status = TMINLP::USER_INTERRUPT;
+           mipStatus_ = NoSolutionKnown;
+           bestObj_ = DBL_MAX;
+           bestBound_ = - DBL_MAX;
+         }
+         else if ( solver->isProvenPrimalInfeasible () ) {
            status = TMINLP::INFEASIBLE;
            mipStatus_ = ProvenInfeasible;
            bestObj_ = DBL_MAX;
@@ -648,7 +653,12 @@ namespace Bonmin
          bestSolution_ = new double[s.nonlinearSolver()->getNumCols()];
          CoinCopyN(model_.bestSolution(), s.nonlinearSolver()->getNumCols(), bestSolution_);
        }
-       if(remaining_time <= 0.){
+       if(BonminAbortAll){//Subproblems were dropped unsolved, nothing is proven
+         status = TMINLP::USER_INTERRUPT;
+         mipStatus_ = bestSolution_ ? Feasible : NoSolutionKnown;
+         bestBound_ = - DBL_MAX;
+       }
+       else if(remaining_time <= 0.){
          status = TMINLP::LIMIT_EXCEEDED;
          if (bestSolution_) {
            mipStatus_ = Feasible;
@@ -683,6 +693,7 @@ namespace Bonmin
     }
     else if (model_.status()==2) {
       status = TMINLP::MINLP_ERROR;
+      mipStatus_ = bestSolution_ ? Feasible : NoSolutionKnown;
     }
   }
   s.nonlinearSolver()->model()->finalize_solution(status,
diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 930d049..e754f51 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2655,7 +2655,12 @@ void
 OsiTMINLPInterface::solveAndCheckErrors(bool warmStarted, bool throwOnFailure,
     const char * whereFrom)
 {
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll == true) {
+    // Nothing is solved: do not let the result of a former solve pass for it
+    optimizationStatus_ = TNLPSolver::provenInfeasible;
+    problem_->set_optimization_status(Ipopt::USER_REQUESTED_STOP);
+    return;
+  }
   totalNlpSolveTime_-=CoinCpuTime();
   if(warmStarted)
     optimizationStatus_ = app_->ReOptimizeTNLP(GetRawPtr(problem_to_optimize_));
@@ -2828,7 +2833,11 @@ void OsiTMINLPInterface::initialSolve(const char * whereFrom)
   assert(IsValid(app_));
   assert(IsValid(problem_));
 
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll == true) {
+    optimizationStatus_ = TNLPSolver::provenInfeasible;
+    problem_->set_optimization_status(Ipopt::USER_REQUESTED_STOP);
+    return;
+  }
   // Discard warmstart_ if we had one
   delete warmstart_;
   warmstart_ = NULL;
@@ -2894,7 +2903,11 @@ OsiTMINLPInterface::resolve(const char * whereFrom)
 {
   assert(IsValid(app_));
   assert(IsValid(problem_));
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll == true) {
+    optimizationStatus_ = TNLPSolver::provenInfeasible;
+    problem_->set_optimization_status(Ipopt::USER_REQUESTED_STOP);
+    return;
+  }
   int has_warmstart = warmstart_ == NULL ? 0 : 1;
   if(warmstart_ == NULL) has_warmstart = 0;
   else if(!app_->warmStartIsValid(warmstart_)) has_warmstart = 1;
diff --git a/src/Interfaces/BonTMINLP2TNLP.hpp b/src/Interfaces/BonTMINLP2TNLP.hpp
index f158ad8..ca2f261 100644
--- a/src/Interfaces/BonTMINLP2TNLP.hpp
+++ b/src/Interfaces/BonTMINLP2TNLP.hpp
@@ -155,6 +155,11 @@ namespace Bonmin
     {
       return return_status_;
     }
+    /** set the solution status, to be used when no solver gets to report one.*/
+    void set_optimization_status(Ipopt::SolverReturn status)
+    {
+      return_status_ = status;
+    }
 
     /** Get the objective value */
     Ipopt::Number obj_value() const
-- 
2.43.0


From afb2d281a6225073f6bbc8b035d7b38942c64be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:03 +0000
Subject: [PATCH 35/61] fix: an exception during the search made Cbc delete its
 continuous solver twice

---
 src/CbcBonmin/BonCbc.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index b06e187..9662dd6 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -66,6 +66,17 @@ extern "C"
 namespace Bonmin
 {
 
+  /** Cbc exchanges its solver for the continuous one while checking a solution. If an exception is thrown
+      there it would delete that one twice. */
+  static void afterException(CbcModel &model)
+  {
+    if (model.solver() != NULL && model.solver() == model.continuousSolver()) {
+      OsiSolverInterface * solver = model.solver()->clone();
+      model.setModelOwnsSolver(false);
+      model.assignSolver(solver);
+    }
+  }
+
   /** Constructor.*/
   Bab::Bab():
       bestSolution_(NULL),
@@ -528,6 +539,7 @@ namespace Bonmin
     }
     }
     catch(TNLPSolver::UnsolvedError *E){
+      afterException(model_);
       s.nonlinearSolver()->model()->finalize_solution(TMINLP::MINLP_ERROR,
            0,
            NULL,
@@ -535,6 +547,10 @@ namespace Bonmin
       throw E;
    
     }
+    catch(...){
+      afterException(model_);
+      throw;
+    }
     numNodes_ = model_.getNodeCount();
     bestObj_ = model_.getObjValue();
     bestBound_ = model_.getBestPossibleObjValue();
-- 
2.43.0


From 21d4c5bde8837eab62a2b34862d41d462563a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:03 +0000
Subject: [PATCH 36/61] fix: heuristics ignored failed evaluations and returned
 uninitialized objective values

---
 src/CbcBonmin/Heuristics/BonHeuristicDive.cpp     | 15 ++++++++-------
 src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp  |  8 ++++----
 .../BonHeuristicDiveMIPVectorLength.cpp           |  2 +-
 .../Heuristics/BonHeuristicDiveVectorLength.cpp   |  2 +-
 src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp    |  4 ++--
 src/CbcBonmin/Heuristics/BonMilpRounding.cpp      |  4 ++--
 6 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
index 7863ecb..3ea9bf6 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDive.cpp
@@ -227,8 +227,8 @@ namespace Bonmin
       memcpy(newSolution,x_sol,numberColumns*sizeof(double));
 
       double newSolutionValue;
-      minlp->eval_f(numberColumns, newSolution, true, newSolutionValue); 
-      if(newSolutionValue >= solutionValue)
+      if(!minlp->eval_f(numberColumns, newSolution, true, newSolutionValue) ||
+	 newSolutionValue >= solutionValue)
 	break;
 
       numberFractionalVariables = 0;
@@ -255,9 +255,10 @@ namespace Bonmin
 	}
       }
     }
-    minlp->eval_g(numberColumns, newSolution, true,
-		  numberRows, new_g_sol);
-    for(int iRow=0; iRow<numberRows; iRow++) {
+    if(!minlp->eval_g(numberColumns, newSolution, true,
+		      numberRows, new_g_sol))
+      feasible = false;
+    for(int iRow=0; feasible && iRow<numberRows; iRow++) {
       if(new_g_sol[iRow]<g_l[iRow]-primalTolerance ||
 	 new_g_sol[iRow]>g_u[iRow]+primalTolerance) {
 	if(minlp->optimization_status() != Ipopt::SUCCESS) {
@@ -279,8 +280,8 @@ namespace Bonmin
 
     if(feasible) {
       double newSolutionValue;
-      minlp->eval_f(numberColumns, newSolution, true, newSolutionValue); 
-      if(newSolutionValue < solutionValue) {
+      if(minlp->eval_f(numberColumns, newSolution, true, newSolutionValue) &&
+	 newSolutionValue < solutionValue) {
 	memcpy(betterSolution,newSolution,numberColumns*sizeof(double));
 	solutionValue = newSolutionValue;
 	returnCode = 1;
diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
index 531b500..10dea04 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
@@ -294,7 +294,7 @@ namespace Bonmin
 	  numberIntegerLinearColumns++;
       }
 
-      double* gradient_f = new double[numberColumns];
+      double* gradient_f = new double[numberColumns]();
       minlp->eval_grad_f(numberColumns,newSolution,true,gradient_f);
       // create row lower and upper bounds for MILP
       minlp->eval_g(numberColumns, newSolution, true,
@@ -316,7 +316,7 @@ namespace Bonmin
       }
 
       // get the jacobian so that we know the coefficients of the MILP matrix
-      double* jac_g = new double [nnz_jac_g];
+      double* jac_g = new double [nnz_jac_g]();
       minlp->eval_jac_g(numberColumns, x_sol, false,
 			numberRows, nnz_jac_g,
 			0, 0, jac_g);
@@ -463,8 +463,8 @@ namespace Bonmin
 
     if(feasible) {
       double newSolutionValue;
-      minlp->eval_f(numberColumns, newSolution, true, newSolutionValue); 
-      if(newSolutionValue < solutionValue) {
+      if(minlp->eval_f(numberColumns, newSolution, true, newSolutionValue) &&
+	 newSolutionValue < solutionValue) {
 	memcpy(betterSolution,newSolution,numberColumns*sizeof(double));
 	solutionValue = newSolutionValue;
 	returnCode = 1;
diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIPVectorLength.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIPVectorLength.cpp
index e7da326..63a4b6d 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIPVectorLength.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIPVectorLength.cpp
@@ -112,7 +112,7 @@ namespace Bonmin
     minlp->get_nlp_info(numberColumns, numberRows, nnz_jac_g,
 			nnz_h_lag, index_style);
 
-    double* gradient_f = new double[numberColumns];
+    double* gradient_f = new double[numberColumns]();
 
     double bestScore = COIN_DBL_MAX;
     bestColumn = -1;
diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveVectorLength.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveVectorLength.cpp
index 13b8a30..19df446 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveVectorLength.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveVectorLength.cpp
@@ -110,7 +110,7 @@ namespace Bonmin
     minlp->get_nlp_info(numberColumns, numberRows, nnz_jac_g,
 			nnz_h_lag, index_style);
 
-    double* gradient_f = new double[numberColumns];
+    double* gradient_f = new double[numberColumns]();
 
     double bestScore = COIN_DBL_MAX;
     bestColumn = -1;
diff --git a/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp b/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp
index 64e731b..378330b 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicFPump.cpp
@@ -376,8 +376,8 @@ namespace Bonmin
 
     if(feasible) {
       double newSolutionValue;
-      minlp->eval_f(numberColumns, newSolution, true, newSolutionValue);
-      if(newSolutionValue < solutionValue) {
+      if(minlp->eval_f(numberColumns, newSolution, true, newSolutionValue) &&
+	 newSolutionValue < solutionValue) {
 	memcpy(betterSolution,newSolution,numberColumns*sizeof(double));
 	solutionValue = newSolutionValue;
 	returnCode = 1;
diff --git a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
index c0d9ef3..434b0fa 100644
--- a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
+++ b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
@@ -333,8 +333,8 @@ namespace Bonmin
     }
     if(feasible) {
       double newSolutionValue;
-      minlp->eval_f(n, newSolution(), true, newSolutionValue); 
-      if(newSolutionValue < solutionValue) {
+      if(minlp->eval_f(n, newSolution(), true, newSolutionValue) &&
+	 newSolutionValue < solutionValue) {
         std::copy(newSolution.begin(), newSolution.end(), betterSolution);
 	solutionValue = newSolutionValue;
 	returnCode = 1;
-- 
2.43.0


From 9e14179597c6d2a88917368a6fe5c1c29399745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:03 +0000
Subject: [PATCH 37/61] fix: cuts, relaxations and solutions were built from
 functions whose evaluation had failed

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 50 ++++++++++++++----------
 src/Interfaces/BonTMINLP2TNLP.cpp        |  5 ++-
 src/Interfaces/BonTNLPSolver.cpp         | 22 +++++++++--
 src/Interfaces/Ipopt/BonIpoptSolver.cpp  |  4 ++
 4 files changed, 54 insertions(+), 27 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index e754f51..07a745d 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -45,6 +45,15 @@ using namespace Ipopt;
 
 extern bool BonminAbortAll;
 namespace Bonmin {
+
+/** Cuts and relaxations can not be built from a function which could not be evaluated.*/
+static void
+checkEval(bool evaluated, const char * function)
+{
+  if(!evaluated)
+    throw CoinError("Failed to evaluate a function of the problem", function, "OsiTMINLPInterface");
+}
+
 ///Register options
 static void
 register_general_options
@@ -1840,8 +1849,8 @@ OsiTMINLPInterface::getConstraintsViolation(const double *x, double &obj)
 {
   int numcols = getNumCols();
   int numrows = getNumRows();
-  double * g = new double[numrows];
-  tminlp_->eval_g(numcols, x, 1, numrows, g);
+  vector<double> g(numrows);
+  checkEval(tminlp_->eval_g(numcols, x, 1, numrows, g()), "eval_g");
   const double * rowLower = getRowLower();
   const double * rowUpper = getRowUpper();
 
@@ -1859,8 +1868,7 @@ OsiTMINLPInterface::getConstraintsViolation(const double *x, double &obj)
       norm = rowViolation > norm ? rowViolation : norm;
     }
   }
-  tminlp_->eval_f(numcols, x, 1, obj);
-  delete [] g;
+  checkEval(tminlp_->eval_f(numcols, x, 1, obj), "eval_f");
   return norm;
 }
 
@@ -1936,8 +1944,8 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
   assert(jRow_ != NULL);
   assert(jCol_ != NULL);
   vector<double> g(m);
-  problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_);
-  problem_to_optimize_->eval_g(n,x,1,m,g());
+  checkEval(problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_), "eval_jac_g");
+  checkEval(problem_to_optimize_->eval_g(n,x,1,m,g()), "eval_g");
   //As jacobian is stored by cols fill OsiCuts with cuts
   vector<CoinPackedVector>  cuts(nNonLinear_ + 1);
   vector<double> lb(nNonLinear_ + 1);
@@ -2056,9 +2064,9 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
 
   if(getObj == 2 || (getObj && !problem_->hasLinearObjective())) { // Get the objective cuts
     vector<double> obj(n);
-    problem_to_optimize_->eval_grad_f(n, x, 1,obj());
+    checkEval(problem_to_optimize_->eval_grad_f(n, x, 1,obj()), "eval_grad_f");
     double f;
-    problem_to_optimize_->eval_f(n, x, 1, f);
+    checkEval(problem_to_optimize_->eval_f(n, x, 1, f), "eval_f");
 
     CoinPackedVector v;
     v.reserve(n);
@@ -2123,8 +2131,8 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
   assert(jCol_ != NULL);
   vector<double> g(m);
   const double * x = getColSolution();
-  problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_);
-  problem_to_optimize_->eval_g(n,x,1,m,g());
+  checkEval(problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_), "eval_jac_g");
+  checkEval(problem_to_optimize_->eval_g(n,x,1,m,g()), "eval_g");
   //As jacobian is stored by cols fill OsiCuts with cuts
   vector<double> cut(n+1,0.);
   vector<bool> keep(m+1,false);
@@ -2177,9 +2185,9 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
   if(!problem_->hasLinearObjective() && 
      isProvenOptimal()) { // Get the objective cuts
     vector<double> obj(n);
-    problem_to_optimize_->eval_grad_f(n, x, 1,obj());
+    checkEval(problem_to_optimize_->eval_grad_f(n, x, 1,obj()), "eval_grad_f");
     double f;
-    problem_to_optimize_->eval_f(n, x, 1, f);
+    checkEval(problem_to_optimize_->eval_f(n, x, 1, f), "eval_f");
 
     ub -= f;
     //double minCoeff = 1e50;
@@ -2220,9 +2228,9 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
   double * values = new double[getNumCols()];
   int nnz;
   // The sparsity structure and the values have to be asked for separately.
-  problem_->eval_grad_gi(getNumCols(), NULL, 0, rowIdx, nnz, indices, NULL);
-  problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, NULL, values);
-  problem_->eval_gi(getNumCols(),x,0, rowIdx, g);
+  checkEval(problem_->eval_grad_gi(getNumCols(), NULL, 0, rowIdx, nnz, indices, NULL), "eval_grad_gi");
+  checkEval(problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, NULL, values), "eval_grad_gi");
+  checkEval(problem_->eval_gi(getNumCols(),x,0, rowIdx, g), "eval_gi");
   {
     int n, m, nnz_jac_g, nnz_h_lag;
     TNLP::IndexStyleEnum index_style;
@@ -2413,11 +2421,11 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
     initializeJacobianArrays();
 
   //get Jacobian
-  problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_);
+  checkEval(problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_), "eval_jac_g");
 
 
   vector<double> g(m);
-  problem_to_optimize_->eval_g(n, x, 1, m, g());
+  checkEval(problem_to_optimize_->eval_g(n, x, 1, m, g()), "eval_g");
 
   vector<double> rowLow(m);
   vector<double> rowUp(m);
@@ -2565,10 +2573,10 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
      if(problem_->hasLinearObjective()){
        double zero;
        vector<double> x0(n,0.);
-       problem_to_optimize_->eval_f(n, x0(), 1, zero);
+       checkEval(problem_to_optimize_->eval_f(n, x0(), 1, zero), "eval_f");
        si.setDblParam(OsiObjOffset, -zero);
        //Copy the linear objective and don't create a dummy variable.
-       problem_to_optimize_->eval_grad_f(n, x, 1,obj());
+       checkEval(problem_to_optimize_->eval_grad_f(n, x, 1,obj()), "eval_grad_f");
        si.setObjective(obj());
     }
     else {
@@ -2591,7 +2599,7 @@ OsiTMINLPInterface::addObjectiveFunction(OsiSolverInterface &si,
   int numcols = getNumCols();
   assert(numcols == si.getNumCols() );
   vector<double> obj(numcols);
-  problem_to_optimize_->eval_grad_f(numcols, x, 1,obj());
+  checkEval(problem_to_optimize_->eval_grad_f(numcols, x, 1,obj()), "eval_grad_f");
   //add variable alpha
   //(alpha should be empty in the matrix with a coefficient of -1 and unbounded)
   CoinPackedVector a;
@@ -2600,7 +2608,7 @@ OsiTMINLPInterface::addObjectiveFunction(OsiSolverInterface &si,
   // Now get the objective cuts
   // get the gradient, pack it and add the cut
   double ub;
-  problem_to_optimize_->eval_f(numcols, x, 1, ub);
+  checkEval(problem_to_optimize_->eval_f(numcols, x, 1, ub), "eval_f");
   ub*=-1;
   double lb = -1e300;
   CoinPackedVector objCut;
diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index aed3ea3..b1dff82 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -686,8 +686,9 @@ namespace Bonmin
         }
       }
     }
-    eval_g((int)x_sol_.size(), x_sol_(), true, (int)g_sol_.size(), g_sol_());
-    eval_f((int)x_sol_.size(), x_sol_(), false, obj_value_);
+    if(!eval_g((int)x_sol_.size(), x_sol_(), true, (int)g_sol_.size(), g_sol_()) ||
+       !eval_f((int)x_sol_.size(), x_sol_(), false, obj_value_))
+      return DBL_MAX;
     double error = 0;
     for(unsigned int i = 0 ; i < g_sol_.size() ; i++){
       error = std::max(error, std::max(0., g_l_[i] - g_sol_[i]));
diff --git a/src/Interfaces/BonTNLPSolver.cpp b/src/Interfaces/BonTNLPSolver.cpp
index d070ee5..1e506c0 100644
--- a/src/Interfaces/BonTNLPSolver.cpp
+++ b/src/Interfaces/BonTNLPSolver.cpp
@@ -105,9 +105,9 @@ namespace Bonmin{
 
     //Problem has no variables just check if the unique solution given by the bounds is
     // feasible or not.
-    double obj_value;
+    double obj_value = 0.;
 
-    tnlp->eval_f(n, x_l, true, obj_value);
+    bool evaluated = tnlp->eval_f(n, x_l, true, obj_value);
 
     double * x_sol = new double[n];
 
@@ -118,8 +118,22 @@ namespace Bonmin{
     delete [] x_u;
 
     double * g_sol = (m > 0) ? new double [m] : NULL;
-
-    tnlp->eval_g(n, x_sol, true, m, g_sol);
+    CoinFillN(g_sol,m,0.);
+
+    if(!tnlp->eval_g(n, x_sol, true, m, g_sol))
+      evaluated = false;
+
+    if(!evaluated) {
+      optimizationStatus = computationError;
+      tnlp->finalize_solution(Ipopt::INVALID_NUMBER_DETECTED,
+                              n, x_sol, NULL, NULL,
+                              m, g_sol, NULL, obj_value, NULL, NULL);
+      if (m > 0) delete [] g_l;
+      if (m > 0) delete [] g_u;
+      if (m > 0) delete [] g_sol;
+      delete [] x_sol;
+      return 1;
+    }
     
     optimizationStatus = solvedOptimal;
     for(int i = 0 ; i < m ; i++) {
diff --git a/src/Interfaces/Ipopt/BonIpoptSolver.cpp b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
index 235e6b3..e790a39 100644
--- a/src/Interfaces/Ipopt/BonIpoptSolver.cpp
+++ b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
@@ -167,6 +167,8 @@ namespace Bonmin
         optimizationStatus_ = Ipopt::Solve_Succeeded;
       else if (ret_status == provenInfeasible)
         optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
+      else
+        optimizationStatus_ = Ipopt::Invalid_Number_Detected;
     }
 
     if (BonminAbortAll)
@@ -213,6 +215,8 @@ namespace Bonmin
         optimizationStatus_ = Ipopt::Solve_Succeeded;
       else if (ret_status == provenInfeasible)
         optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
+      else
+        optimizationStatus_ = Ipopt::Invalid_Number_Detected;
     }
     if (BonminAbortAll)
       optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
-- 
2.43.0


From b2ed2abbc99e3f6037e6a33e7feedc01d81e603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 38/61] fix: copies of the interface lost the solver status and
 assignment lost the bounds

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 69 ++++++++++++------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 07a745d..1b0c9c8 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -425,6 +425,7 @@ OsiTMINLPInterface::OsiTMINLPInterface():
     veryTiny_(1e-20),
     rhsRelax_(tiny_),
     infty_(1e100),
+    optimizationStatus_(TNLPSolver::doesNotConverge),
     warmStartMode_(None),
     firstSolve_(true),
     cutStrengthener_(NULL),
@@ -589,6 +590,7 @@ OsiTMINLPInterface::OsiTMINLPInterface (const OsiTMINLPInterface &source):
     veryTiny_(source.veryTiny_),
     rhsRelax_(source.rhsRelax_),
     infty_(source.infty_),
+    optimizationStatus_(source.optimizationStatus_),
     warmStartMode_(source.warmStartMode_),
     firstSolve_(true),
     cutStrengthener_(source.cutStrengthener_),
@@ -649,7 +651,7 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
     OsiSolverInterface::operator=(rhs);
     OsiDualObjectiveLimit_ = rhs.OsiDualObjectiveLimit_;
     nCallOptimizeTNLP_ = rhs.nCallOptimizeTNLP_;
-    totalNlpSolveTime_ = rhs.nCallOptimizeTNLP_;
+    totalNlpSolveTime_ = rhs.totalNlpSolveTime_;
     totalIterations_ = rhs.totalIterations_;
     maxRandomRadius_ = rhs.maxRandomRadius_;
     hasVarNamesFile_ = rhs.hasVarNamesFile_;
@@ -661,47 +663,36 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
     if(IsValid(rhs.tminlp_)) {
 
       tminlp_ = rhs.tminlp_;
-      problem_ = new TMINLP2TNLP(tminlp_);
-      problem_to_optimize_ = GetRawPtr(problem_);
+      problem_ = rhs.problem_->clone();
+      feasibilityProblem_ = new TNLP2FPNLP
+          (SmartPtr<TNLP>(GetRawPtr(problem_)), rhs.feasibilityProblem_);
+      feasibility_mode_ = rhs.feasibility_mode_;
+      if(feasibility_mode_)
+        problem_to_optimize_ = GetRawPtr(feasibilityProblem_);
+      else
+        problem_to_optimize_ = GetRawPtr(problem_);
       app_ = rhs.app_->clone();
+      debug_apps_.clear();
+      for(std::list<Ipopt::SmartPtr<TNLPSolver> >::const_iterator i = rhs.debug_apps_.begin();
+          i != rhs.debug_apps_.end() ; i++){
+        debug_apps_.push_back((*i)->clone());
+      }
+      testOthers_ = rhs.testOthers_;
 
       warmstart_ = rhs.warmstart_ ? rhs.warmstart_->clone() : NULL;
 
-      feasibilityProblem_ = new TNLP2FPNLP
-          (SmartPtr<TNLP>(GetRawPtr(problem_)));
+      // The Jacobian arrays are built again when they are needed
       nnz_jac = rhs.nnz_jac;
+      nNonLinear_ = 0;
+      delete [] jRow_;
+      delete [] jCol_;
+      delete [] jValues_;
+      delete [] constTypes_;
+      jRow_ = NULL;
+      jCol_ = NULL;
+      jValues_ = NULL;
+      constTypes_ = NULL;
 
-      if(constTypes_ != NULL) {
-        delete [] constTypes_;
-        constTypes_ = NULL;
-      }
-      if(rhs.constTypes_ != NULL) {
-        constTypes_ = new TNLP::LinearityType[getNumRows()];
-        CoinCopyN(rhs.constTypes_, getNumRows(), constTypes_);
-      }
-/*
-      if(constTypesNum_ != NULL) {
-        delete [] constTypesNum_;
-        constTypesNum_ = NULL;
-      }
-      if(rhs.constTypesNum_ != NULL) {
-        constTypesNum_ = new int[getNumRows()];
-        CoinCopyN(rhs.constTypesNum_, getNumRows(), constTypesNum_);
-      }
-*/
-      if(rhs.jValues_!=NULL && rhs.jRow_ != NULL && rhs.jCol_ != NULL && nnz_jac>0) {
-        jValues_ = new double [nnz_jac];
-        jCol_    = new Index [nnz_jac];
-        jRow_    = new Index [nnz_jac];
-        CoinCopyN(rhs.jValues_ , nnz_jac,jValues_ );
-        CoinCopyN(rhs.jCol_    , nnz_jac,jCol_    );
-        CoinCopyN(rhs.jRow_    , nnz_jac,jRow_    );
-      }
-      else if(nnz_jac > 0) {
-        throw CoinError("Arrays for storing jacobian are inconsistent.",
-            "copy constructor",
-            "IpoptOAInterface");
-      }
       tiny_ = rhs.tiny_;
       veryTiny_ = rhs.veryTiny_;
       rhsRelax_ = rhs.rhsRelax_;
@@ -713,6 +704,7 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
     else {
       tminlp_ =NULL;
       problem_ = NULL;
+      problem_to_optimize_ = NULL;
       app_ = NULL;
       feasibilityProblem_ = NULL;
     }
@@ -741,9 +733,14 @@ OsiTMINLPInterface & OsiTMINLPInterface::operator=(const OsiTMINLPInterface& rhs
     infeasibility_epsilon_ = rhs.infeasibility_epsilon_;
     pretendFailIsInfeasible_ = rhs.pretendFailIsInfeasible_;
     pretendSucceededNext_ = rhs.pretendSucceededNext_;
+    hasContinuedAfterNlpFailure_ = rhs.hasContinuedAfterNlpFailure_;
     numIterationSuspect_ = rhs.numIterationSuspect_;
+    randomGenerationType_ = rhs.randomGenerationType_;
+    max_perturbation_ = rhs.max_perturbation_;
 
     hasBeenOptimized_ = rhs.hasBeenOptimized_;
+    optimizationStatus_ = rhs.optimizationStatus_;
+    firstSolve_ = true;
     cutStrengthener_ = rhs.cutStrengthener_;
 
     delete oaHandler_;
-- 
2.43.0


From 00e59eb28eb6f146189af64d178b0b97fa76afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 39/61] fix: setting an empty warm start or asking for a basis
 before solving crashed

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 1b0c9c8..bd61503 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1484,7 +1484,10 @@ OsiTMINLPInterface::build_fake_basis() const{
      if(lb[i] > ub[i] - EPSILON){
         r_val->setArtifStatus(i, CoinWarmStartBasis::isFree); 
      }
-     if(act[i] > ub[i] - EPSILON){
+     if(act == NULL){//Nothing has been solved yet
+        r_val->setArtifStatus(i, CoinWarmStartBasis::basic); 
+     }
+     else if(act[i] > ub[i] - EPSILON){
         r_val->setArtifStatus(i, CoinWarmStartBasis::atLowerBound); 
      }
      else if(act[i] < lb[i] + EPSILON){
@@ -1528,6 +1531,10 @@ OsiTMINLPInterface::internal_setWarmStart(const CoinWarmStart* ws)
   // derive from
   const CoinWarmStartPrimalDual* pdws =
     dynamic_cast<const CoinWarmStartPrimalDual*>(ws);
+  if (pdws && pdws->primalSize() == 0) {
+    // An empty one, the next solve starts from scratch.
+    return true;
+  }
   if (pdws) {
     // Must be an IpoptWarmStart, since the others do not derive from this.
     // Accept it.
-- 
2.43.0


From 32abc96d33f1aa0f4f4923614ad20109d3450535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:23 +0000
Subject: [PATCH 40/61] fix: repeated solves for cost left activities and
 status of another point

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 7 +++++++
 src/Interfaces/BonTMINLP2TNLP.cpp        | 7 +++++++
 src/Interfaces/BonTMINLP2TNLP.hpp        | 3 +++
 3 files changed, 17 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index bd61503..cb04948 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -867,7 +867,10 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
   CoinCopyN(getRowPrice(),
       2*getNumCols()+ getNumRows(),
       point() + getNumCols());
+  vector<double> activity(getNumRows());
+  CoinCopyN(getRowActivity(), getNumRows(), activity());
   TNLPSolver::ReturnStatus savedStatus = optimizationStatus_;
+  Ipopt::SolverReturn savedReturn = problem_->optimization_status();
   if(isProvenOptimal())
     messageHandler()->message(SOLUTION_FOUND,
         messages_)
@@ -902,8 +905,10 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
       CoinCopyN(getRowPrice(),
           2*getNumCols()+ getNumRows(),
           point() + getNumCols());
+      CoinCopyN(getRowActivity(), getNumRows(), activity());
       bestBound = getObjValue();
       savedStatus = optimizationStatus_;
+      savedReturn = problem_->optimization_status();
     }
 
     messageHandler()->message(LOG_LINE, messages_)
@@ -982,7 +987,9 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
 
   problem_->Set_x_sol(getNumCols(),point());
   problem_->Set_dual_sol((int) point.size()-getNumCols(), point() + getNumCols());
+  problem_->Set_g_sol(getNumRows(), activity());
   problem_->set_obj_value(bestBound);
+  problem_->set_optimization_status(savedReturn);
   optimizationStatus_ = savedStatus;
   hasBeenOptimized_ = true;
 
diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index b1dff82..a8d21b8 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -314,6 +314,13 @@ namespace Bonmin
     IpBlasDcopy(n, x_sol, 1, x_sol_(), 1);
   }
 
+  /** set the activities of the constraints at x solution */
+  void TMINLP2TNLP::Set_g_sol(Index m, const Number* g_sol)
+  {
+    assert(m == num_constraints());
+    g_sol_.assign(g_sol, g_sol + m);
+  }
+
   /** Set the contiuous dual solution */
   void TMINLP2TNLP::Set_dual_sol(Index n, const Number* dual_sol)
   {
diff --git a/src/Interfaces/BonTMINLP2TNLP.hpp b/src/Interfaces/BonTMINLP2TNLP.hpp
index ca2f261..9e1c03c 100644
--- a/src/Interfaces/BonTMINLP2TNLP.hpp
+++ b/src/Interfaces/BonTMINLP2TNLP.hpp
@@ -220,6 +220,9 @@ namespace Bonmin
     /** Set the contiuous dual solution */
     void Set_dual_sol(Ipopt::Index n, const Ipopt::Number* dual_sol);
 
+    /** set the activities of the constraints at x solution */
+    void Set_g_sol(Ipopt::Index m, const Ipopt::Number* g_sol);
+
     /** Change the type of the variable */
     void SetVariableType(Ipopt::Index n, TMINLP::VariableType type);
     //@}
-- 
2.43.0


From cfd372f2d7c556dc614f8d9e58c39885ce1a5ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:21 +0000
Subject: [PATCH 41/61] fix: the interruption of one solve aborted all later
 ones of the process

---
 src/CbcBonmin/BonCbc.cpp | 46 +++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 9662dd6..05cdbb9 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -77,6 +77,42 @@ namespace Bonmin
     }
   }
 
+  /** Handles the interruption of one branch-and-bound, everything is as before when it is over.*/
+  class InterruptionHandling
+  {
+  public:
+    InterruptionHandling(CbcModel &model):
+        outerModel_(currentBranchModel)
+    {
+#ifdef SIGNAL
+      savedHandler_ = signal(SIGINT,signal_handler);
+#endif
+      currentBranchModel = &model;
+    }
+    ~InterruptionHandling()
+    {
+      currentBranchModel = outerModel_;
+#ifdef SIGNAL
+      signal(SIGINT,savedHandler_);
+#endif
+      if (outerModel_ == NULL) {
+        BonminAbortAll = false;
+#ifdef SIGNAL
+        BonminInteruptedOnce = false;
+#endif
+      }
+      else if (BonminAbortAll) {
+        outerModel_->sayEventHappened();
+      }
+    }
+  private:
+    /** Branch-and-bound in which this one is run, if any.*/
+    CbcModel * outerModel_;
+#ifdef SIGNAL
+    CoinSighandler_t savedHandler_;
+#endif
+  };
+
   /** Constructor.*/
   Bab::Bab():
       bestSolution_(NULL),
@@ -443,14 +479,8 @@ namespace Bonmin
       }
     }
 
-#ifdef SIGNAL
-    //CoinSighandler_t saveSignal=SIG_DFL;
-    // register signal handler  FIXME restore original signal handler when finished
-    /*saveSignal =*/ signal(SIGINT,signal_handler);
-#endif
-
-    currentBranchModel = &model_;
-
+    // register signal handler
+    InterruptionHandling interruption(model_);
 
     try {
     //Get the time and start.
-- 
2.43.0


From 655a889bab4bdcf7e5a0009d0514d46a3ea1aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:27 +0000
Subject: [PATCH 42/61] fix: vector length diving used uninitialized counts for
 variables in no constraint

---
 .../Heuristics/BonHeuristicDiveMIPVectorLength.cpp    | 11 ++---------
 .../Heuristics/BonHeuristicDiveVectorLength.cpp       | 11 ++---------
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIPVectorLength.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIPVectorLength.cpp
index 63a4b6d..871da62 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIPVectorLength.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIPVectorLength.cpp
@@ -76,18 +76,11 @@ namespace Bonmin
     minlp->eval_jac_g(numberColumns, x_sol, false,
 		      numberRows, nnz_jac_g,
 		      indexRow, indexCol, 0);
-    columnLength_ = new int[numberColumns];
+    columnLength_ = new int[numberColumns]();
     int indexCorrection = (index_style == Ipopt::TNLP::C_STYLE) ? 0 : 1;
-    int iniCol = -1;
     for(int i=0; i<nnz_jac_g; i++) {
       int thisIndexCol = indexCol[i]-indexCorrection;
-      if(indexCol[i] != iniCol) {
-	iniCol = indexCol[i];
-	columnLength_[thisIndexCol] = 1;
-      }
-      else {
-	columnLength_[thisIndexCol]++;
-      }
+      columnLength_[thisIndexCol]++;
     }
     
   }
diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveVectorLength.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveVectorLength.cpp
index 19df446..ff0d625 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveVectorLength.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveVectorLength.cpp
@@ -74,18 +74,11 @@ namespace Bonmin
     minlp->eval_jac_g(numberColumns, x_sol, false,
 		      numberRows, nnz_jac_g,
 		      indexRow, indexCol, 0);
-    columnLength_ = new int[numberColumns];
+    columnLength_ = new int[numberColumns]();
     int indexCorrection = (index_style == Ipopt::TNLP::C_STYLE) ? 0 : 1;
-    int iniCol = -1;
     for(int i=0; i<nnz_jac_g; i++) {
       int thisIndexCol = indexCol[i]-indexCorrection;
-      if(indexCol[i] != iniCol) {
-	iniCol = indexCol[i];
-	columnLength_[thisIndexCol] = 1;
-      }
-      else {
-	columnLength_[thisIndexCol]++;
-      }
+      columnLength_[thisIndexCol]++;
     }
     
   }
-- 
2.43.0


From a4d2f66c54db2b41a3138385b7ab636e1cc886fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:27 +0000
Subject: [PATCH 43/61] fix: a Bab object used again kept the solution and
 model of its previous run

---
 src/CbcBonmin/BonCbc.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 05cdbb9..f44ba90 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -25,6 +25,7 @@
 #include "BonGuessHeuristic.hpp"
 
 #include "BonDiver.hpp"
+#include <new>
 #include "BonLinearCutsGenerator.hpp"
 #include "BonTMINLPLinObj.hpp"
 // sets cutoff a bit above real one, to avoid single-point feasible sets
@@ -153,6 +154,19 @@ namespace Bonmin
   {
 
     double remaining_time = s.getDoubleParameter(BabSetupBase::MaxTime) + CoinCpuTime();
+    if (modelHandler_ != NULL) {//Already used, nothing of the previous run may remain
+      delete [] bestSolution_;
+      bestSolution_ = NULL;
+      mipStatus_ = NoSolutionKnown;
+      bestObj_ = 1e200;
+      bestBound_ = -1e200;
+      continuousRelaxation_ = -COIN_DBL_MAX;
+      numNodes_ = 0;
+      mipIterationCount_ = 0;
+      // (assigning a new one would make Cbc use the strategy it has just deleted)
+      model_.~CbcModel();
+      new (&model_) CbcModel();
+    }
     /* Put a link to this into solver.*/
     OsiBabSolver *  babInfo = dynamic_cast<OsiBabSolver *>(s.continuousSolver()->getAuxiliaryInfo());
     assert(babInfo);
-- 
2.43.0


From 402272b7be7fd0faf14a12610f179894c2f4f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:31 +0000
Subject: [PATCH 44/61] fix: NLPs with as many equations as free variables were
 not optimized

---
 src/Interfaces/Ipopt/BonIpoptSolver.cpp | 49 +++++++++++++++++++------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/Interfaces/Ipopt/BonIpoptSolver.cpp b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
index e790a39..5309969 100644
--- a/src/Interfaces/Ipopt/BonIpoptSolver.cpp
+++ b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
@@ -131,6 +131,41 @@ namespace Bonmin
     return true;
   }
 
+  /** Say if fixing variables has left as many free variables as there are equations.*/
+  static bool
+  squareByFixing(const Ipopt::SmartPtr<Ipopt::TNLP> &tnlp)
+  {
+    int n,m,dum1,dum2;
+    Ipopt::TNLP::IndexStyleEnum index_style;
+    tnlp->get_nlp_info(n,m,dum1,dum2,index_style);
+    vector<double> x_l(n), x_u(n), g_l(m), g_u(m);
+    tnlp->get_bounds_info(n, x_l(), x_u(), m, g_l(), g_u());
+    int numberFree = 0;
+    int numberEquations = 0;
+    for (int i = 0 ; i < n ; i++)
+      if (x_l[i] < x_u[i]) numberFree++;
+    for (int i = 0 ; i < m ; i++)
+      if (g_l[i] == g_u[i]) numberEquations++;
+    return numberFree < n && numberFree == numberEquations;
+  }
+
+  /** Call Ipopt. It does not look at the objective of problems with as many variables as equations, but the
+      equations may only involve the fixed variables. Therefore these are not removed then.*/
+  static Ipopt::ApplicationReturnStatus
+  callIpopt(Ipopt::IpoptApplication &app, const Ipopt::SmartPtr<Ipopt::TNLP> &tnlp, bool again)
+  {
+    const char * option = "fixed_variable_treatment";
+    std::string treatment;
+    app.Options()->GetStringValue(option, treatment, "");
+    bool keepFixed = treatment == "make_parameter" && squareByFixing(tnlp);
+    if (keepFixed)
+      app.Options()->SetStringValue(option, "relax_bounds", true, true);
+    Ipopt::ApplicationReturnStatus status = again ? app.ReOptimizeTNLP(tnlp) : app.OptimizeTNLP(tnlp);
+    if (keepFixed)
+      app.Options()->SetStringValue(option, treatment, true, true);
+    return status;
+  }
+
   TNLPSolver::ReturnStatus
   IpoptSolver::OptimizeTNLP(const Ipopt::SmartPtr<Ipopt::TNLP> &tnlp)
   {
@@ -152,12 +187,7 @@ namespace Bonmin
                                   true, true);
       }
 #endif
-      if (enable_warm_start_ && optimized_before_) {
-        optimizationStatus_ = app_->ReOptimizeTNLP(tnlp);
-      }
-      else {
-        optimizationStatus_ = app_->OptimizeTNLP(tnlp);
-      }
+      optimizationStatus_ = callIpopt(*app_, tnlp, enable_warm_start_ && optimized_before_);
       optimized_before_ = true;
       problemHadZeroDimension_ = false;
     }
@@ -200,12 +230,7 @@ namespace Bonmin
                                   true, true);
       }
 #endif
-      if (optimized_before_) {
-        optimizationStatus_ = app_->ReOptimizeTNLP(tnlp);
-      }
-      else {
-        optimizationStatus_ = app_->OptimizeTNLP(tnlp);
-      }
+      optimizationStatus_ = callIpopt(*app_, tnlp, optimized_before_);
       problemHadZeroDimension_ = false;
       optimized_before_ = true;
     }
-- 
2.43.0


From 5357ee8fb3c15069960d881e9726dfad394c8b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:10 +0000
Subject: [PATCH 45/61] fix: user given pseudo costs crashed because objective
 coefficients were asked for before any solve

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index cb04948..0d2856e 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -3182,6 +3182,8 @@ const double * OsiTMINLPInterface::getObjCoefficients() const
 
   bool new_x = true;
   const double* x_sol = problem_->x_sol();
+  if (x_sol == NULL) // nothing has been solved yet
+    x_sol = problem_->x_init_user();
   bool retval = problem_->eval_grad_f(n, x_sol, new_x, obj_);
   
   if (!retval) {
-- 
2.43.0


From 10c623ad0c763d1092777691b0d4854a71723b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:10 +0000
Subject: [PATCH 46/61] fix: branching priorities and directions given by the
 user were not honoured

---
 src/Algorithms/BonBabSetupBase.cpp             | 3 ++-
 src/Algorithms/Branching/BonChooseVariable.cpp | 6 ++++++
 src/Algorithms/Branching/BonRandomChoice.cpp   | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 391480e..8adcf06 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -799,7 +799,8 @@ namespace Bonmin
           throw CoinError("BabSetupBase","setPriorities",
               "Don't know how to set preferred way for object.");
         }
-        object->setPreferredWay(directions[iCol]);
+        // Osi counts 0 for down, 1 for up and -1 for no preference
+        object->setPreferredWay(directions[iCol] > 0 ? 1 : (directions[iCol] < 0 ? 0 : -1));
       }
       if (upPsCosts) {
         throw CoinError("BabSetupBase","setPriorities",
diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 2639501..beae7f6 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -627,6 +627,9 @@ namespace Bonmin
       double bestTrusted=-COIN_DBL_MAX;
       for (int i=0;i<numberLeft;i++) {
         int iObject = list_[i];
+        // Those with a worse priority have to wait.
+        if (solver->object(iObject)->priority() > solver->object(list_[0])->priority())
+          continue;
         if (numberBeforeTrusted == 0||
             i < minNumberStrongBranch_ ||
             (
@@ -647,6 +650,9 @@ namespace Bonmin
           if (value > bestTrusted) {
             bestObjectIndex_=iObject;
             bestWhichWay_ = upEstimate>downEstimate ? 0 : 1;
+            // but override if there is a preferred way
+            if (obj->preferredWay()>=0&&obj->infeasibility())
+              bestWhichWay_ = obj->preferredWay();
             bestTrusted = value;
           }
         }
diff --git a/src/Algorithms/Branching/BonRandomChoice.cpp b/src/Algorithms/Branching/BonRandomChoice.cpp
index 1db5553..150e79b 100644
--- a/src/Algorithms/Branching/BonRandomChoice.cpp
+++ b/src/Algorithms/Branching/BonRandomChoice.cpp
@@ -44,8 +44,8 @@ int BonRandomChoice::setupList(OsiBranchingInformation * info, bool initialize){
       if (priorityLevel<bestPriority) {
         numberUnsatisfied_ = 0;
         std::fill(list_, list_+numberObjects, -1);
+        bestPriority = priorityLevel;
       }
-      bestPriority = priorityLevel;
       if (priorityLevel==bestPriority) {
         list_[numberUnsatisfied_]=i;
         numberUnsatisfied_++;
-- 
2.43.0


From 871025fcfad3b5597ce1d13517e622dcff254d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:10 +0000
Subject: [PATCH 47/61] fix: fixing one special ordered set while strong
 branching made the next one crash

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index beae7f6..26cb2ec 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -707,8 +707,10 @@ namespace Bonmin
                 firstForcedWhichWay_ =0;
               }
               numberFixed++;
-              if (fixVariables) {
-                const OsiObject * obj = solver->object(iObject);
+              const OsiObject * obj = solver->object(iObject);
+              int way;
+              // Fixing another object may have made this one satisfied
+              if (fixVariables && obj->infeasibility(info, way) > 0.) {
                 OsiBranchingObject * branch = obj->createBranch(solver,info,0);
                 branch->branch(solver);
                 delete branch;
@@ -730,8 +732,10 @@ namespace Bonmin
                 firstForcedWhichWay_ =1;
               }
               numberFixed++;
-              if (fixVariables) {
-                const OsiObject * obj = solver->object(iObject);
+              const OsiObject * obj = solver->object(iObject);
+              int way;
+              // Fixing another object may have made this one satisfied
+              if (fixVariables && obj->infeasibility(info, way) > 0.) {
                 OsiBranchingObject * branch = obj->createBranch(solver,info,1);
                 branch->branch(solver);
                 delete branch;
-- 
2.43.0


From 50b23b14bf52bde5a2fe986f540e221315272319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:53 +0000
Subject: [PATCH 48/61] fix: copying a set of special ordered sets overwrote
 the source with garbage

---
 src/Interfaces/BonTMINLP.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Interfaces/BonTMINLP.cpp b/src/Interfaces/BonTMINLP.cpp
index fc96bc4..becf892 100644
--- a/src/Interfaces/BonTMINLP.cpp
+++ b/src/Interfaces/BonTMINLP.cpp
@@ -47,13 +47,14 @@ TMINLP::SosInfo::SosInfo(const SosInfo & source):
     indices = new int[numNz];
     weights = new double[numNz];
     for(int i = 0 ; i < num ; i++) {
-      source.types[i] = types[i];
-      source.priorities[i] = priorities[i];
-      source.starts[i] = starts[i];
+      types[i] = source.types[i];
+      priorities[i] = source.priorities[i];
+      starts[i] = source.starts[i];
     }
+    starts[num] = source.starts[num];
     for(int i = 0 ; i < numNz ; i++) {
-      source.indices[i] = indices[i];
-      source.weights[i] = weights[i];
+      indices[i] = source.indices[i];
+      weights[i] = source.weights[i];
     }
   }
   else {
-- 
2.43.0


From 6d94a0f3977a2a10a91f3b7892975601f342c02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:53 +0000
Subject: [PATCH 49/61] fix: copying branching information freed uninitialised
 pointers

---
 src/Interfaces/BonTMINLP.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Interfaces/BonTMINLP.hpp b/src/Interfaces/BonTMINLP.hpp
index c2b87bf..95f1132 100644
--- a/src/Interfaces/BonTMINLP.hpp
+++ b/src/Interfaces/BonTMINLP.hpp
@@ -143,7 +143,6 @@ namespace Bonmin
       {}
       BranchingInfo(const BranchingInfo &other)
       {
-        gutsOfDestructor();
         size = other.size;
         priorities = CoinCopyOfArray(other.priorities, size);
         branchingDirections = CoinCopyOfArray(other.branchingDirections, size);
-- 
2.43.0


From 3beccb3b0c433d5c7bc31151cf55db3642c75378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:53 +0000
Subject: [PATCH 50/61] fix: resetting the perturbation radii left a dangling
 pointer

---
 src/Interfaces/BonTMINLP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonTMINLP.cpp b/src/Interfaces/BonTMINLP.cpp
index becf892..3e941d6 100644
--- a/src/Interfaces/BonTMINLP.cpp
+++ b/src/Interfaces/BonTMINLP.cpp
@@ -89,6 +89,7 @@ TMINLP::SosInfo::gutsOfDestructor()
 
 void TMINLP::PerturbInfo::SetPerturbationArray(Ipopt::Index numvars, const double* perturb_radius) {
   delete [] perturb_radius_;
+  perturb_radius_ = NULL;
   if (perturb_radius) {
     perturb_radius_ = new double[numvars];
     for(int i=0; i<numvars; i++) {
-- 
2.43.0


From 69c5fc663878e25401fd8569417c1fed5fa1668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:53 +0000
Subject: [PATCH 51/61] fix: copying a node comparison without its criteria
 crashed

---
 src/CbcBonmin/BonDiver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.hpp b/src/CbcBonmin/BonDiver.hpp
index a16007a..1ad0977 100644
--- a/src/CbcBonmin/BonDiver.hpp
+++ b/src/CbcBonmin/BonDiver.hpp
@@ -331,8 +331,8 @@ namespace Bonmin
         diver_(rhs.diver_),
         numberSolToStopDive_(rhs.numberSolToStopDive_),
         numberNodesToLimitTreeSize_(rhs.numberNodesToLimitTreeSize_),
-        comparisonDive_(rhs.comparisonDive_->clone()),
-        comparisonBound_(rhs.comparisonBound_->clone())
+        comparisonDive_(rhs.comparisonDive_ ? rhs.comparisonDive_->clone() : NULL),
+        comparisonBound_(rhs.comparisonBound_ ? rhs.comparisonBound_->clone() : NULL)
     {}
 
     // Assignment operator
-- 
2.43.0


From 5a3ba10be13630a2efa2b54f6e7d403047620e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:44 +0000
Subject: [PATCH 52/61] fix: copies of a solver set-up had none of its
 heuristics

---
 src/Algorithms/BonBabSetupBase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 8adcf06..88d5d2a 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -107,7 +107,7 @@ namespace Bonmin
       cutGenerators_.back().cgl = cutGenerators_.back().cgl->clone();
     }
 
-    for (HeuristicMethods::iterator i = heuristics_.begin() ; i != heuristics_.end() ; i++) {
+    for (HeuristicMethods::const_iterator i = other.heuristics_.begin() ; i != other.heuristics_.end() ; i++) {
       heuristics_.push_back(*i);
       heuristics_.back().heuristic = i->heuristic->clone();
     }
@@ -159,7 +159,7 @@ namespace Bonmin
       cutGenerators_.back().cgl = cutGenerators_.back().cgl->clone();
     }
 
-    for (HeuristicMethods::iterator i = heuristics_.begin() ; i != heuristics_.end() ; i++) {
+    for (HeuristicMethods::const_iterator i = other.heuristics_.begin() ; i != other.heuristics_.end() ; i++) {
       heuristics_.push_back(*i);
       heuristics_.back().heuristic = i->heuristic->clone();
     }
-- 
2.43.0


From 20210ef1bf8d396a67e895e0f09297ea53134d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:59 +0000
Subject: [PATCH 53/61] fix: copying a set-up of an LP based algorithm onto
 another interface crashed

---
 src/Algorithms/BonBabSetupBase.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 88d5d2a..c780e2a 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -100,7 +100,8 @@ namespace Bonmin
     }
     if (other.messageHandler_) {
       messageHandler_ = other.messageHandler_->clone();
-      continuousSolver_->passInMessageHandler(messageHandler_);
+      if (continuousSolver_)
+        continuousSolver_->passInMessageHandler(messageHandler_);
     }
     for (CuttingMethods::const_iterator i = other.cutGenerators_.begin() ; i != other.cutGenerators_.end() ; i++) {
       cutGenerators_.push_back(*i);
@@ -152,7 +153,8 @@ namespace Bonmin
       continuousSolver_ = nonlinearSolver_;
     if (other.messageHandler_) {
       messageHandler_ = other.messageHandler_->clone();
-      continuousSolver_->passInMessageHandler(messageHandler_);
+      if (continuousSolver_)
+        continuousSolver_->passInMessageHandler(messageHandler_);
     }
     for (CuttingMethods::const_iterator i = other.cutGenerators_.begin() ; i != other.cutGenerators_.end() ; i++) {
       cutGenerators_.push_back(*i);
-- 
2.43.0


From 035afef56045844aeb8c017c6a71d17ad9fc9aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:21 +0000
Subject: [PATCH 54/61] fix: copies of a solver set-up shared its branching
 objects, which were then freed twice

---
 src/Algorithms/BonBabSetupBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index c780e2a..a0d6e93 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -122,7 +122,7 @@ namespace Bonmin
     CoinCopyN(other.intParam_, NumberIntParam, intParam_);
     CoinCopyN(other.doubleParam_, NumberDoubleParam, doubleParam_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
 
@@ -175,7 +175,7 @@ namespace Bonmin
     CoinCopyN(other.intParam_, NumberIntParam, intParam_);
     CoinCopyN(other.doubleParam_, NumberDoubleParam, doubleParam_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
   /** Copy constructor with change of nlp. */
@@ -211,7 +211,7 @@ namespace Bonmin
     CoinCopyN(defaultDoubleParam_, NumberDoubleParam, doubleParam_);
     gatherParametersValues(options_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
 
-- 
2.43.0


From bd788444cb71fba1116810ef4105377ec35ec740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:21 +0000
Subject: [PATCH 55/61] fix: a set-up initialised from an interface did not
 record its algorithm, copying it crashed

---
 src/Algorithms/BonBonminSetup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/BonBonminSetup.cpp b/src/Algorithms/BonBonminSetup.cpp
index 2fb5d1b..c0308a4 100644
--- a/src/Algorithms/BonBonminSetup.cpp
+++ b/src/Algorithms/BonBonminSetup.cpp
@@ -178,8 +178,8 @@ namespace Bonmin
   {
     use(nlpSi);
     BabSetupBase::gatherParametersValues(options_);
-    Algorithm algo = getAlgorithm();
-    if (algo == B_BB)
+    algo_ = getAlgorithm();
+    if (algo_ == B_BB)
       initializeBBB();
     else
       initializeBHyb(createContinuousSolver);
-- 
2.43.0


From c5712e703e89e713400fe0619fd237a2cdf0eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:41 +0000
Subject: [PATCH 56/61] fix: integer feasibility was tested with a thousand
 times the integer tolerance, decompositions hung or lost solutions

---
 src/Algorithms/BonSolverHelp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/BonSolverHelp.cpp b/src/Algorithms/BonSolverHelp.cpp
index 69f1ecb..44a202d 100644
--- a/src/Algorithms/BonSolverHelp.cpp
+++ b/src/Algorithms/BonSolverHelp.cpp
@@ -24,9 +24,11 @@ bool integerFeasible(OsiSolverInterface & si, const OsiBranchingInformation & in
 {
   if (objects) {
     int dummy;
+    // be tolerant but never take a truly fractional point for an integer one
+    const double tolerance = std::max(integer_tolerance, std::min(1000*integer_tolerance, 1e-03));
     for (int i = 0 ; i < nObjects ; i++) {
       double infeasibility = objects[i]->infeasibility(&info, dummy);
-      if (infeasibility > 1000*integer_tolerance) return false;
+      if (infeasibility > tolerance) return false;
     }
   }
   else {
-- 
2.43.0


From e30563ee68596214273c5e049fad5d8a2ee36357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:41 +0000
Subject: [PATCH 57/61] fix: branching strategy of a set-up with its own prefix
 was recorded under another prefix and lost

---
 src/Algorithms/BonBabSetupBase.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index a0d6e93..6a0aa85 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -393,12 +393,12 @@ namespace Bonmin
     if (varSelection == MOST_FRACTIONAL) {
       intParam_[NumberStrong] = 0;
       intParam_[MinReliability] = 0;
-      options_->SetIntegerValue("bonmin.number_strong_branch",intParam_[BabSetupBase::NumberStrong],true,true);
-      options_->SetIntegerValue("bonmin.number_before_trust",intParam_[BabSetupBase::MinReliability],true,true);
+      options_->SetIntegerValue(prefix_ + "number_strong_branch",intParam_[BabSetupBase::NumberStrong],true,true);
+      options_->SetIntegerValue(prefix_ + "number_before_trust",intParam_[BabSetupBase::MinReliability],true,true);
     }
     else if (varSelection == RELIABILITY_BRANCHING) {
       intParam_[MinReliability] = 10;
-      options_->SetIntegerValue("bonmin.number_before_trust",intParam_[BabSetupBase::MinReliability],true,true);
+      options_->SetIntegerValue(prefix_ + "number_before_trust",intParam_[BabSetupBase::MinReliability],true,true);
     }
   }
 
-- 
2.43.0


From 34b20be40ec54dc98b3b92cbd47fc09e4412b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 58/61] fix: reading a bounds file applied garbage after its
 last newline and aborted on ill-formed files

---
 src/Interfaces/BonBoundsReader.cpp | 77 +++++++++++++-----------------
 src/Interfaces/BonBoundsReader.hpp |  2 +
 2 files changed, 34 insertions(+), 45 deletions(-)

diff --git a/src/Interfaces/BonBoundsReader.cpp b/src/Interfaces/BonBoundsReader.cpp
index d4ef484..763c45c 100644
--- a/src/Interfaces/BonBoundsReader.cpp
+++ b/src/Interfaces/BonBoundsReader.cpp
@@ -10,6 +10,10 @@
 #include "BonBoundsReader.hpp"
 
 #include <fstream>
+#include <vector>
+
+#include "CoinError.hpp"
+#include "CoinHelperFunctions.hpp"
 
 namespace Bonmin {
 BoundsReader::~BoundsReader()
@@ -55,62 +59,45 @@ void BoundsReader::read(const std::string &fileName)
 void BoundsReader::read()
 {
   gutsOfDestructor();
-  //First count the number of lower and upper bounds resp
-  std::string lo="LO";
-  std::string up="UP";
+  const std::string lo="LO";
+  const std::string up="UP";
+  std::ifstream fin(fileName_.c_str());
+  if(!fin.is_open())
+    throw CoinError("Can not open bounds file " + fileName_, "read", "BoundsReader");
+  //First read everything, a file which is not well formed has no effect
+  std::vector<double> bounds[2];
+  std::vector<int> indices[2];
   std::string in;
-  {
-    std::ifstream fin(fileName_.c_str());
-    //std::streampos begin = fin.tellg();
-    while(!fin.eof()) {
-      fin>>in;
-      if(in==lo)
-        nLower_++;
-      else if(in==up)
-        nUpper_++;
-      else
-        throw;
-      fin.ignore(10000,'\n');
-    }
+  while(fin>>in) {
+    int index;
+    double bound;
+    if((in!=lo && in!=up) || !(fin>>index>>bound))
+      throw CoinError("Ill-formed bounds file " + fileName_, "read", "BoundsReader");
+    bounds[in==up].push_back(bound);
+    indices[in==up].push_back(index);
+    fin.ignore(10000,'\n');
   }
+  nLower_ = static_cast<int>(bounds[0].size());
+  nUpper_ = static_cast<int>(bounds[1].size());
   if(nLower_ > 0) {
-    lowerBounds_ = new double[nLower_];
-    indexLowers_ = new int[nLower_];
+    lowerBounds_ = CoinCopyOfArray(&bounds[0][0], nLower_);
+    indexLowers_ = CoinCopyOfArray(&indices[0][0], nLower_);
   }
   if(nUpper_ > 0) {
-    upperBounds_ = new double[nUpper_];
-    indexUppers_ = new int[nUpper_];
-  }
-  //fin.seekg(0);
-  // fin.seekg( 0, std::ios::beg);
-  nLower_ = 0;
-  nUpper_ = 0;
-  {
-    std::ifstream fin2(fileName_.c_str());
-    //fin.close();
-    //fin.open(fileName_.c_str());
-    while(!fin2.eof()) {
-      int index;
-      double bound;
-      fin2>>in>>index>>bound;
-      if(in==lo) {
-        lowerBounds_[nLower_] = bound;
-        indexLowers_[nLower_++] = index;
-      }
-      else if(in==up) {
-        upperBounds_[nUpper_] = bound;
-        indexUppers_[nUpper_++] = index;
-      }
-      else
-        throw;
-      fin2.ignore(10000,'\n');
-    }
+    upperBounds_ = CoinCopyOfArray(&bounds[1][0], nUpper_);
+    indexUppers_ = CoinCopyOfArray(&indices[1][0], nUpper_);
   }
 }
 
 void BoundsReader::readAndApply(OsiTMINLPInterface * solver)
 {
   read();
+  const int numcols = solver->getNumCols();
+  for(int i = 0 ; i < nLower_ + nUpper_ ; i++) {
+    const int index = (i < nLower_) ? indexLowers_[i] : indexUppers_[i - nLower_];
+    if(index < 0 || index >= numcols)
+      throw CoinError("Wrong index in bounds file " + fileName_, "readAndApply", "BoundsReader");
+  }
   for(int i = 0 ; i < nLower_ ; i++) {
     solver->setColLower(indexLowers_[i], lowerBounds_[i]);
   }
diff --git a/src/Interfaces/BonBoundsReader.hpp b/src/Interfaces/BonBoundsReader.hpp
index 64a6921..28dff8e 100644
--- a/src/Interfaces/BonBoundsReader.hpp
+++ b/src/Interfaces/BonBoundsReader.hpp
@@ -25,6 +25,8 @@ public:
       fileName_(),
       lowerBounds_(NULL),
       upperBounds_(NULL),
+      indexLowers_(NULL),
+      indexUppers_(NULL),
       nLower_(0),
       nUpper_(0)
   {}
-- 
2.43.0


From 35633e13d064bdb77b1e86a720d14b25308588e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 59/61] fix: names reader kept dangling keys, did not hand out
 the names it read and appended to those of a previous file

---
 src/Interfaces/BonColReader.cpp | 12 +++++++-----
 src/Interfaces/BonColReader.hpp | 16 ++++------------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/Interfaces/BonColReader.cpp b/src/Interfaces/BonColReader.cpp
index 7a43470..faca275 100644
--- a/src/Interfaces/BonColReader.cpp
+++ b/src/Interfaces/BonColReader.cpp
@@ -14,7 +14,7 @@ namespace Bonmin{
 
 NamesReader::NamesReader(const char * file, const char * suffix)
     :
-    file_(), suffix_(suffix), indices_(), names_()
+    file_(), suffix_(".col"), indices_(), names_()
 {
   assert(file!= NULL);
   file_=file;
@@ -30,7 +30,7 @@ bool NamesReader::readFile()
 {
   std::string colFileName = file_;
   size_t size = colFileName.size();
-  bool hasNlExtension =  (colFileName.size()>4) && (colFileName[size - 1] =='l') && (colFileName[size - 2] =='n') && (colFileName[size - 3] =='.');
+  bool hasNlExtension =  (colFileName.size()>3) && (colFileName[size - 1] =='l') && (colFileName[size - 2] =='n') && (colFileName[size - 3] =='.');
   if(hasNlExtension)
     colFileName.erase(size-3,3);
   colFileName+=suffix_;
@@ -38,6 +38,8 @@ bool NamesReader::readFile()
   if(!inFile.is_open()) {
     return false;
   }
+  indices_.clear();
+  names_.clear();
   std::string name;
   int nVar = 0;
   do {
@@ -46,14 +48,14 @@ bool NamesReader::readFile()
     if(name.size()==0)
       continue;
     names_.push_back(name);
-    indices_[names_[nVar].c_str()] = nVar;
+    indices_[name] = nVar;
     nVar++;
   }
   while(!inFile.eof());
 
   //  names_ = new std::string[nVar];
   for(int i = 0 ; i < nVar ; i++) {
-    assert(i==indices_ [ names_ [i].c_str()]);
+    assert(i==indices_ [ names_ [i] ]);
   }
   return true;
 }
@@ -61,6 +63,6 @@ bool NamesReader::readFile()
 void
 NamesReader::copyNames(OsiSolverInterface::OsiNameVec& names)
 {
-  names_ = names;
+  names = names_;
 }
 }
diff --git a/src/Interfaces/BonColReader.hpp b/src/Interfaces/BonColReader.hpp
index e086736..1d99d11 100644
--- a/src/Interfaces/BonColReader.hpp
+++ b/src/Interfaces/BonColReader.hpp
@@ -47,9 +47,10 @@ public:
    return names_[i];
   }
 
-  /** Access index of variable str */
+  /** Access index of variable str (-1 if there is no such variable)*/
   int index(const char * str){
-    return indices_[str];
+    namesHash::const_iterator i = indices_.find(str);
+    return (i == indices_.end()) ? -1 : i->second;
   }
 private:
   /// Name of the file to read.
@@ -58,17 +59,8 @@ private:
   /// Suffix of the file (".col", ".row")
   std::string suffix_;
 
-  /// String comparison strucutre.
-  struct ltstr
-  {
-    bool operator()(const char* s1, const char* s2) const
-    {
-      return strcmp(s1, s2) < 0;
-    }
-  };
-
   /// Hash type.
-  typedef std::map<const char *, int, ltstr> namesHash;
+  typedef std::map<std::string, int> namesHash;
   ///Hash map used to store the indices.
   namesHash indices_;
   ///Variable names.
-- 
2.43.0


From 8ee7b7dd916d603a2ce888a2ac0a71faaacff596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 60/61] fix: starting point reader accepted truncated files and
 points of the wrong size

---
 src/Interfaces/BonStartPointReader.cpp | 44 ++++++++++++++++++--------
 src/Interfaces/BonStartPointReader.hpp | 16 ++++++++--
 2 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/Interfaces/BonStartPointReader.cpp b/src/Interfaces/BonStartPointReader.cpp
index e3e4827..29db380 100644
--- a/src/Interfaces/BonStartPointReader.cpp
+++ b/src/Interfaces/BonStartPointReader.cpp
@@ -8,6 +8,9 @@
 // Date : 26/05/2005
 #include "BonStartPointReader.hpp"
 
+#include <algorithm>
+#include <vector>
+
 
 namespace Bonmin {
 
@@ -18,24 +21,41 @@ namespace Bonmin {
       std::cerr<<"Error in opening initial point file";
       return false;
     }
-    int numPrimals;
-    int numDuals;
+    int numPrimals = -1;
+    int numDuals = -1;
     inFile>>numPrimals>>numDuals;
     gutsOfDestructor();
-    primals_ = new double [numPrimals];
-    duals_ = new double[numDuals];
-    for(int i = 0; i < numPrimals ; i++) {
-      inFile>>primals_[i];
+    if(inFile.fail() || numPrimals < 0 || numDuals < 0) {
+      std::cerr<<"Error in reading initial point file";
+      return false;
     }
-    for(int i = 0; i < numDuals ; i++) {
-      inFile>>duals_[i];
+    // Read before storing, the counts may be larger than what the file contains
+    std::vector<double> values;
+    double value;
+    while(values.size() < static_cast<size_t>(numPrimals) + numDuals && inFile>>value)
+      values.push_back(value);
+    if(values.size() < static_cast<size_t>(numPrimals) + numDuals) {
+      std::cerr<<"Error in reading initial point file";
+      return false;
     }
+    numPrimals_ = numPrimals;
+    numDuals_ = numDuals;
+    primals_ = new double [numPrimals];
+    duals_ = new double[numDuals];
+    std::copy(values.begin(), values.begin() + numPrimals, primals_);
+    std::copy(values.begin() + numPrimals, values.end(), duals_);
     return true;
   }
 
   bool StartPointReader::readAndApply(OsiTMINLPInterface * solver)
   {
-    readFile();
+    if(!readFile())
+      return 0;
+    if(numPrimals_ != solver->getNumCols() ||
+        (numDuals_ != 0 && numDuals_ != 2*solver->getNumCols() + solver->getNumRows())) {
+      std::cerr<<"Initial point file does not have the dimensions of the problem"<<std::endl;
+      return 0;
+    }
     solver->solver()->enableWarmStart();
     if(primals_)
       solver->setColSolution(primals_);
@@ -43,12 +63,8 @@ namespace Bonmin {
       std::cerr<<"No warm start info ???"<<std::endl;
       return 0;
     }
-    if(duals_)
+    if(numDuals_ > 0)
       solver->setRowPrice(duals_);
-    else {
-      std::cerr<<"No warm start info ???"<<std::endl;
-      return 0;
-    }
     return 1;
   }
 }
diff --git a/src/Interfaces/BonStartPointReader.hpp b/src/Interfaces/BonStartPointReader.hpp
index f1d39c1..ba6dd26 100644
--- a/src/Interfaces/BonStartPointReader.hpp
+++ b/src/Interfaces/BonStartPointReader.hpp
@@ -27,13 +27,17 @@ public:
   StartPointReader(std::string fileName = ""):
       fileName_(fileName),
       primals_(NULL),
-      duals_(NULL)
+      duals_(NULL),
+      numPrimals_(0),
+      numDuals_(0)
   {}
   /** Constructor with fileName_ given by a const char * */
   StartPointReader(const char * fileName):
       fileName_(fileName),
       primals_(NULL),
-      duals_(NULL)
+      duals_(NULL),
+      numPrimals_(0),
+      numDuals_(0)
   {}
 
   /** Reads the .initP file*/
@@ -59,6 +63,10 @@ public:
       delete[] primals_;
     if(duals_!=NULL)
       delete[] duals_;
+    primals_ = NULL;
+    duals_ = NULL;
+    numPrimals_ = 0;
+    numDuals_ = 0;
   }
 
   /// Access primal variables values.
@@ -79,6 +87,10 @@ private:
   double * primals_;
   /// Dual variables values.
   double * duals_;
+  /// Number of primal variables values.
+  int numPrimals_;
+  /// Number of dual variables values.
+  int numDuals_;
 };
 
 }
-- 
2.43.0


From 7f2af85010b00250ed32902abd31a6bc4dbc173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 61/61] fix: record of a failed subproblem lost precision of
 bounds, announced duals it did not have and ignored the prefix

---
 src/Interfaces/BonTNLPSolver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/BonTNLPSolver.cpp b/src/Interfaces/BonTNLPSolver.cpp
index 1e506c0..14f7b8e 100644
--- a/src/Interfaces/BonTNLPSolver.cpp
+++ b/src/Interfaces/BonTNLPSolver.cpp
@@ -207,6 +207,8 @@ TNLPSolver::UnsolvedError::writeDiffFiles(const std::string prefix) const{
   if(hasVarNames)
     fMod.open(fModName.c_str());
   fBounds.open(fBoundsName.c_str());
+  fBounds.precision(17);
+  fMod.precision(17);
     
   for(int i = 0 ; i < numcols ; i++)
     {    
@@ -232,7 +234,7 @@ TNLPSolver::UnsolvedError::writeDiffFiles(const std::string prefix) const{
     }
   
     //write a file with starting point
-    std::string fStartPointName = name_;
+    std::string fStartPointName = prefix + name_;
     fStartPointName+="_start";
 
 
@@ -248,10 +250,10 @@ TNLPSolver::UnsolvedError::writeDiffFiles(const std::string prefix) const{
 
     std::ofstream fStartPoint(fStartPointName.c_str());
     fStartPoint.precision(17);
-    fStartPoint<<numcols<<"\t"<<2*numcols+numrows<<std::endl;
+    int end = duals ? 2*numcols + numrows : 0;
+    fStartPoint<<numcols<<"\t"<<end<<std::endl;
     for(int i = 0 ; i < numcols ; i++)
     fStartPoint<<primals[i]<<std::endl;
-    int end = 2*numcols + numrows;
     if(duals)
       {
 	for(int i = 0 ; i < end; i++)
-- 
2.43.0

