From aa6595be070714d3a769eb8d041ad81822302318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 01/83] fix: symbolic search: swap the subtasks of a method
 only if its ordering is 1 < 0 (and do so then)

---
 src/symbolic_search/automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 8b80a59..9e82524 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1196,7 +1196,7 @@ void build_automaton(Model * htn){
 		int first = htn->subTasks[method][0];
 		int second = htn->subTasks[method][1];
 		assert(htn->numOrderings[method] == 2);
-		if (htn->ordering[method][0] == 1 && htn->ordering[method][1])
+		if (htn->ordering[method][0] == 1 && htn->ordering[method][1] == 0)
 			std::swap(first,second);
 
 		tasks_per_method[method] = {first, second};
-- 
2.43.0


From 26c279e926b03b9d7d2681554dcbb479eea9132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 02/83] fix: symbolic search: go on with the next cost that has
 queue entries of either kind

---
 src/symbolic_search/automaton.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 9e82524..abd4c16 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1724,13 +1724,19 @@ void build_automaton(Model * htn){
 		
 		if (next_abstract_layer == abst_q[currentCost].end()){
 			// transition to primitive layer
-			auto findIt = prim_q.find(currentCost);
-			findIt++;
-			if (findIt == prim_q.end() && ++abst_q.find(currentCost) == abst_q.end()){
+			// (the next cost may be one for which only one of the two queues has entries)
+			auto nextPrim = prim_q.upper_bound(currentCost);
+			auto nextAbst = abst_q.upper_bound(currentCost);
+			if (nextPrim == prim_q.end() && nextAbst == abst_q.end()){
 				std::cout << color(RED,"Problem is unsolvable") << std::endl;
 				exit(0);
 			}
-			currentCost = findIt->first;
+			if (nextPrim == prim_q.end())
+				currentCost = nextAbst->first;
+			else if (nextAbst == abst_q.end())
+				currentCost = nextPrim->first;
+			else
+				currentCost = std::min(nextPrim->first, nextAbst->first);
 			currentDepthInAbstract = 0; // the primitive layer
 			current_queue = prim_q[currentCost];
 			std::cout << color(CYAN,"==========================") << " Cost Layer " << currentCost << std::endl; 
-- 
2.43.0


From 6a7afab7749900bb6ee8cac1cfae777ba63574ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 03/83] fix: symbolic search: look up the states of an edge at
 the cost at which they were inserted

---
 src/symbolic_search/automaton.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index abd4c16..84fb051 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1280,9 +1280,7 @@ void build_automaton(Model * htn){
 			
 			unordered_set<int> handledCosts;
 			for(tracingInfo & info : entry.second){
-				//int sourceCost = get<0>(info) + get<7>(info);
-				int sourceCost = get<0>(info);
-				if (get<7>(info) != get<5>(info)) sourceCost += get<7>(info);
+				int sourceCost = get<0>(info) + get<7>(info);
 				if (handledCosts.count(sourceCost)) continue;
 				handledCosts.insert(sourceCost);
 
-- 
2.43.0


From 068358891c5f273c74b2ce9d2779caa0eece91fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 04/83] fix: symbolic search: the layer before a given one is
 the one processed before it

---
 src/symbolic_search/automaton.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 84fb051..6e6da54 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -14,6 +14,7 @@
 #include <iostream>
 #include <iomanip>
 #include <queue>
+#include <set>
 #include <fstream>
 #include <unordered_set>
 
@@ -309,14 +310,16 @@ reconstructed_plan addToPlan(reconstructed_plan a, int task, int method, Model *
 
 
 
-pair<int,int> prev(int cost, int depth){
-	if (depth != 0)
-		return {cost, depth-1};
+// the layers (cost, depth) that were actually processed by the search
+std::set<std::pair<int,int>> processed_layers;
 
-	if (abst_q[cost-1].size() == 0)
+// the layer that was processed directly before the given one. Not every cost value has a layer.
+pair<int,int> prev(int cost, int depth){
+	auto layer = processed_layers.lower_bound({cost,depth});
+	if (layer == processed_layers.begin())
 		return {cost-1, 0};
-	
-	return {cost-1, (--abst_q[cost-1].end())->first};
+
+	return *(--layer);
 }
 
 
@@ -1274,6 +1277,7 @@ void build_automaton(Model * htn){
 	std::map<std::tuple<int,int>, std::vector<tracingInfo> > & current_queue = prim_q[0];
 	// TODO separate trans and rel
 	while (true){ // TODO: detect unsolvability
+		processed_layers.insert({currentCost, currentDepthInAbstract});
 		for (auto & entry : current_queue){
 			int task       = get<0>(entry.first);
 			int to         = get<1>(entry.first);
-- 
2.43.0


From 19103b01454c5435346931b1baaeda42b5ed15ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 05/83] fix: visited list: do not compare f values that are not
 computed yet when there is no re-opening

---
 src/VisitedList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 8c22c10..3e2d7c9 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -568,7 +568,7 @@ bool VisitedList::insertVisi(searchNode *n) {
 			//cout << endl << endl << "Comp " << result << endl;
 			//other->printNode(cout);
 			if (result) {
-				if (other->fValue > n->fValue){
+				if (!noReopening && other->fValue > n->fValue){
 					toRemove = other;
 					continue;
 				}
-- 
2.43.0


From f5d71e78cbd13351619f12b153619f478af0d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 06/83] fix: translation: find the variable of an initially
 true fact among all variables

---
 src/translation/htnToSAS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index f0833df..e109800 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -174,7 +174,7 @@ void HTNToSASTranslation::sasPlus(){
   for (int i = 0; i < htn->s0Size; i++){
     int j = 0;
     while (true){
-      if (j >= htn->s0Size || htn->firstIndex[j] > htn->s0List[i]){
+      if (j >= htn->numVars || htn->firstIndex[j] > htn->s0List[i]){
         j--;
         break;
       }
-- 
2.43.0


From 1cdcb262815c770623e5ac3db23e0dd483a3af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 07/83] fix: translation: a move operator has as many
 conditional effects as are filled in

---
 src/translation/htnToSAS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index e109800..0b4adcb 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -714,9 +714,9 @@ int HTNToSASTranslation::htnToCondSorted(int pgb) {
   index = methodTaskIndex;
   for (int i = 0; i < htn->numTasks; i++) {
     for (int j = 0; j < (pgb - 1); j++){
-      numConditionalEffectsTrans[index] = pgb;
+      numConditionalEffectsTrans[index] = pgb - 2;
       if (j > 0){
-        numConditionalEffectsTrans[index] = pgb + 2;
+        numConditionalEffectsTrans[index] = pgb;
       }
       effectConditionsTrans[index] = new int*[numConditionalEffectsTrans[index]];
       numEffectConditionsTrans[index] = new int[numConditionalEffectsTrans[index]];
-- 
2.43.0


From f428862a8d0e093a509e7c63152a000b52e4e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 08/83] fix: translation: order the subtasks of a method
 topologically also if they are not listed in an executable order

---
 src/translation/htnToSAS.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 0b4adcb..87953f5 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -335,23 +335,20 @@ void HTNToSASTranslation::reorderTasks(bool warning){
   	bool valueSet = false;
       for (int k = 0; k < htn->numSubTasks[i]; k++){
         bool notAlone = false;
+        for (int m = 0; m < j; m++){
+          if (k == subs[m]){
+            notAlone = true;
+            break;
+          }
+        }
         for (int l = 0; l < htn->numOrderings[i] / 2; l++){
           bool alreadyUsed = false;
-          bool ka = false;
           for (int m = 0; m < j; m++){
-            if (k == subs[m]){
-              ka = true;
-              break;
-            }
             if (htn->ordering[i][2 * l] == subs[m]){
               alreadyUsed = true;
               break;
             }
           }
-          if (ka){
-            notAlone = true;
-            break;
-          }
           if (not alreadyUsed && htn->ordering[i][2 * l + 1] == k){
             notAlone = true;
             break;
@@ -370,14 +367,19 @@ void HTNToSASTranslation::reorderTasks(bool warning){
 
     // reordering tasks and adjusting restrictions
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-      subTasksInOrder[i][j] = htn->subTasks[i][htn->numSubTasks[i] - 1 - subs[j]];
+      subTasksInOrder[i][j] = htn->subTasks[i][subs[htn->numSubTasks[i] - 1 - j]];
+    }
+    int* newIndex = new int[htn->numSubTasks[i]];
+    for (int j = 0; j < htn->numSubTasks[i]; j++){
+      newIndex[subs[j]] = htn->numSubTasks[i] - 1 - j;
     }
     for (int j = 0; j < htn->numOrderings[i]; j++){
-      htn->ordering[i][j] = htn->numSubTasks[i] - 1 - subs[htn->ordering[i][j]];
+      htn->ordering[i][j] = newIndex[htn->ordering[i][j]];
     }
+    delete[] newIndex;
     // evaluating number of primitive tasks in front
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-      if (htn->isPrimitive[htn->subTasks[i][j]]){
+      if (htn->isPrimitive[htn->subTasks[i][subs[j]]]){
         firstNumTOPrimTasks[i]++;
       }
       else {
-- 
2.43.0


From 4d4958ef67be0258dbd573767808939024657dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 09/83] fix: translation: extract the decomposition by
 following the heads of the plan

---
 src/translation/htnToSAS.cpp | 85 +++++++++++++-----------------------
 1 file changed, 31 insertions(+), 54 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 87953f5..085a278 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -3,6 +3,7 @@
 #include <fstream>
 #include <cstring>
 #include <list>
+#include <map>
 #include <sys/time.h>
 
 using namespace std;
@@ -2585,7 +2586,10 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
     int* methIndex = new int[methNumMax];
     int* primIndex = new int[primNumMax];
     int** subHeads = new int*[methNumMax];
-    bool** subHeadsFixed = new bool*[methNumMax];
+    // the plan step each subtask of an applied method was realised by
+    int** subSteps = new int*[methNumMax];
+    // the subtask (applied method, index of the subtask) that is currently located at a head
+    map<int, pair<int,int>> headToSubTask;
     bool* hasPrimIndezes = new bool[methNumMax];
     int** firstPrimIndezes = new int*[methNumMax];
     int* order = new int[linecount];
@@ -2601,20 +2605,12 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         order[i] = primNum;
         heads[i] = stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5));
         
-	    for (int j = methNum - 1; j >= 0; j--){
-		  bool repl = false;
-          for (int k = 0; k < htn->numSubTasks[methIndex[j]]; k++){
-            if (subHeadsFixed[j][k] == false && subHeads[j][k] == heads[i]){
-              subHeadsFixed[j][k] = true;
-			  repl = true;
-              break;
-            }
-          }
-          if (repl){
-            break;
-          }
+        auto it = headToSubTask.find(heads[i]);
+        if (it != headToSubTask.end()){
+          subSteps[it->second.first][it->second.second] = primNum;
+          headToSubTask.erase(it);
         }
-	
+
 		fout << primNum << " " << primitives[primNum] << endl;
         primNum++;
       }
@@ -2624,7 +2620,12 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         order[i] = methNum + primNumMax;
         heads[i] = stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5));
         subHeads[methNum] = new int[htn->numSubTasks[methIndex[methNum]]];
-        subHeadsFixed[methNum] = new bool[htn->numSubTasks[methIndex[methNum]]];
+        subSteps[methNum] = new int[htn->numSubTasks[methIndex[methNum]]];
+        auto it = headToSubTask.find(heads[i]);
+        if (it != headToSubTask.end()){
+          subSteps[it->second.first][it->second.second] = order[i];
+          headToSubTask.erase(it);
+        }
         int index = plan[i].find("firstPrim");
         hasPrimIndezes[methNum] = false;
         if (index < plan[i].length()){
@@ -2659,26 +2660,26 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
             else {
               subHeads[methNum][j] = stoi(s);
             }
-          	subHeadsFixed[methNum][j] = false;
-		  }
+            subSteps[methNum][j] = -1;
+          }
+          int numHeads = htn->numSubTasks[methIndex[methNum]];
+          if (hasPrimIndezes[methNum]){
+            numHeads -= firstNumTOPrimTasks[methIndex[methNum]];
+          }
+          for (int j = 0; j < numHeads; j++){
+            headToSubTask[subHeads[methNum][j]] = make_pair(methNum, j);
+          }
         }
         methNum++;
       }
       else if (plan[i].size() > 4 && string("move").compare(plan[i].substr(1, 4)) == 0){
         int from = stoi(plan[i].substr(plan[i].find("from") + 5, plan[i].find("]", plan[i].find("from"), 1) - plan[i].find("from") - 5));
         int to = stoi(plan[i].substr(plan[i].find("to") + 3, plan[i].find("]", plan[i].find("to"), 1) - plan[i].find("to") - 3));
-        bool repl = false;
-        for (int j = methNum - 1; j >= 0; j--){
-          if (repl){
-            break;
-          }
-          for (int k = 0; k < htn->numSubTasks[methIndex[j]]; k++){
-            if (subHeadsFixed[j][k] == false && subHeads[j][k] == from){
-              subHeads[j][k] = to;
-              repl = true;
-              break;
-            }
-          }
+        auto it = headToSubTask.find(from);
+        if (it != headToSubTask.end()){
+          pair<int,int> subTask = it->second;
+          headToSubTask.erase(it);
+          headToSubTask[to] = subTask;
         }
       }
     }
@@ -2702,31 +2703,7 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         }
       }
       for (int j = htn->numSubTasks[m] - 1 - fntopt; j >= 0; j--){
-	int index = -1;
-        for (int k = o + 1; k < linecount - 1; k++){
-          if (order[k] == -1){
-            continue;
-          }
-          if (order[k] < primNumMax){
-            if (primIndex[order[k]] == subTasksInOrder[m][j]){
-              if (heads[k] != subHeads[i][j]){
-                continue;
-              }
-              index = order[k];
-              break;
-            }
-          }
-          else {
-            if (subTasksInOrder[m][j] == htn->decomposedTask[methIndex[order[k]-primNumMax]]){
-              if (heads[k] != subHeads[i][j]){
-                continue;
-              }
-              index = order[k];
-              break;
-            }
-          }
-        }
-        fout << index << " ";
+        fout << subSteps[i][j] << " ";
       }
       fout << endl;
     }
-- 
2.43.0


From f7b73ff0609c509e7d90e2de25fdccf5e680ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 10/83] fix: translation: write the conditional effects of the
 ADL encoding

---
 src/translation/translationController.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index aa36173..5a1521c 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -69,7 +69,8 @@ void printSASToFile(HTNToSASTranslation * translation, TranslationType transtype
     gettimeofday(&tp, NULL);
     startT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << "Printing HTN model to file \"" << sasfile << "\" ... ";
-    translation->writeToFastDown(sasfile, transtype == Push, realCosts);
+    // the ADL encoding is produced by the same procedure as the Push encoding, both have conditional effects
+    translation->writeToFastDown(sasfile, transtype == Push || transtype == BaseCondEffects, realCosts);
     gettimeofday(&tp, NULL);
     currentT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << " (" << (currentT - startT) << " ms)" << endl;
-- 
2.43.0


From 7ff69199df2e6ac2079ef55087305bd8b1b0581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 11/83] fix: translation: use the ParallelSeq encoding only if
 there is exactly one initial method

---
 src/translation/translationController.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index 5a1521c..cd27eaf 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -125,6 +125,9 @@ void runTranslationPlanner(Model* htn, TranslationType transtype, bool forceTran
 		bool realCosts){
 	
 	
+	// the ParallelSeq encoding has one sequence per subtask of *the* initial method
+	bool isParallelSequences = htn->isParallelSequences && htn->numMethodsForTask[htn->initialTask] == 1;
+
 	// overriding of type
 	if (!forceTransType){
 		if (htn->isTotallyOrdered){
@@ -138,7 +141,7 @@ void runTranslationPlanner(Model* htn, TranslationType transtype, bool forceTran
 				cout << "- Configuration tried to apply TO encoding to non TO problem ... don't do this. Reverting to Push" << endl;
 				transtype = Push;
 			}
-			if (htn->isParallelSequences){
+			if (isParallelSequences){
 				if (transtype != ParallelSeq){
 					cout << "- Overriding transtype to ParallelSeq" << endl;
 					transtype = ParallelSeq;
-- 
2.43.0


From e9d8e26d96cefd5504614bea5e322a381a0fa2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 12/83] fix: progression: add the newly unconstrained tasks in
 the order of the successor list, not by address

---
 src/Model.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 0782e92..e87e1c8 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1116,7 +1116,10 @@ newlyReachedMLMs = new noDelIntSet();
 			}
 		}
 
-		for (planStep *ps2 : potentiallyFirst) {
+		// in the order of the successor list (the set is ordered by addresses)
+		for (int i = 0; i < progressed->numSuccessors; i++) {
+			planStep *ps2 = progressed->successorList[i];
+			if (potentiallyFirst.erase(ps2) == 0) continue;
 			if (isPrimitive[ps2->task]) {
 				result->unconstraintPrimitive[currentP] = ps2;
 				if (progressEffectLess) {
-- 
2.43.0


From 600274b84fd82c1f3635e0916163b2a1e0f68149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 13/83] fix: symbolic search: record every growth of an epsilon
 set, continue over all edges known by now, skip empty edges

Epsilon short-cuts were only recorded if they led to a new edge at once, edges
added after the one being progressed through were ignored (their difference in
cost is already attached to them), and an edge without states ended the
planner silently. Solvable problems were reported as unsolvable.
---
 src/symbolic_search/automaton.cpp | 55 ++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 6e6da54..15a6b9d 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -948,24 +948,37 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 			std::deque<int> epsilonMethodStack;
 			std::deque<BDD> epsilonStateStack;
 
-			epsilonTaskStack.push_back(remainingTask);
-			epsilonMethodStack.push_back(remainingMethod);
-			ensureBDD(remainingTask, remainingMethod, pCost, pDepth, sym_vars);
-			epsilonStateStack.push_back(edges[0][remainingTask][remainingMethod][cost][depth] * !edges[0][remainingTask][remainingMethod][pCost][pDepth]);
+			if (remainingTask == -1){
+				// no new edge was added, regress from the epsilon state itself
+				BDD beforeLast = edgeBDD.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux).
+					SwapVariables(sym_vars.swapVarsEff, sym_vars.swapVarsAux);
+				if (lastTask < htn->numActions)
+					beforeLast = trs[lastTask].preimage(beforeLast);
+				if (beforeLast.IsZero()) continue;
+
+				epsilonTaskStack.push_back(lastTask);
+				epsilonMethodStack.push_back(toVertex);
+				epsilonStateStack.push_back(beforeLast);
+			} else {
+				epsilonTaskStack.push_back(remainingTask);
+				epsilonMethodStack.push_back(remainingMethod);
+				ensureBDD(remainingTask, remainingMethod, pCost, pDepth, sym_vars);
+				epsilonStateStack.push_back(edges[0][remainingTask][remainingMethod][cost][depth] * !edges[0][remainingTask][remainingMethod][pCost][pDepth]);
 		
-			// regress through the last operation that we performed
-			predecessorsIsPossible = generatePredecessor(lastTask,toVertex,
-				epsilonTaskStack,epsilonMethodStack,epsilonStateStack,
-				method2,htn,sym_vars);
+				// regress through the last operation that we performed
+				predecessorsIsPossible = generatePredecessor(lastTask,toVertex,
+					epsilonTaskStack,epsilonMethodStack,epsilonStateStack,
+					method2,htn,sym_vars);
 
-			if (!predecessorsIsPossible) {
-				DEBUG(pc(mc); std::cout << "\t" << color(RED,"Predecessor cannot account for the new state.") << std::endl;);
-				continue;
-			}
+				if (!predecessorsIsPossible) {
+					DEBUG(pc(mc); std::cout << "\t" << color(RED,"Predecessor cannot account for the new state.") << std::endl;);
+					continue;
+				}
 
-			epsilonTaskStack.pop_back();
-			epsilonMethodStack.pop_back();
-			epsilonStateStack.pop_back();
+				epsilonTaskStack.pop_back();
+				epsilonMethodStack.pop_back();
+				epsilonStateStack.pop_back();
+			}
 
 			// only a target state if push and current are identical	
 			BDD nextTargetState = edgeBDD.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsPre).
@@ -1322,8 +1335,6 @@ void build_automaton(Model * htn){
 	
 				
 				if (state == sym_vars.zeroBDD()) {
-					std::cout << color(RED,"state attached to edge is empty ... bug!") << std::endl;
-					exit(0);
 					continue; // impossible state, don't treat it
 				}
 	
@@ -1357,12 +1368,14 @@ void build_automaton(Model * htn){
 							DEBUG(std::cout << "\t\t\t\t\t\t" << color(MAGENTA,"Adding to eps of ") << vertex_to_method[to] << std::endl);
 							
 	
+							// consider all edges known by now. If one was added after the edge we progressed through, then
+							// the difference in cost is attached to it as its hidden extra cost.
 							for (auto & [task2,tos] : edges[to]){
 								for (auto & [to2,bdds] : tos){
-									if (!bdds.count(lastCost) || !bdds[lastCost].count(lastDepth)) continue;
+									if (!bdds.count(currentCost) || !bdds[currentCost].count(currentDepthInAbstract)) continue;
 									DEBUG(std::cout << "\tContinuing edge: " << task2 << " " << vertex_to_method[to2] << "\t" << htn->taskNames[task2] << std::endl);
 									
-									BDD bdd = bdds[lastCost][lastDepth];
+									BDD bdd = bdds[currentCost][currentDepthInAbstract];
 									BDD addStateWithIntermediate = nextState * bdd;
 									BDD originalAddStateWithIntermediate = addStateWithIntermediate;
 									// we only add something if it is not already at the edge ...
@@ -1449,6 +1462,10 @@ void build_automaton(Model * htn){
 									//}	
 								}
 							}
+
+							// the epsilon set has grown even if it did not lead to a new edge right now
+							tracingInfo epsilonInf = {currentCost, currentDepthInAbstract, task, to, htn->emptyMethod[task], -1, -1, -1};
+							eps_inserted[to][currentCost][currentDepthInAbstract].push_back(epsilonInf);
 	
 	
 							if (to == 1){
-- 
2.43.0


From da8d53ade0426fb47229fcd7529ae3d84bf0dc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 14/83] fix: translation: a method has a last task if all
 others are ordered before it

---
 src/translation/htnToSAS.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 085a278..708f185 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -395,14 +395,15 @@ void HTNToSASTranslation::reorderTasks(bool warning){
     }
     else {
       bool* lower = new bool[htn->numSubTasks[i]];
-      for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
+      // the last task has index 0, all others must be ordered before it
+      for (int j = 1; j < htn->numSubTasks[i]; j++){
         lower[j] = false;
       }
-      lower[htn->numSubTasks[i] - 1] = true;
+      lower[0] = true;
       for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
         for (int k = 0; k < htn->numOrderings[i] / 2; k++){
-          if (lower[htn->ordering[i][2 * k]]){
-            lower[htn->ordering[i][2 * k + 1]] = true;
+          if (lower[htn->ordering[i][2 * k + 1]]){
+            lower[htn->ordering[i][2 * k]] = true;
           }
         }
       }
-- 
2.43.0


From f4debd4d50b13d3032bee250bd5e2b51cd72f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 15/83] fix: translation: two merged actions that need
 different values of a variable exclude each other

---
 src/translation/htnToSAS.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 708f185..caa168f 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -266,13 +266,13 @@ int HTNToSASTranslation::calculatePrecsAndAdds(int* s, int* p, int* a, string ta
     int start = -1;
     int end = -1;
     for (int j = 0; j < nT; j++){
-      if (end == -1){
-        if (start == -1){
-          start = varChange[i][2 * j];
-        }
+      // the value the variable has before the j-th task: the last effect or, if there is none, the first precondition
+      int value = (end != -1) ? end : start;
+      if (value == -1){
+        start = varChange[i][2 * j];
       }
-      else if (varChange[i][2 * j] != -1 && end != varChange[i][2 * j]){
-        cerr << endl << "variable: " << i << ", value old: " << end << ", value should be: " << varChange[i][2 * j] << endl;
+      else if (varChange[i][2 * j] != -1 && value != varChange[i][2 * j]){
+        cerr << endl << "variable: " << i << ", value old: " << value << ", value should be: " << varChange[i][2 * j] << endl;
         for (int j = 0; j < htn->numVars; j++){
           delete[] varChange[j];
         }
-- 
2.43.0


From 3f847c70be9d8115e1d485babbeb1e3edc9b3ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:15 +0000
Subject: [PATCH 16/83] fix: visited list: match the descendants of all tasks
 under one common mapping

---
 src/VisitedList.cpp | 54 +++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 3e2d7c9..a4c30d5 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -156,7 +156,23 @@ void to_dfs(planStep *s, vector<int> &seq) {
 
 
 bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping);
+                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping,
+                 list<pair<planStep *, planStep *>> open);
+
+
+// match the successors of the pairs of steps that were mapped, but whose successors have not been matched yet
+bool matchingOpen(
+        searchNode *one, searchNode *other,
+        map<planStep *, planStep *> &mapping, map<planStep *, planStep *> &backmapping,
+        list<pair<planStep *, planStep *>> open
+) {
+    if (open.empty())
+        return true; // everything has been matched
+
+    auto [oneStep, otherStep] = open.front();
+    open.pop_front();
+    return matchingDFS(one, other, oneStep, otherStep, mapping, backmapping, open);
+}
 
 
 void getSortedTasks(planStep **network, int size, int *succ);
@@ -166,14 +182,15 @@ bool matchingGenerate(
         map<planStep *, planStep *> &mapping, map<planStep *, planStep *> &backmapping,
         map<int, set<planStep *>> oneNextTasks,
         map<int, set<planStep *>> otherNextTasks,
-        unordered_set<int> tasks
+        unordered_set<int> tasks,
+        list<pair<planStep *, planStep *>> open
 ) {
     if (tasks.size() == 0)
-        return true; // done, all children
+        return matchingOpen(one, other, mapping, backmapping, open); // done, all children
 
     if (oneNextTasks[*tasks.begin()].size() == 0) {
         tasks.erase(*tasks.begin());
-        return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+        return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks, open);
     }
 
     int task = *tasks.begin();
@@ -192,7 +209,7 @@ bool matchingGenerate(
         if (backmapping.count(psOther) && backmapping[psOther] != psOne) continue;
 		DEBUG(cout << "\tOK" << endl);
 
-        bool subRes = true;
+        list<pair<planStep *, planStep *>> subOpen = open;
         map<planStep *, planStep *> subMapping = mapping;
         map<planStep *, planStep *> subBackmapping = backmapping;
 
@@ -200,28 +217,27 @@ bool matchingGenerate(
             subMapping[psOne] = psOther;
             subBackmapping[psOther] = psOne;
 
-            // run the DFS below this pair
-            subRes = matchingDFS(one, other, psOne, psOther, subMapping, subBackmapping);
+            if (psOne->numSuccessors != psOther->numSuccessors) continue;
+            // the steps below this pair are matched later, all under one common mapping
+            subOpen.push_back({psOne, psOther});
         }
 
+        map<int, set<planStep *>> subOtherNextTasks = otherNextTasks;
+        subOtherNextTasks[task].erase(psOther);
 
-        if (subRes) {
-            map<int, set<planStep *>> subOtherNextTasks = otherNextTasks;
-            subOtherNextTasks[task].erase(psOther);
-
-            // continue the extraction with the next task
-            if (matchingGenerate(one, other, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks))
-                return true;
-        }
+        // continue the extraction with the next task
+        if (matchingGenerate(one, other, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks, subOpen))
+            return true;
     }
 
     return false; // did not find any valid matching
 }
 
 bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping) {
+                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping,
+                 list<pair<planStep *, planStep *>> open) {
 	if (oneStep->numSuccessors != otherStep->numSuccessors) return false; // is not possible
-    if (oneStep->numSuccessors == 0) return true; // no successors, matching OK
+    if (oneStep->numSuccessors == 0) return matchingOpen(one, other, mapping, backmapping, open); // no successors, matching OK
 
 
     // groups the successors into buckets according to their task labels
@@ -246,7 +262,7 @@ bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep
 
     for (int t : tasks) if (oneNextTasks[t].size() != otherNextTasks[t].size()) return false;
 
-    return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+    return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks, open);
 }
 
 
@@ -270,7 +286,7 @@ bool matching(searchNode *one, searchNode *other) {
     mapping[oneHead] = otherHead;
     backmapping[otherHead] = oneHead;
 
-    bool result = matchingDFS(one, other, oneHead, otherHead, mapping, backmapping);
+    bool result = matchingDFS(one, other, oneHead, otherHead, mapping, backmapping, {});
 
     //delete oneHead;
     //delete otherHead;
-- 
2.43.0


From 9dd0c29ba95cb1de8205e390190375563dadfca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:57 +0000
Subject: [PATCH 17/83] fix: networks with forks or joins are not parallel
 sequences

---
 src/Model.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index e87e1c8..694dc5d 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -3069,11 +3069,11 @@ newlyReachedMLMs = new noDelIntSet();
 
 			if (notOneSuccessor > 1 || notOnePredecessor > 1) {
 				isTotallyOrdered = false;
-				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask) {
+				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask)
 					isUniquePaths = false;
-					if (notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
-						isParallelSequences = false;
-				}
+				// parallel sequences neither fork nor join
+				if (notZeroOrOneSuccessor || notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
+					isParallelSequences = false;
 			}
 		}
 
-- 
2.43.0


From 1bbbc94bf0e2ed5684cb77384eba40264187fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 18/83] fix: CUDD: Cudd_zddIthVar builds the variable for the
 current order, also when it is reordered on the way

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c | 45 +++++++++----------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
index fcc5eb0..fb9a44d 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
@@ -352,38 +352,35 @@ Cudd_zddIthVar(
     ** Above that level there are nodes with identical children.
     */
 
-    /* First we build the node at the level of index i. */
-    lower = (i < dd->sizeZ - 1) ? dd->univ[dd->permZ[i]+1] : DD_ONE(dd);
     do {
 	dd->reordered = 0;
+	/* First we build the node at the level of index i. */
+	lower = (i < dd->sizeZ && dd->permZ[i] < dd->sizeZ - 1) ?
+	    dd->univ[dd->permZ[i]+1] : DD_ONE(dd);
 	zvar = cuddUniqueInterZdd(dd, i, lower, DD_ZERO(dd));
-    } while (dd->reordered == 1);
-    if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
-        dd->timeoutHandler(dd, dd->tohArg);
-    }
-
-    if (zvar == NULL)
-	return(NULL);
-    cuddRef(zvar);
+	if (zvar == NULL)
+	    continue;
+	cuddRef(zvar);
 
-    /* Now we add the "filler" nodes above the level of index i. */
-    for (j = dd->permZ[i] - 1; j >= 0; j--) {
-	do {
-	    dd->reordered = 0;
+	/* Now we add the "filler" nodes above the level of index i. */
+	for (j = dd->permZ[i] - 1; j >= 0; j--) {
 	    res = cuddUniqueInterZdd(dd, dd->invpermZ[j], zvar, zvar);
-	} while (dd->reordered == 1);
-	if (res == NULL) {
+	    if (res == NULL) {
+		Cudd_RecursiveDerefZdd(dd,zvar);
+		zvar = NULL;
+		break;
+	    }
+	    cuddRef(res);
 	    Cudd_RecursiveDerefZdd(dd,zvar);
-            if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
-                dd->timeoutHandler(dd, dd->tohArg);
-            }
-	    return(NULL);
+	    zvar = res;
 	}
-	cuddRef(res);
-	Cudd_RecursiveDerefZdd(dd,zvar);
-	zvar = res;
+    } while (dd->reordered == 1);
+    if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
+        dd->timeoutHandler(dd, dd->tohArg);
     }
-    cuddDeref(zvar);
+
+    if (zvar != NULL)
+	cuddDeref(zvar);
     return(zvar);
 
 } /* end of Cudd_zddIthVar */
-- 
2.43.0


From dc74481f2192b6d31297b0432d9c787f23b4d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 19/83] fix: CUDD: Cudd_SplitSet passes failures on and
 releases its intermediate results

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
index f806f6d..9e82b45 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
@@ -193,7 +193,8 @@ Cudd_SplitSet(
         manager->timeoutHandler(manager, manager->tohArg);
     }
 
-    cuddDeref(result);
+    if (result)
+	cuddDeref(result);
     return(result);
 
 } /* end of Cudd_SplitSet */
@@ -302,6 +303,8 @@ cuddSplitSetRecur(
     }
 
     v = cuddUniqueInter(manager,variable,one,zero);
+    if (v == NULL)
+	return(NULL);
     cuddRef(v);
 
     /* If perfect match. */
@@ -503,6 +506,12 @@ selectMintermsFromUniverse(
     for (i = size-1; i >= 0; i--) {
 	if(varSeen[i] == 0) {
 	    vars[j] = cuddUniqueInter(manager,manager->perm[i],one,zero);
+	    if (vars[j] == NULL) {
+		while (j > 0)
+		    Cudd_RecursiveDeref(manager,vars[--j]);
+		FREE(vars);
+		return(NULL);
+	    }
 	    cuddRef(vars[j]);
 	    j++;
 	}
@@ -518,6 +527,8 @@ selectMintermsFromUniverse(
     for (i = 0; i < numVars; i++)
 	Cudd_RecursiveDeref(manager,vars[i]);
     FREE(vars);
+    if (result)
+	cuddDeref(result);
 
     return(result);
 
-- 
2.43.0


From eb46705208cd99623cffc5f0e940c9af4a95733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 20/83] fix: CUDD: a deleted or non-constant cached answer of
 Cudd_zddDiffConst is not dereferenced

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddCache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCache.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCache.c
index 010e486..d35aefc 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCache.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCache.c
@@ -555,7 +555,7 @@ cuddCacheLookup2Zdd(
     if (en->data != NULL && en->f==f && en->g==g && en->h==(ptruint)op) {
 	data = Cudd_Regular(en->data);
 	table->cacheHits++;
-	if (data->ref == 0) {
+	if (en->data != DD_NON_CONSTANT && data->ref == 0) {
 	    cuddReclaimZdd(table,data);
 	}
 	return(en->data);
-- 
2.43.0


From 8a74542605686880ad92de8cbc17c274224ba263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 21/83] fix: CUDD: keep the intermediate results of ZDD
 divisions and cofactors referenced while they are used

---
 .../cudd-3.0.0/cudd/cuddZddFuncs.c            | 68 ++++++++++++-------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
index 5f6d63c..9982e17 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -794,9 +794,9 @@ cuddZddWeakDiv(
     }
 
     if (g1 != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDiv(dd, f1, g1);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, fd);
@@ -806,17 +806,22 @@ cuddZddWeakDiv(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, f1);
 	Cudd_RecursiveDerefZdd(dd, g1);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
+		Cudd_RecursiveDerefZdd(dd, tmp);
 		Cudd_RecursiveDerefZdd(dd, fd);
 		Cudd_RecursiveDerefZdd(dd, gd);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -833,9 +838,9 @@ cuddZddWeakDiv(
     }
 
     if (gd != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDiv(dd, fd, gd);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
 	    return(NULL);
@@ -843,16 +848,20 @@ cuddZddWeakDiv(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, fd);
 	Cudd_RecursiveDerefZdd(dd, gd);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
 		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1029,9 +1038,9 @@ cuddZddWeakDivF(
     }
 
     if (g1 != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDivF(dd, f1, g1);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, fd);
@@ -1041,17 +1050,22 @@ cuddZddWeakDivF(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, f1);
 	Cudd_RecursiveDerefZdd(dd, g1);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
+		Cudd_RecursiveDerefZdd(dd, tmp);
 		Cudd_RecursiveDerefZdd(dd, fd);
 		Cudd_RecursiveDerefZdd(dd, gd);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1068,9 +1082,9 @@ cuddZddWeakDivF(
     }
 
     if (gd != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDivF(dd, fd, gd);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
 	    return(NULL);
@@ -1078,16 +1092,20 @@ cuddZddWeakDivF(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, fd);
 	Cudd_RecursiveDerefZdd(dd, gd);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
 		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1444,11 +1462,13 @@ cuddZddGetCofactors2(
     *f1 = cuddZddSubset1(dd, f, v);
     if (*f1 == NULL)
 	return(1);
+    Cudd_Ref(*f1);
     *f0 = cuddZddSubset0(dd, f, v);
     if (*f0 == NULL) {
 	Cudd_RecursiveDerefZdd(dd, *f1);
 	return(1);
     }
+    Cudd_Deref(*f1);
     return(0);
 
 } /* end of cuddZddGetCofactors2 */
-- 
2.43.0


From dd33a018d6ef46c49becb9db847e92921acfb73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 22/83] fix: CUDD: remove the dead nodes before reordering also
 if the time limit has passed

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index 6779800..5c7802b 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -757,7 +757,9 @@ cuddGarbageCollect(
 #endif
 #endif
 
-    if (util_cpu_time() - unique->startTime > unique->timeLimit) {
+    /* Reordering (clearCache == 0) relies on all dead nodes being removed. */
+    if (clearCache &&
+        util_cpu_time() - unique->startTime > unique->timeLimit) {
         unique->errorCode = CUDD_TIMEOUT_EXPIRED;
         return(0);
     }
-- 
2.43.0


From f905775ee3a3e939be07df5b380a446b97c3033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 23/83] fix: CUDD: do not fail if automatic reordering finds
 too few live nodes to reorder

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index 5c7802b..fc7be31 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -1189,6 +1189,7 @@ cuddUniqueInter(
     /* countDead is 0 if deads should be counted and ~0 if they should not. */
     if (unique->autoDyn &&
         unique->keys - (unique->dead & unique->countDead) >= unique->nextDyn &&
+        unique->keys - unique->dead >= 10 && /* else nothing is reordered */
         unique->maxReorderings > 0) {
         unsigned long cpuTime;
 #ifdef DD_DEBUG
@@ -1450,7 +1451,8 @@ cuddUniqueInterZdd(
 
     /* countDead is 0 if deads should be counted and ~0 if they should not. */
     if (unique->autoDynZ &&
-        unique->keysZ - (unique->deadZ & unique->countDead) >= unique->nextDyn) {
+        unique->keysZ - (unique->deadZ & unique->countDead) >= unique->nextDyn &&
+        unique->keysZ - unique->deadZ >= 10) { /* else nothing is reordered */
 #ifdef DD_DEBUG
 	retval = Cudd_DebugCheck(unique);
 	if (retval != 0) return(NULL);
-- 
2.43.0


From 9b5d92039803054eecbd8249af21f0fa7b2aaccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:37 +0000
Subject: [PATCH 24/83] fix: CUDD: clean up Cudd_bddCharToVect by index, also
 when the order has changed

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
index f999067..9fd6fc4 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
@@ -493,14 +493,21 @@ Cudd_bddCharToVect(
 	return(NULL);
     }
 
+    for (i = 0; i < dd->size; i++) {
+	vect[i] = NULL;
+    }
     do {
 	dd->reordered = 0;
 	for (i = 0; i < dd->size; i++) {
 	    res = cuddBddCharToVect(dd,f,dd->vars[dd->invperm[i]]);
 	    if (res == NULL) {
-		/* Clean up the vector array in case reordering took place. */
-		for (j = 0; j < i; j++) {
-		    Cudd_IterDerefBdd(dd, vect[dd->invperm[j]]);
+		/* Clean up the vector array in case reordering took place.
+		** The order may not be the one the array was filled in. */
+		for (j = 0; j < dd->size; j++) {
+		    if (vect[j] != NULL) {
+			Cudd_IterDerefBdd(dd, vect[j]);
+			vect[j] = NULL;
+		    }
 		}
 		break;
 	    }
-- 
2.43.0


From 13ff955ba8f21e5db294a264e0ef2dbfe903c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 25/83] fix: CUDD: two's complement residues, and residues
 while reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
index 789341d..025a39f 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -193,13 +193,17 @@ Cudd_addResidue(
 	/* Choose current and previous arrays. */
 	thisOne = k & 1;
 	previous = thisOne ^ 1;
+	/* Adjust residue for MSB, if this is a two's complement number. */
+	if (tc && (k == n - 1)) {
+	    residue = (m - residue) % m;
+	}
 	/* Build an ADD projection function. */
 	if (msbLsb) {
 	    index = top+n-k-1;
 	} else {
 	    index = top+k;
 	}
-	var = cuddUniqueInter(dd,index,DD_ONE(dd),DD_ZERO(dd));
+	var = Cudd_addIthVar(dd,index);
 	if (var == NULL) {
 	    for (j = 0; j < m; j++) {
 		Cudd_RecursiveDeref(dd,array[previous][j]);
@@ -233,10 +237,6 @@ Cudd_addResidue(
 	Cudd_RecursiveDeref(dd,var);
 	/* Update residue of 2**k. */
 	residue = (2 * residue) % m;
-	/* Adjust residue for MSB, if this is a two's complement number. */
-	if (tc && (k == n - 1)) {
-	    residue = (m - residue) % m;
-	}
     }
 
     /* We are only interested in the 0-residue node of the top layer. */
-- 
2.43.0


From 0ea0d83fb5b77ae9fe2becbed7ef9f46364c81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 26/83] fix: CUDD: arithmetic operators that fail in a terminal
 case make the operation fail

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
index d9de676..6591ae4 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
@@ -1031,6 +1031,8 @@ cuddAddApplyRecur(
     statLine(dd);
     res = (*op)(dd,&f,&g);
     if (res != NULL) return(res);
+    /* Op may also have failed in a terminal case. */
+    if (dd->reordered || (cuddIsConstant(f) && cuddIsConstant(g))) return(NULL);
 
     /* Check cache. */
     cacheOp = (DD_CTFP) op;
@@ -1108,6 +1110,8 @@ cuddAddMonadicApplyRecur(
     statLine(dd);
     res = (*op)(dd,f);
     if (res != NULL) return(res);
+    /* Op may also have failed in a terminal case. */
+    if (dd->reordered || cuddIsConstant(f)) return(NULL);
 
     /* Check cache. */
     res = cuddCacheLookup1(dd,op,f);
-- 
2.43.0


From 3165603851bf127243a6c7d8f3e0ac58b7f47438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 27/83] fix: CUDD: Cudd_addOuterSum passes failures on and does
 not reorder in its recursion

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
index 2b1e547..c1ceb36 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
@@ -633,6 +633,7 @@ cuddAddOuterSumRecur(
 
     if (cuddIsConstant(c) && cuddIsConstant(r)) {
 	R = cuddUniqueConst(dd,Cudd_V(c)+Cudd_V(r));
+	if (R == NULL) return(NULL);
 	cuddRef(R);
 	if (cuddIsConstant(M)) {
 	    if (cuddV(R) <= cuddV(M)) {
@@ -643,7 +644,11 @@ cuddAddOuterSumRecur(
 		return(M);
 	    }
 	} else {
-	    P = Cudd_addApply(dd,Cudd_addMinimum,R,M);
+	    P = cuddAddApplyRecur(dd,Cudd_addMinimum,R,M);
+	    if (P == NULL) {
+		Cudd_RecursiveDeref(dd,R);
+		return(NULL);
+	    }
 	    cuddRef(P);
 	    Cudd_RecursiveDeref(dd,R);
 	    cuddDeref(P);
-- 
2.43.0


From 47e410e2a0de0c34712757532ebfbe4904c847f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:32 +0000
Subject: [PATCH 28/83] fix: CUDD: Cudd_addNonSimCompose serves every index,
 keeps its counts and does not reorder in its recursion

---
 .../cudd-3.0.0/cudd/cuddCompose.c             | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
index cdcb5a6..fb52c61 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
@@ -656,7 +656,7 @@ Cudd_addNonSimCompose(
 {
     DdNode		*cube, *key, *var, *tmp, *piece;
     DdNode		*res;
-    int			i, lastsub;
+    int			i;
 
     /* The cache entry for this function is composed of three parts:
     ** f itself, the replacement relation, and the cube of the
@@ -698,6 +698,7 @@ Cudd_addNonSimCompose(
 	piece = Cudd_addApply(dd,Cudd_addXnor,var,vector[i]);
 	if (piece == NULL) {
 	    Cudd_RecursiveDeref(dd,key);
+	    Cudd_RecursiveDeref(dd,cube);
 	    Cudd_RecursiveDeref(dd,var);
 	    return(NULL);
 	}
@@ -706,6 +707,7 @@ Cudd_addNonSimCompose(
 	tmp = Cudd_addApply(dd,Cudd_addTimes,key,piece);
 	if (tmp == NULL) {
 	    Cudd_RecursiveDeref(dd,key);
+	    Cudd_RecursiveDeref(dd,cube);
 	    Cudd_RecursiveDeref(dd,piece);
 	    return(NULL);
 	}
@@ -715,18 +717,13 @@ Cudd_addNonSimCompose(
 	key = tmp;
     }
 
-    /* Now try composition, until no reordering occurs. */
+    /* Now try composition, until no reordering occurs. The recursion may
+    ** meet any variable above the deepest substitution, whatever its index.
+    */
     do {
-	/* Find real substitution with largest index. */
-	for (lastsub = dd->size - 1; lastsub >= 0; lastsub--) {
-	    if (!ddIsIthAddVar(dd,vector[lastsub],(unsigned int)lastsub)) {
-		break;
-	    }
-	}
-
 	/* Recursively solve the problem. */
 	dd->reordered = 0;
-	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,lastsub+1);
+	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,dd->size);
 	if (res != NULL) cuddRef(res);
 
     } while (dd->reordered == 1);
@@ -1491,7 +1488,7 @@ cuddAddNonSimComposeRecur(
 	** cache performance is severely affected. Hence we
 	** existentially quantify the variable with index "index" from key.
 	*/
-	var = Cudd_addIthVar(dd, (int) index);
+	var = cuddUniqueInter(dd,(int) index,DD_ONE(dd),DD_ZERO(dd));
 	if (var == NULL) {
 	    return(NULL);
 	}
-- 
2.43.0


From afa1ecb4e9969729954c186bc594da0411893bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:04 +0000
Subject: [PATCH 29/83] fix: CUDD: constants left by counting minterms do not
 stand in for zero

---
 .../cudd-3.0.0/cudd/cuddTable.c               | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index fc7be31..00cc64b 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -1516,7 +1516,7 @@ cuddUniqueConst(
 {
     int pos;
     DdNodePtr *nodelist;
-    DdNode *looking;
+    DdNode *looking, *close;
     hack split;
 
 #ifdef DD_UNIQUE_PROFILE
@@ -1557,19 +1557,28 @@ cuddUniqueConst(
      * infinite, since Infinity - Infinity is NaN and NaN < X is 0 for
      * every X.
      */
+    close = NULL;
     while (looking != NULL) {
-	if (looking->type.value == value ||
+	if (looking->type.value == value) {
+	    close = looking;
+	    break;
+	}
+	/* Constants created with a smaller epsilon may hide the exact one. */
+	if (close == NULL &&
 	ddEqualVal(looking->type.value,value,unique->epsilon)) {
-	    if (looking->ref == 0) {
-		cuddReclaim(unique,looking);
-	    }
-	    return(looking);
+	    close = looking;
 	}
 	looking = looking->next;
 #ifdef DD_UNIQUE_PROFILE
 	unique->uniqueLinks++;
 #endif
     }
+    if (close != NULL) {
+	if (close->ref == 0) {
+	    cuddReclaim(unique,close);
+	}
+	return(close);
+    }
 
     unique->keys++;
     unique->constants.keys++;
-- 
2.43.0


From c51fb10ce7f52542576aa58e8c725cee5a0f3268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:04 +0000
Subject: [PATCH 30/83] fix: CUDD: expand cubes to primes also when they are
 reordered on the way

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c | 56 ++++++++++++-------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
index bce24ee..b081b00 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
@@ -969,15 +969,43 @@ cuddBddMakePrime(
     DdNode *t, *e;
     DdNode *res = cube;
     DdNode *lzero = Cudd_Not(DD_ONE(dd));
+    int *indices;
+    int i, n;
 
-    Cudd_Ref(res);
+    /* Collect the variables of the cube first, because the cube may be
+    ** restructured by reordering while it is being expanded.
+    */
+    indices = ALLOC(int,dd->size + 1);
+    if (indices == NULL) {
+	dd->errorCode = CUDD_MEMORY_OUT;
+	return(NULL);
+    }
+    n = 0;
     scan = cube;
     while (!Cudd_IsConstantInt(scan)) {
-	DdNode *reg = Cudd_Regular(scan);
-	DdNode *var = dd->vars[reg->index];
+	indices[n++] = (int) Cudd_NodeReadIndex(scan);
+	cuddGetBranches(scan,&t,&e);
+	if (t == lzero) {
+	    scan = e;
+	} else if (e == lzero) {
+	    scan = t;
+	} else {
+	    FREE(indices);
+	    return(NULL);	/* cube is not a cube */
+	}
+    }
+    if (scan != DD_ONE(dd)) {
+	FREE(indices);
+	return(NULL);
+    }
+
+    Cudd_Ref(res);
+    for (i = 0; i < n; i++) {
+	DdNode *var = dd->vars[indices[i]];
 	DdNode *expanded = Cudd_bddExistAbstract(dd,res,var);
 	if (expanded == NULL) {
-            Cudd_RecursiveDeref(dd,res);
+	    Cudd_RecursiveDeref(dd,res);
+	    FREE(indices);
 	    return(NULL);
 	}
 	Cudd_Ref(expanded);
@@ -987,24 +1015,10 @@ cuddBddMakePrime(
 	} else {
 	    Cudd_RecursiveDeref(dd,expanded);
 	}
-	cuddGetBranches(scan,&t,&e);
-	if (t == lzero) {
-	    scan = e;
-	} else if (e == lzero) {
-	    scan = t;
-	} else {
-	    Cudd_RecursiveDeref(dd,res);
-	    return(NULL);	/* cube is not a cube */
-	}
-    }
-
-    if (scan == DD_ONE(dd)) {
-	Cudd_Deref(res);
-	return(res);
-    } else {
-	Cudd_RecursiveDeref(dd,res);
-	return(NULL);
     }
+    FREE(indices);
+    Cudd_Deref(res);
+    return(res);
 
 } /* end of cuddBddMakePrime */
 
-- 
2.43.0


From 689935ec73492059c880ec3e98bf0b819038d518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 31/83] fix: CUDD: count constants and ZDD nodes only once they
 have been allocated

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index 00cc64b..58eaee2 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -1479,11 +1479,10 @@ cuddUniqueInterZdd(
 	return(NULL);
     }
 
-    unique->keysZ++;
-    subtable->keys++;
-
     looking = cuddAllocNode(unique);
     if (looking == NULL) return(NULL);
+    unique->keysZ++;
+    subtable->keys++;
     looking->index = index;
     cuddT(looking) = T;
     cuddE(looking) = E;
@@ -1580,11 +1579,10 @@ cuddUniqueConst(
 	return(close);
     }
 
-    unique->keys++;
-    unique->constants.keys++;
-
     looking = cuddAllocNode(unique);
     if (looking == NULL) return(NULL);
+    unique->keys++;
+    unique->constants.keys++;
     looking->index = CUDD_CONST_INDEX;
     looking->type.value = value;
     looking->next = nodelist[pos];
-- 
2.43.0


From ba1fda67e0c669df57cdfdd68187a7af290f9ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 32/83] fix: CUDD: Cudd_zddDiffConst leaves dead results dead

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c
index 18172b8..8ed4ebc 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c
@@ -233,8 +233,16 @@ Cudd_zddDiffConst(
 
     /* Check cache.  The cache is shared by cuddZddDiff(). */
     res = cuddCacheLookup2Zdd(table, cuddZddDiff, P, Q);
-    if (res != NULL)
+    if (res != NULL) {
+	/* The lookup has brought a dead result back to life, but it is not
+	** going to be referenced.
+	*/
+	if (res != DD_NON_CONSTANT && res->ref == 0) {
+	    cuddRef(res);
+	    Cudd_RecursiveDerefZdd(zdd, res);
+	}
 	return(res);
+    }
 
     if (cuddIsConstant(P))
 	p_top = P->index;
-- 
2.43.0


From c4a768c50834ad906136e3b3b8d256e6b019f7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 33/83] fix: CUDD: Cudd_addPermute releases its intermediate
 results if it is interrupted

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
index fb52c61..585057c 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
@@ -1071,7 +1071,11 @@ cuddAddPermuteRecur(
     */
     index = permut[node->index];
     var = cuddUniqueInter(manager,index,DD_ONE(manager),DD_ZERO(manager));
-    if (var == NULL) return(NULL);
+    if (var == NULL) {
+	Cudd_RecursiveDeref(manager, T);
+	Cudd_RecursiveDeref(manager, E);
+	return(NULL);
+    }
     cuddRef(var);
     res = cuddAddIteRecur(manager,var,T,E);
     if (res == NULL) {
-- 
2.43.0


From 7e01bd223d045bfa2bc7f2e520a23c28e108ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:51 +0000
Subject: [PATCH 34/83] fix: CUDD: a failed allocation while tables of
 variables grow leaves the manager intact

---
 .../cudd-3.0.0/cudd/cuddTable.c               | 103 +++++++++++++-----
 1 file changed, 78 insertions(+), 25 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index 58eaee2..9643a22 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -1871,8 +1871,9 @@ cuddInsertSubtables(
   int  level)
 {
     DdSubtable *newsubtables;
-    DdNodePtr *newnodelist;
+    DdNodePtr *newnodelist, **newnodelists;
     DdNodePtr *newvars;
+    DdNodePtr *newstack = NULL;
     DdNode *sentinel = &(unique->sentinel);
     int oldsize,newsize;
     int i,j,index,reorderSave;
@@ -1887,6 +1888,24 @@ cuddInsertSubtables(
     oldsize = unique->size;
     /* Easy case: there is still room in the current table. */
     if (oldsize + n <= unique->maxSize) {
+	/* Allocate the new node lists first: once the tables have been
+	** shifted it is too late to fail. */
+	newnodelists = ALLOC(DdNodePtr *, n);
+	if (newnodelists == NULL) {
+	    unique->errorCode = CUDD_MEMORY_OUT;
+	    return(0);
+	}
+	for (i = 0; i < n; i++) {
+	    newnodelists[i] = ALLOC(DdNodePtr, numSlots);
+	    if (newnodelists[i] == NULL) {
+		unique->errorCode = CUDD_MEMORY_OUT;
+		for (j = 0; j < i; j++) {
+		    FREE(newnodelists[j]);
+		}
+		FREE(newnodelists);
+		return(0);
+	    }
+	}
 	/* Shift the tables at and below level. */
 	for (i = oldsize - 1; i >= level; i--) {
 	    unique->subtables[i+n].slots    = unique->subtables[i].slots;
@@ -1925,15 +1944,12 @@ cuddInsertSubtables(
 	    unique->perm[oldsize+i] = level + i;
 	    unique->invperm[level+i] = oldsize + i;
 	    newnodelist = unique->subtables[level+i].nodelist =
-		ALLOC(DdNodePtr, numSlots);
-	    if (newnodelist == NULL) {
-		unique->errorCode = CUDD_MEMORY_OUT;
-		return(0);
-	    }
+		newnodelists[i];
 	    for (j = 0; (unsigned) j < numSlots; j++) {
 		newnodelist[j] = sentinel;
 	    }
 	}
+	FREE(newnodelists);
 	if (unique->map != NULL) {
 	    for (i = 0; i < n; i++) {
 		unique->map[oldsize+i] = oldsize + i;
@@ -1987,10 +2003,22 @@ cuddInsertSubtables(
 		FREE(newinvperm);
 		return(0);
 	    }
-	    unique->memused += (newsize - unique->maxSize) * sizeof(int);
 	}
-	unique->memused += (newsize - unique->maxSize) * ((numSlots+1) *
-	    sizeof(DdNode *) + 2 * sizeof(int) + sizeof(DdSubtable));
+	/* The stack for iterative procedures. */
+	if (newsize > unique->maxSizeZ) {
+	    newstack = ALLOC(DdNodePtr,newsize + 1);
+	    if (newstack == NULL) {
+		unique->errorCode = CUDD_MEMORY_OUT;
+		FREE(newsubtables);
+		FREE(newvars);
+		FREE(newperm);
+		FREE(newinvperm);
+		if (newmap != NULL) {
+		    FREE(newmap);
+		}
+		return(0);
+	    }
+	}
 	/* Copy levels before insertion points from old tables. */
 	for (i = 0; i < level; i++) {
 	    newsubtables[i].slots = unique->subtables[i].slots;
@@ -2033,7 +2061,19 @@ cuddInsertSubtables(
 	    newinvperm[i] = oldsize + i - level;
 	    newnodelist = newsubtables[i].nodelist = ALLOC(DdNodePtr, numSlots);
 	    if (newnodelist == NULL) {
-		/* We are going to leak some memory.  We should clean up. */
+		for (j = level; j < i; j++) {
+		    FREE(newsubtables[j].nodelist);
+		}
+		FREE(newsubtables);
+		FREE(newvars);
+		FREE(newperm);
+		FREE(newinvperm);
+		if (newmap != NULL) {
+		    FREE(newmap);
+		}
+		if (newstack != NULL) {
+		    FREE(newstack);
+		}
 		unique->errorCode = CUDD_MEMORY_OUT;
 		return(0);
 	    }
@@ -2062,8 +2102,11 @@ cuddInsertSubtables(
 	    newinvperm[i+n]            = index;
 	    newperm[index]            += n;
 	}
+	unique->memused += (newsize - unique->maxSize) * ((numSlots+1) *
+	    sizeof(DdNode *) + 2 * sizeof(int) + sizeof(DdSubtable));
 	/* Update the map. */
 	if (unique->map != NULL) {
+	    unique->memused += (newsize - unique->maxSize) * sizeof(int);
 	    for (i = 0; i < oldsize; i++) {
 		newmap[i] = unique->map[i];
 	    }
@@ -2084,13 +2127,9 @@ cuddInsertSubtables(
 	FREE(unique->invperm);
 	unique->invperm = newinvperm;
 	/* Update the stack for iterative procedures. */
-	if (newsize > unique->maxSizeZ) {
+	if (newstack != NULL) {
 	    FREE(unique->stack);
-	    unique->stack = ALLOC(DdNodePtr,newsize + 1);
-	    if (unique->stack == NULL) {
-		unique->errorCode = CUDD_MEMORY_OUT;
-		return(0);
-	    }
+	    unique->stack = newstack;
 	    unique->stack[0] = NULL; /* to suppress harmless UMR */
 	    unique->memused +=
 		(newsize - ddMax(unique->maxSize,unique->maxSizeZ))
@@ -2380,12 +2419,13 @@ cuddResizeTableZdd(
 	unique->memused += (newsize - unique->maxSizeZ) * ((numSlots+1) *
 	    sizeof(DdNode *) + 2 * sizeof(int) + sizeof(DdSubtable));
 	if (newsize > unique->maxSize) {
-	    FREE(unique->stack);
-	    unique->stack = ALLOC(DdNodePtr,newsize + 1);
-	    if (unique->stack == NULL) {
+	    DdNodePtr *newstack = ALLOC(DdNodePtr,newsize + 1);
+	    if (newstack == NULL) {
 		unique->errorCode = CUDD_MEMORY_OUT;
 		return(0);
 	    }
+	    FREE(unique->stack);
+	    unique->stack = newstack;
 	    unique->stack[0] = NULL; /* to suppress harmless UMR */
 	    unique->memused +=
 		(newsize - ddMax(unique->maxSize,unique->maxSizeZ))
@@ -2702,9 +2742,8 @@ ddResizeTable(
 	unique->memused += (newsize - unique->maxSize) * ((numSlots+1) *
 	    sizeof(DdNode *) + 2 * sizeof(int) + sizeof(DdSubtable));
 	if (newsize > unique->maxSizeZ) {
-	    FREE(unique->stack);
-	    unique->stack = ALLOC(DdNodePtr,newsize + 1);
-	    if (unique->stack == NULL) {
+	    DdNodePtr *newstack = ALLOC(DdNodePtr,newsize + 1);
+	    if (newstack == NULL) {
 		FREE(newsubtables);
 		FREE(newvars);
 		FREE(newperm);
@@ -2715,6 +2754,8 @@ ddResizeTable(
 		unique->errorCode = CUDD_MEMORY_OUT;
 		return(0);
 	    }
+	    FREE(unique->stack);
+	    unique->stack = newstack;
 	    unique->stack[0] = NULL; /* to suppress harmless UMR */
 	    unique->memused +=
 		(newsize - ddMax(unique->maxSize,unique->maxSizeZ))
@@ -2756,6 +2797,16 @@ ddResizeTable(
 	    newinvperm[i] = i;
 	    newnodelist = newsubtables[i].nodelist = ALLOC(DdNodePtr, numSlots);
 	    if (newnodelist == NULL) {
+		for (j = oldsize; j < i; j++) {
+		    FREE(newsubtables[j].nodelist);
+		}
+		FREE(newsubtables);
+		FREE(newvars);
+		FREE(newperm);
+		FREE(newinvperm);
+		if (unique->map != NULL) {
+		    FREE(newmap);
+		}
 		unique->errorCode = CUDD_MEMORY_OUT;
 		return(0);
 	    }
@@ -2793,9 +2844,6 @@ ddResizeTable(
         zero = Cudd_Not(one);
 
         unique->size = index + 1;
-        if (unique->tree != NULL) {
-	    unique->tree->size = ddMax(unique->tree->size, (MtrHalfWord) unique->size);
-        }
         unique->slots += (index + 1 - oldsize) * numSlots;
         ddFixLimits(unique);
 
@@ -2811,6 +2859,8 @@ ddResizeTable(
                     unique->vars[j] = NULL;
                 }
                 for (j = oldsize; j <= index; j++) {
+                    unique->keys -= unique->subtables[j].keys;
+                    unique->dead -= unique->subtables[j].dead;
                     FREE(unique->subtables[j].nodelist);
                     unique->subtables[j].nodelist = NULL;
                 }
@@ -2822,6 +2872,9 @@ ddResizeTable(
             cuddRef(unique->vars[i]);
         }
         unique->autoDyn = reorderSave;
+        if (unique->tree != NULL) {
+	    unique->tree->size = ddMax(unique->tree->size, (MtrHalfWord) unique->size);
+        }
     }
 
     return(1);
-- 
2.43.0


From 825392d7b20d062cf0397ea73cdcf1a0eeb6d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:51 +0000
Subject: [PATCH 35/83] fix: CUDD: group trees and shuffling survive a failed
 allocation

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddGroup.c    | 4 ++++
 src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c  | 4 ++++
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddGroup.c | 4 ++++
 src/symbolic_search/cudd-3.0.0/mtr/mtrBasic.c      | 1 +
 4 files changed, 13 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGroup.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGroup.c
index a0be049..dde3bf1 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGroup.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGroup.c
@@ -218,6 +218,10 @@ cuddTreeSifting(
     tempTree = table->tree == NULL;
     if (tempTree) {
 	table->tree = Mtr_InitGroupTree(0,table->size);
+	if (table->tree == NULL) {
+	    table->errorCode = CUDD_MEMORY_OUT;
+	    return(0);
+	}
 	table->tree->index = table->invperm[0];
     }
     nvars = table->size;
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
index 267cc54..9f29e37 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
@@ -316,6 +316,10 @@ Cudd_ShuffleHeap(
     }
 
     perm = ALLOC(int, table->size);
+    if (perm == NULL) {
+	table->errorCode = CUDD_MEMORY_OUT;
+	return(0);
+    }
     for (i = 0; i < table->size; i++)
 	perm[permutation[i]] = i;
     if (!ddCheckPermuation(table,table->tree,perm,permutation)) {
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddGroup.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddGroup.c
index 2068891..ce13d78 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddGroup.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddGroup.c
@@ -200,6 +200,10 @@ cuddZddTreeSifting(
     tempTree = table->treeZ == NULL;
     if (tempTree) {
 	table->treeZ = Mtr_InitGroupTree(0,table->sizeZ);
+	if (table->treeZ == NULL) {
+	    table->errorCode = CUDD_MEMORY_OUT;
+	    return(0);
+	}
 	table->treeZ->index = table->invpermZ[0];
     }
     nvars = table->sizeZ;
diff --git a/src/symbolic_search/cudd-3.0.0/mtr/mtrBasic.c b/src/symbolic_search/cudd-3.0.0/mtr/mtrBasic.c
index fd98894..b04dfda 100644
--- a/src/symbolic_search/cudd-3.0.0/mtr/mtrBasic.c
+++ b/src/symbolic_search/cudd-3.0.0/mtr/mtrBasic.c
@@ -99,6 +99,7 @@ Mtr_AllocNode(void)
     MtrNode *node;
 
     node = ALLOC(MtrNode,1);
+    if (node == NULL) return(NULL);
     node->flags = node->low = node->size = node->index = 0;
     return node;
 
-- 
2.43.0


From 94b4e4a0add5f11f0da1c86cfb1c6ec7c051c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:51 +0000
Subject: [PATCH 36/83] fix: CUDD: Cudd_zddCount reports a failed allocation
 instead of adding it up

---
 .../cudd-3.0.0/cudd/cuddZddCount.c            | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddCount.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddCount.c
index a0a08a3..6f8546b 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddCount.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddCount.c
@@ -111,7 +111,10 @@ Cudd_zddCount(
     base  = DD_ONE(zdd);
     empty = DD_ZERO(zdd);
     table = st_init_table(st_ptrcmp, st_ptrhash);
-    if (table == NULL) return(CUDD_OUT_OF_MEM);
+    if (table == NULL) {
+	zdd->errorCode = CUDD_MEMORY_OUT;
+	return(CUDD_OUT_OF_MEM);
+    }
     res = cuddZddCountStep(P, table, base, empty);
     if (res == CUDD_OUT_OF_MEM) {
 	zdd->errorCode = CUDD_MEMORY_OUT;
@@ -149,7 +152,10 @@ Cudd_zddCountDouble(
     base  = DD_ONE(zdd);
     empty = DD_ZERO(zdd);
     table = st_init_table(st_ptrcmp, st_ptrhash);
-    if (table == NULL) return((double)CUDD_OUT_OF_MEM);
+    if (table == NULL) {
+	zdd->errorCode = CUDD_MEMORY_OUT;
+	return((double)CUDD_OUT_OF_MEM);
+    }
     res = cuddZddCountDoubleStep(P, table, base, empty);
     if (res == (double)CUDD_OUT_OF_MEM) {
 	zdd->errorCode = CUDD_MEMORY_OUT;
@@ -185,7 +191,7 @@ cuddZddCountStep(
   DdNode * base,
   DdNode * empty)
 {
-    int		res;
+    int		res, resT;
     int		*dummy;
 
     if (P == empty)
@@ -199,8 +205,11 @@ cuddZddCountStep(
 	return(res);
     }
 
-    res = cuddZddCountStep(cuddE(P), table, base, empty) +
-	cuddZddCountStep(cuddT(P), table, base, empty);
+    res = cuddZddCountStep(cuddE(P), table, base, empty);
+    if (res == CUDD_OUT_OF_MEM) return(CUDD_OUT_OF_MEM);
+    resT = cuddZddCountStep(cuddT(P), table, base, empty);
+    if (resT == CUDD_OUT_OF_MEM) return(CUDD_OUT_OF_MEM);
+    res += resT;
 
     dummy = ALLOC(int, 1);
     if (dummy == NULL) {
@@ -230,7 +239,7 @@ cuddZddCountDoubleStep(
   DdNode * base,
   DdNode * empty)
 {
-    double	res;
+    double	res, resT;
     double	*dummy;
 
     if (P == empty)
@@ -244,8 +253,11 @@ cuddZddCountDoubleStep(
 	return(res);
     }
 
-    res = cuddZddCountDoubleStep(cuddE(P), table, base, empty) +
-	cuddZddCountDoubleStep(cuddT(P), table, base, empty);
+    res = cuddZddCountDoubleStep(cuddE(P), table, base, empty);
+    if (res == (double)CUDD_OUT_OF_MEM) return((double)CUDD_OUT_OF_MEM);
+    resT = cuddZddCountDoubleStep(cuddT(P), table, base, empty);
+    if (resT == (double)CUDD_OUT_OF_MEM) return((double)CUDD_OUT_OF_MEM);
+    res += resT;
 
     dummy = ALLOC(double, 1);
     if (dummy == NULL) {
-- 
2.43.0


From 14833b20a4c9466a5c4d06898329d290f4915404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 37/83] fix: CUDD: the death row survives a failed allocation

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c | 9 +++++++--
 src/symbolic_search/cudd-3.0.0/cudd/cuddRef.c | 7 +++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
index fb9a44d..b0f0cb5 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
@@ -1000,8 +1000,13 @@ Cudd_AutodynEnable(
     if ((unsigned) unique->nextDead > unique->deadMask) {
 	unique->nextDead = 0;
     }
-    unique->deathRow = REALLOC(DdNodePtr, unique->deathRow,
-	unique->deathRowDepth);
+    {
+	DdNodePtr *newRow = REALLOC(DdNodePtr, unique->deathRow,
+				    unique->deathRowDepth);
+	if (newRow != NULL) {	/* otherwise keep the larger one */
+	    unique->deathRow = newRow;
+	}
+    }
 #endif
     return;
 
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddRef.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddRef.c
index 53dee8e..ca622cb 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddRef.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddRef.c
@@ -642,6 +642,7 @@ cuddShrinkDeathRow(
 {
 #ifndef DD_NO_DEATH_ROW
     int i;
+    DdNodePtr *newRow;
 
     if (table->deathRowDepth > 3) {
 	for (i = table->deathRowDepth/4; i < table->deathRowDepth; i++) {
@@ -654,8 +655,10 @@ cuddShrinkDeathRow(
 	if ((unsigned) table->nextDead > table->deadMask) {
 	    table->nextDead = 0;
 	}
-	table->deathRow = REALLOC(DdNodePtr, table->deathRow,
-				   table->deathRowDepth);
+	newRow = REALLOC(DdNodePtr, table->deathRow, table->deathRowDepth);
+	if (newRow != NULL) {	/* otherwise keep the larger one */
+	    table->deathRow = newRow;
+	}
     }
 #endif
 
-- 
2.43.0


From 70aa92d83ddfaa854ab83d381a174b10652b35f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 38/83] fix: CUDD: Cudd_Init releases everything when it fails

---
 .../cudd-3.0.0/cudd/cuddInit.c                | 26 ++++++++++---------
 .../cudd-3.0.0/cudd/cuddTable.c               | 12 +++++++++
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInit.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddInit.c
index 18f918f..ffcbeb3 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInit.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInit.c
@@ -125,7 +125,7 @@ Cudd_Init(
     maxCacheSize = (unsigned int) ((maxMemory / sizeof(DdCache)) /
 				   DD_MAX_CACHE_FRACTION);
     result = cuddInitCache(unique,cacheSize,maxCacheSize);
-    if (result == 0) return(NULL);
+    if (result == 0) goto failure;
 
     saveHandler = MMoutOfMemory;
     MMoutOfMemory = unique->outOfMemCallback;
@@ -137,10 +137,10 @@ Cudd_Init(
 
     /* Initialize constants. */
     unique->one = cuddUniqueConst(unique,1.0);
-    if (unique->one == NULL) return(0);
+    if (unique->one == NULL) goto failure;
     cuddRef(unique->one);
     unique->zero = cuddUniqueConst(unique,0.0);
-    if (unique->zero == NULL) return(0);
+    if (unique->zero == NULL) goto failure;
     cuddRef(unique->zero);
 #ifdef HAVE_IEEE_754
     if (DD_PLUS_INF_VAL != DD_PLUS_INF_VAL * 3 ||
@@ -150,10 +150,10 @@ Cudd_Init(
     }
 #endif
     unique->plusinfinity = cuddUniqueConst(unique,DD_PLUS_INF_VAL);
-    if (unique->plusinfinity == NULL) return(0);
+    if (unique->plusinfinity == NULL) goto failure;
     cuddRef(unique->plusinfinity);
     unique->minusinfinity = cuddUniqueConst(unique,DD_MINUS_INF_VAL);
-    if (unique->minusinfinity == NULL) return(0);
+    if (unique->minusinfinity == NULL) goto failure;
     cuddRef(unique->minusinfinity);
     unique->background = unique->zero;
 
@@ -162,23 +162,25 @@ Cudd_Init(
     zero = Cudd_Not(one);
     /* Create the projection functions. */
     unique->vars = ALLOC(DdNodePtr,unique->maxSize);
-    if (unique->vars == NULL) {
-	unique->errorCode = CUDD_MEMORY_OUT;
-	return(NULL);
-    }
+    if (unique->vars == NULL) goto failure;
     for (i = 0; i < unique->size; i++) {
 	unique->vars[i] = cuddUniqueInter(unique,i,one,zero);
-	if (unique->vars[i] == NULL) return(0);
+	if (unique->vars[i] == NULL) goto failure;
 	cuddRef(unique->vars[i]);
     }
 
-    if (unique->sizeZ)
-	cuddZddInitUniv(unique);
+    if (unique->sizeZ) {
+	if (!cuddZddInitUniv(unique)) goto failure;
+    }
 
     unique->memused += sizeof(DdNode *) * unique->maxSize;
 
     return(unique);
 
+failure:
+    cuddFreeTable(unique);
+    return(NULL);
+
 } /* end of Cudd_Init */
 
 
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index 9643a22..13a3ffe 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -492,6 +492,9 @@ cuddInitTable(
 	    FREE(unique->permZ);
 	    FREE(unique->invpermZ);
 	    FREE(unique->stack);
+#ifndef DD_NO_DEATH_ROW
+	    FREE(unique->deathRow);
+#endif
 	    FREE(unique);
 	    return(NULL);
 	}
@@ -523,6 +526,9 @@ cuddInitTable(
 	    FREE(unique->permZ);
 	    FREE(unique->invpermZ);
 	    FREE(unique->stack);
+#ifndef DD_NO_DEATH_ROW
+	    FREE(unique->deathRow);
+#endif
 	    FREE(unique);
 	    return(NULL);
 	}
@@ -558,6 +564,9 @@ cuddInitTable(
 	FREE(unique->permZ);
 	FREE(unique->invpermZ);
 	FREE(unique->stack);
+#ifndef DD_NO_DEATH_ROW
+	FREE(unique->deathRow);
+#endif
 	FREE(unique);
 	return(NULL);
     }
@@ -567,6 +576,9 @@ cuddInitTable(
 
     unique->memoryList = NULL;
     unique->nextFree = NULL;
+    unique->stash = NULL;
+    unique->acache = NULL;
+    unique->vars = NULL;
 
     unique->memused = sizeof(DdManager) + (unique->maxSize + unique->maxSizeZ)
 	* (sizeof(DdSubtable) + 2 * sizeof(int)) + (numVars + 1) *
-- 
2.43.0


From d09a732a5efb8a884866d68b2aa7e5cd3e3e6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:04 +0000
Subject: [PATCH 39/83] fix: CUDD: the interaction matrix is released when
 reordering does not start

---
 .../cudd-3.0.0/cudd/cuddInteract.c             |  2 +-
 .../cudd-3.0.0/cudd/cuddReorder.c              | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInteract.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddInteract.c
index 0106fa4..b4282a9 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInteract.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInteract.c
@@ -234,7 +234,7 @@ cuddInitInteract(
     support = ALLOC(char,n);
     if (support == NULL) {
 	table->errorCode = CUDD_MEMORY_OUT;
-	FREE(interact);
+	FREE(table->interact);
 	return(0);
     }
     for (i = 0; i < n; i++) {
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
index 9f29e37..8d1c879 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
@@ -310,11 +310,6 @@ Cudd_ShuffleHeap(
     if (identity == 1) {
 	return(1);
     }
-    if (!ddReorderPreprocess(table)) return(0);
-    if (table->keys > table->peakLiveNodes) {
-	table->peakLiveNodes = table->keys;
-    }
-
     perm = ALLOC(int, table->size);
     if (perm == NULL) {
 	table->errorCode = CUDD_MEMORY_OUT;
@@ -326,8 +321,16 @@ Cudd_ShuffleHeap(
 	FREE(perm);
 	return(0);
     }
+    if (!ddReorderPreprocess(table)) {
+	FREE(perm);
+	return(0);
+    }
+    if (table->keys > table->peakLiveNodes) {
+	table->peakLiveNodes = table->keys;
+    }
     if (!ddUpdateMtrTree(table,table->tree,perm,permutation)) {
 	FREE(perm);
+	(void) ddReorderPostprocess(table);
 	return(0);
     }
     FREE(perm);
@@ -1238,7 +1241,10 @@ cuddBddAlignToZdd(
 
     /* Initialize the interaction matrix. */
     result = cuddInitInteract(table);
-    if (result == 0) return(0);
+    if (result == 0) {
+	FREE(invperm);
+	return(0);
+    }
 
     result = ddShuffle(table, invperm);
     FREE(invperm);
-- 
2.43.0


From f09971a2672e069b54f07c1a5b90794ac4ddc065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 40/83] fix: CUDD: EXACT reordering stays within its tables

---
 .../cudd-3.0.0/cudd/cuddExact.c               | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
index 0e07eb2..056effb 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
@@ -120,7 +120,7 @@ cuddExact(
     int maxBinomial, oldSubsets, newSubsets;
     int subsetCost;
     int size;			/* number of variables to be reordered */
-    int unused, nvars, level, result;
+    int nvars, level, result;
     int upperBound, lowerBound, cost;
     int roots;
     char *mask = NULL;
@@ -163,17 +163,10 @@ cuddExact(
     /* Initialization. */
     nvars = table->size;
     size = upper - lower + 1;
-    /* Count unused variable among those to be reordered.  This is only
-    ** used to compute maxBinomial. */
-    unused = 0;
-    for (i = lower + 1; i < upper; i++) {
-	if (table->subtables[i].keys == 1 &&
-	    table->vars[table->invperm[i]]->ref == 1)
-	    unused++;
-    }
-
-    /* Find the maximum number of subsets we may have to store. */
-    maxBinomial = getMaxBinomial(size - unused);
+    /* Find the maximum number of subsets we may have to store.
+    ** Unused variables are skipped below, but those that are already at the
+    ** bottom of an order still enter its subset. */
+    maxBinomial = getMaxBinomial(size);
     if (maxBinomial == -1) goto cuddExactOutOfMem;
 
     newOrder = getMatrix(maxBinomial, size);
@@ -238,7 +231,7 @@ cuddExact(
 	    /* For each top bottom variable. */
 	    for (j = level; j >= 0; j--) {
 		/* Skip unused variables. */
-		if (table->subtables[j+lower-1].keys == 1 &&
+		if (j > 0 && table->subtables[j+lower-1].keys == 1 &&
 		    table->vars[table->invperm[j+lower-1]]->ref == 1) continue;
 		/* Find cost under this order. */
 		subsetCost = cost + getLevelKeys(table, lower + level);
-- 
2.43.0


From 89475d7c469381e9402090937f1bb5b1ffc0b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 41/83] fix: CUDD: shortest paths survive a failed allocation

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c | 65 ++++++++++++++++---
 1 file changed, 56 insertions(+), 9 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
index b081b00..cb84653 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
@@ -198,6 +198,10 @@ Cudd_ShortestPath(
 
 	/* Initialize visited table. */
 	visited = st_init_table(st_ptrcmp, st_ptrhash);
+	if (visited == NULL) {
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 
 	/* Now get the length of the shortest path(s) from f to 1. */
 	(void) getShortest(manager, f, weight, support, visited);
@@ -206,7 +210,12 @@ Cudd_ShortestPath(
 
 	F = Cudd_Regular(f);
 
-	if (!st_lookup(visited, F, (void **) &rootPair)) return(NULL);
+	if (!st_lookup(visited, F, (void **) &rootPair)) {
+	    st_foreach(visited, freePathPair, NULL);
+	    st_free_table(visited);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 
 	if (complement) {
 	  cost = rootPair->neg;
@@ -276,6 +285,10 @@ Cudd_LargestCube(
 
 	/* Initialize visited table. */
 	visited = st_init_table(st_ptrcmp, st_ptrhash);
+	if (visited == NULL) {
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 
 	/* Now get the length of the shortest path(s) from f to 1. */
 	(void) getLargest(manager, f, visited);
@@ -284,7 +297,12 @@ Cudd_LargestCube(
 
 	F = Cudd_Regular(f);
 
-	if (!st_lookup(visited, F, (void **) &rootPair)) return(NULL);
+	if (!st_lookup(visited, F, (void **) &rootPair)) {
+	    st_foreach(visited, freePathPair, NULL);
+	    st_free_table(visited);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 
 	if (complement) {
 	  cost = rootPair->neg;
@@ -348,6 +366,10 @@ Cudd_ShortestLength(
     /* From this point on, a path exists. */
     /* Initialize visited table and support. */
     visited = st_init_table(st_ptrcmp, st_ptrhash);
+    if (visited == NULL) {
+	manager->errorCode = CUDD_MEMORY_OUT;
+	return(CUDD_OUT_OF_MEM);
+    }
 
     /* Now get the length of the shortest path(s) from f to 1. */
     (void) getShortest(manager, f, weight, NULL, visited);
@@ -356,7 +378,12 @@ Cudd_ShortestLength(
 
     F = Cudd_Regular(f);
 
-    if (!st_lookup(visited, F, (void **) &my_pair)) return(CUDD_OUT_OF_MEM);
+    if (!st_lookup(visited, F, (void **) &my_pair)) {
+	st_foreach(visited, freePathPair, NULL);
+	st_free_table(visited);
+	manager->errorCode = CUDD_MEMORY_OUT;
+	return(CUDD_OUT_OF_MEM);
+    }
     
     if (complement) {
 	cost = my_pair->neg;
@@ -1134,7 +1161,6 @@ getShortest(
     my_pair->pos = res_pair.pos;
     my_pair->neg = res_pair.neg;
 
-    st_insert(visited, my_root, my_pair);
     if (Cudd_IsComplement(root)) {
 	res_pair.pos = my_pair->neg;
 	res_pair.neg = my_pair->pos;
@@ -1142,6 +1168,9 @@ getShortest(
 	res_pair.pos = my_pair->pos;
 	res_pair.neg = my_pair->neg;
     }
+    if (st_insert(visited, my_root, my_pair) == ST_OUT_OF_MEM) {
+	FREE(my_pair);
+    }
     return(res_pair);
 
 } /* end of getShortest */
@@ -1191,7 +1220,11 @@ getPath(
 
 	if (complement) {T = Cudd_Not(T); E = Cudd_Not(E);}
 
-	st_lookup(visited, Cudd_Regular(T), (void **) &T_pair);
+	if (!st_lookup(visited, Cudd_Regular(T), (void **) &T_pair)) {
+	    Cudd_RecursiveDeref(manager,sol);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 	if ((Cudd_IsComplement(T) && T_pair->neg == Tcost) ||
 	(!Cudd_IsComplement(T) && T_pair->pos == Tcost)) {
 	    tmp = cuddBddAndRecur(manager,manager->vars[my_dd->index],sol);
@@ -1208,7 +1241,11 @@ getPath(
 	    cost = Tcost;
 	    continue;
 	}
-	st_lookup(visited, Cudd_Regular(E), (void **) &E_pair);
+	if (!st_lookup(visited, Cudd_Regular(E), (void **) &E_pair)) {
+	    Cudd_RecursiveDeref(manager,sol);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 	if ((Cudd_IsComplement(E) && E_pair->neg == Ecost) ||
 	(!Cudd_IsComplement(E) && E_pair->pos == Ecost)) {
 	    tmp = cuddBddAndRecur(manager,Cudd_Not(manager->vars[my_dd->index]),sol);
@@ -1311,7 +1348,6 @@ getLargest(
     my_pair->neg = res_pair.neg;
 
     /* Caching may fail without affecting correctness. */
-    st_insert(visited, my_root, my_pair);
     if (Cudd_IsComplement(root)) {
 	res_pair.pos = my_pair->neg;
 	res_pair.neg = my_pair->pos;
@@ -1319,6 +1355,9 @@ getLargest(
 	res_pair.pos = my_pair->pos;
 	res_pair.neg = my_pair->neg;
     }
+    if (st_insert(visited, my_root, my_pair) == ST_OUT_OF_MEM) {
+	FREE(my_pair);
+    }
     return(res_pair);
 
 } /* end of getLargest */
@@ -1367,7 +1406,11 @@ getCube(
 
 	if (complement) {T = Cudd_Not(T); E = Cudd_Not(E);}
 
-	if (!st_lookup(visited, Cudd_Regular(T), (void **)&T_pair)) return(NULL);
+	if (!st_lookup(visited, Cudd_Regular(T), (void **)&T_pair)) {
+	    Cudd_RecursiveDeref(manager,sol);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 	if ((Cudd_IsComplement(T) && T_pair->neg == Tcost) ||
 	(!Cudd_IsComplement(T) && T_pair->pos == Tcost)) {
 	    tmp = cuddBddAndRecur(manager,manager->vars[my_dd->index],sol);
@@ -1384,7 +1427,11 @@ getCube(
 	    cost = Tcost;
 	    continue;
 	}
-	if (!st_lookup(visited, Cudd_Regular(E), (void **)&E_pair)) return(NULL);
+	if (!st_lookup(visited, Cudd_Regular(E), (void **)&E_pair)) {
+	    Cudd_RecursiveDeref(manager,sol);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 	if ((Cudd_IsComplement(E) && E_pair->neg == Ecost) ||
 	(!Cudd_IsComplement(E) && E_pair->pos == Ecost)) {
 	    tmp = cuddBddAndRecur(manager,Cudd_Not(manager->vars[my_dd->index]),sol);
-- 
2.43.0


From e38aafac959b5c28750ee3c253de7d3b0af59f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 42/83] fix: CUDD: correlation reports a failed allocation
 instead of adding it up

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddBddCorr.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddBddCorr.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddBddCorr.c
index efce7dd..d688a3c 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddBddCorr.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddBddCorr.c
@@ -261,21 +261,22 @@ bddCorrelationAux(
 	Gnv = Cudd_Not(Gnv);
     }
 
-    min1 = bddCorrelationAux(dd, Fv, Gv, table) / 2.0;
+    min1 = bddCorrelationAux(dd, Fv, Gv, table);
     if (min1 == (double)CUDD_OUT_OF_MEM) {
 	FREE(entry);
 	return(CUDD_OUT_OF_MEM);
     }
-    min2 = bddCorrelationAux(dd, Fnv, Gnv, table) / 2.0; 
+    min2 = bddCorrelationAux(dd, Fnv, Gnv, table);
     if (min2 == (double)CUDD_OUT_OF_MEM) {
 	FREE(entry);
 	return(CUDD_OUT_OF_MEM);
     }
-    min = (min1+min2);
+    min = min1 / 2.0 + min2 / 2.0;
     
     pmin = ALLOC(double,1);
     if (pmin == NULL) {
 	dd->errorCode = CUDD_MEMORY_OUT;
+	FREE(entry);
 	return((double)CUDD_OUT_OF_MEM);
     }
     *pmin = min;
@@ -369,21 +370,22 @@ bddCorrelationWeightsAux(
 	Gnv = Cudd_Not(Gnv);
     }
 
-    min1 = bddCorrelationWeightsAux(dd, Fv, Gv, prob, table) * prob[index];
+    min1 = bddCorrelationWeightsAux(dd, Fv, Gv, prob, table);
     if (min1 == (double)CUDD_OUT_OF_MEM) {
 	FREE(entry);
 	return((double)CUDD_OUT_OF_MEM);
     }
-    min2 = bddCorrelationWeightsAux(dd, Fnv, Gnv, prob, table) * (1.0 - prob[index]); 
+    min2 = bddCorrelationWeightsAux(dd, Fnv, Gnv, prob, table);
     if (min2 == (double)CUDD_OUT_OF_MEM) {
 	FREE(entry);
 	return((double)CUDD_OUT_OF_MEM);
     }
-    min = (min1+min2);
+    min = min1 * prob[index] + min2 * (1.0 - prob[index]);
     
     pmin = ALLOC(double,1);
     if (pmin == NULL) {
 	dd->errorCode = CUDD_MEMORY_OUT;
+	FREE(entry);
 	return((double)CUDD_OUT_OF_MEM);
     }
     *pmin = min;
-- 
2.43.0


From 0cc02da148ca28e11db5f46f50af1c6c9e7aca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 43/83] fix: CUDD: picking minterms reports a failed allocation

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
index b8159b5..276763d 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
@@ -1507,7 +1507,7 @@ Cudd_bddPickArbitraryMinterms(
 	string[i] = ALLOC(char, size + 1);
 	if (string[i] == NULL) {
 	    for (j = 0; j < i; j++)
-		FREE(string[i]);
+		FREE(string[j]);
 	    FREE(string);
 	    dd->errorCode = CUDD_MEMORY_OUT;
 	    return(NULL);
@@ -3928,10 +3928,12 @@ ddPickArbitraryMinterms(
 	T = Cudd_Not(T); E = Cudd_Not(E);
     }
 
-    min1 = Cudd_CountMinterm(dd, T, nvars) / 2.0;
+    min1 = Cudd_CountMinterm(dd, T, nvars);
     if (min1 == (double)CUDD_OUT_OF_MEM) return(0);
-    min2 = Cudd_CountMinterm(dd, E, nvars) / 2.0;
+    min1 /= 2.0;
+    min2 = Cudd_CountMinterm(dd, E, nvars);
     if (min2 == (double)CUDD_OUT_OF_MEM) return(0);
+    min2 /= 2.0;
 
     t = (int)((double)nminterms * min1 / (min1 + min2) + 0.5);
     for (i = 0; i < t; i++)
-- 
2.43.0


From 345583932ddb46b26d3015140961483ea6b03409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 44/83] fix: CUDD: random-pivot reordering stays within its
 group

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
index 8d1c879..6b5e7bc 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
@@ -609,7 +609,7 @@ cuddSwapping(
 		x = lower;
 	    } else{
 		do {
-		    x = (int) Cudd_Random(table) % modulo;
+		    x = ((int) Cudd_Random(table) % modulo) + lower;
 		} while (x == y);
 	    }
 	} else {
-- 
2.43.0


From 0f7aea7b88b0db1ee728b46dfd6f4d45c47e75cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 45/83] fix: CUDD: addXeqy and addWalsh check the result they
 just computed

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c | 2 +-
 src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
index 025a39f..4243e3c 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -355,7 +355,7 @@ addWalshInt(
 	    }
 	    cuddRef(w);
 	    t = Cudd_addIte(dd, x[i], w, t1);
-	    if (u == NULL) {
+	    if (t == NULL) {
 		Cudd_RecursiveDeref(dd, u1);
 		Cudd_RecursiveDeref(dd, t1);
 		Cudd_RecursiveDeref(dd, u);
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
index dfb530f..cd55230 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
@@ -411,7 +411,7 @@ Cudd_addXeqy(
 	cuddRef(w);
 	Cudd_RecursiveDeref(dd, u);
 	u = Cudd_addIte(dd, x[i], v, w);
-	if (w == NULL) {
+	if (u == NULL) {
 	    Cudd_RecursiveDeref(dd, v);
 	    Cudd_RecursiveDeref(dd, w);
 	    return(NULL);
-- 
2.43.0


From 795fdbdc6a5d4680875f3b86e6965b77bf3817d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:56 +0000
Subject: [PATCH 46/83] fix: CUDD: genetic reordering picks both parents from
 the population

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddGenetic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenetic.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenetic.c
index a818225..b5ff124 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenetic.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenetic.c
@@ -879,7 +879,7 @@ roulette(
     ** the sum of all fitness values. 2147483561 is the largest number
     ** returned by Cudd_Random.
     */
-    spin = wheel[info->numvars-1] * (double) Cudd_Random(dd) / 2147483561.0;
+    spin = wheel[info->popsize-1] * (double) Cudd_Random(dd) / 2147483561.0;
 
     /* Find the lucky element by scanning the wheel. */
     for (i = 0; i < info->popsize; i++) {
-- 
2.43.0


From 4fcea4ee206a5d9dc3eaf163cb83feeba46fad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 47/83] fix: CUDD: symmetric sifting of ZDDs finds the top of a
 group that has grown

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
index 3ebdd0e..5a22921 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
@@ -625,8 +625,11 @@ cuddZddSymmSiftingAux(
 	       pass */
             if (move_down != NULL)
 		x = move_down->y;
-	    else
+	    else {
+		while ((unsigned) x < table->subtableZ[x].next)
+		    x = table->subtableZ[x].next;
 		x = table->subtableZ[x].next;
+	    }
 	    i = x;
 	    while ((unsigned) i < table->subtableZ[i].next) {
 		i = table->subtableZ[i].next;
@@ -723,6 +726,8 @@ cuddZddSymmSiftingAux(
 	    x = move_down->y;
 	}
 	else {
+	    while ((unsigned) x < table->subtableZ[x].next)
+		x = table->subtableZ[x].next;
 	    x = table->subtableZ[x].next;
 	}
 	i = x;
@@ -810,6 +815,8 @@ cuddZddSymmSiftingAux(
 		x = move_down->y;
 	    }
 	    else {
+		while ((unsigned) x < table->subtableZ[x].next)
+		    x = table->subtableZ[x].next;
 		x = table->subtableZ[x].next;
 	    }
 	    i = x;
-- 
2.43.0


From 06566a1aa8151bda71bec818d85ca7f05bc336ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:11 +0000
Subject: [PATCH 48/83] fix: CUDD: symmetric sifting fails cleanly if its
 second pass runs out of memory

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSymmetry.c | 2 ++
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSymmetry.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSymmetry.c
index 61b6c51..87e01f5 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSymmetry.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSymmetry.c
@@ -1604,6 +1604,8 @@ ddSymmSiftingBackward(
     Move *move;
     int  res;
 
+    if (moves == MV_OOM) return(0);
+
     for (move = moves; move != NULL; move = move->next) {
 	if (move->size < size) {
 	    size = move->size;
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
index 5a22921..b42a41f 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
@@ -1391,6 +1391,8 @@ cuddZddSymmSiftingBackward(
     Move	*move;
     int		res;
 
+    if (moves == ZDD_MV_OOM) return(0);
+
     i_best = -1;
     for (move = moves, i = 0; move != NULL; move = move->next, i++) {
 	if (move->size < size) {
-- 
2.43.0


From 8eb833a02d2509a4e54f8c6348ee2c49f1cbbed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 49/83] fix: CUDD: ZDD divisions release their intermediate
 result if they are interrupted

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
index 9982e17..828908c 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -1188,6 +1188,7 @@ cuddZddDivide(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(q);
@@ -1198,6 +1199,7 @@ cuddZddDivide(
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
 	    Cudd_RecursiveDerefZdd(dd, q);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(r);
@@ -1285,6 +1287,7 @@ cuddZddDivideF(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(q);
@@ -1295,6 +1298,7 @@ cuddZddDivideF(
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
 	    Cudd_RecursiveDerefZdd(dd, q);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(r);
-- 
2.43.0


From dd8327afe3526d69464769baec5ca8a684770416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 50/83] fix: CUDD: Cudd_bddSqueeze passes interruptions of its
 recursion on

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
index 9fd6fc4..1a324a5 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
@@ -2048,6 +2048,8 @@ cuddBddSqueeze(
     } else if ((le == zero || Cudd_bddLeq(dd,le,Cudd_Not(ut))) &&
 	       (ue == one  || Cudd_bddLeq(dd,Cudd_Not(lt),ue))) { /* c-remap */
 	t = cuddBddSqueeze(dd, lt, ut);
+	if (t == NULL)
+	    return(NULL);
 	cuddRef(t);
 	if (Cudd_IsComplement(t)) {
 	    r = cuddUniqueInter(dd, index, Cudd_Not(t), t);
@@ -2071,6 +2073,8 @@ cuddBddSqueeze(
     } else if ((lt == zero || Cudd_bddLeq(dd,lt,Cudd_Not(ue))) &&
 	       (ut == one  || Cudd_bddLeq(dd,Cudd_Not(le),ut))) { /* c-remap */
 	e = cuddBddSqueeze(dd, le, ue);
+	if (e == NULL)
+	    return(NULL);
 	cuddRef(e);
 	if (Cudd_IsComplement(e)) {
 	    r = cuddUniqueInter(dd, index, Cudd_Not(e), e);
-- 
2.43.0


From 147f12fdacc8223ffe4744419a4e3fa82324be34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:48 +0000
Subject: [PATCH 51/83] fix: CUDD: Cudd_bddClosestCube unpacks the distance in
 the order in which it was packed

---
 .../cudd-3.0.0/cudd/cuddPriority.c            | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
index cd55230..7528b5f 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
@@ -1317,26 +1317,21 @@ Cudd_bddClosestCube(
     DdNode *res, *acube;
     CUDD_VALUE_TYPE rdist;
 
-    /* Compute the cube and distance as a single ADD. */
+    /* Compute the cube and distance as a single ADD, and unpack distance
+    ** and cube.  The distance is found next to the top node; hence the ADD
+    ** has to be computed again if reordering occurs on the way. */
     do {
 	dd->reordered = 0;
+	acube = NULL;
 	res = cuddBddClosestCube(dd,f,g,CUDD_CONST_INDEX + 1.0);
-    } while (dd->reordered == 1);
-    if (res == NULL) {
-        if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
-            dd->timeoutHandler(dd, dd->tohArg);
-        }
-        return(NULL);
-    }
-    cuddRef(res);
-
-    /* Unpack distance and cube. */
-    do {
-	dd->reordered = 0;
-	acube = separateCube(dd, res, &rdist);
+	if (res != NULL) {
+	    cuddRef(res);
+	    acube = separateCube(dd, res, &rdist);
+	    if (acube == NULL)
+		Cudd_RecursiveDeref(dd, res);
+	}
     } while (dd->reordered == 1);
     if (acube == NULL) {
-	Cudd_RecursiveDeref(dd, res);
         if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
             dd->timeoutHandler(dd, dd->tohArg);
         }
-- 
2.43.0


From 2a633e4b19f75b89a185a09235a6307de7fb09ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 52/83] fix: h2 pruning of the SAT planner needs the invariants
 that it intersects with

---
 src/SearchEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SearchEngine.cpp b/src/SearchEngine.cpp
index ccb04b8..72d0279 100644
--- a/src/SearchEngine.cpp
+++ b/src/SearchEngine.cpp
@@ -229,7 +229,7 @@ int main(int argc, char *argv[]) {
 	bool trackContainedTasks = useTaskHash;
     Model* htn = new Model(trackContainedTasks, reachability, true, true);
 	htn->filename = inputFilename;
-	if (args_info.satmutexes_flag) htn->rintanenInvariants = true;
+	if (args_info.satmutexes_flag || string(args_info.pruning_arg) == "h2") htn->rintanenInvariants = true;
 	htn->read(inputStream);
 	assert(htn->isHtnModel);
 	searchNode* tnI = htn->prepareTNi(htn);
-- 
2.43.0


From af92e47063b3085d375b53561e5217eeb7211182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 53/83] fix: SAT planner: a vertex none of whose tasks can be
 decomposed stays a leaf

---
 src/sat/pdt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sat/pdt.cpp b/src/sat/pdt.cpp
index 225fe53..f277bfb 100644
--- a/src/sat/pdt.cpp
+++ b/src/sat/pdt.cpp
@@ -135,8 +135,6 @@ void PDT::expandPDT(Model* htn, bool effectLessActionsInSeparateLeaf){
 	std::clock_t before_prep = std::clock();
 	cout << endl << endl << "======================" << endl << "0 "; printMemory();
 #endif
-	expanded = true;
-
 	
 	vector<tuple<uint32_t,uint32_t,uint32_t>> applicableMethodsForSOG;
 	// gather applicable methods
@@ -147,6 +145,10 @@ void PDT::expandPDT(Model* htn, bool effectLessActionsInSeparateLeaf){
 		}
 	}
 
+	// none of the abstract tasks can be decomposed, so this vertex stays a leaf
+	if (applicableMethodsForSOG.size() == 0) return;
+	expanded = true;
+
 	// get best possible SOG
 #ifndef NDEBUG
 	cout << "A "; printMemory();
-- 
2.43.0


From 28b429610d384b588542a55dd5109599bb4bb667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:15 +0000
Subject: [PATCH 54/83] fix: SAT planner: the union of the orderings of several
 methods keeps the ordering of each

---
 src/sat/sog.cpp | 68 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/src/sat/sog.cpp b/src/sat/sog.cpp
index 9ccc8d8..795e9d3 100644
--- a/src/sat/sog.cpp
+++ b/src/sat/sog.cpp
@@ -5,6 +5,32 @@
 #include "pdt.h"
 
 
+// the transitive closure of the ordering of the subtasks of a method
+static vector<vector<bool>> transitiveSubTaskOrdering(Model * htn, int m){
+	int n = htn->numSubTasks[m];
+	vector<vector<bool>> before (n, vector<bool>(n,false));
+	for (int ordering = 0; ordering < htn->numOrderings[m]; ordering += 2)
+		before[htn->ordering[m][ordering]][htn->ordering[m][ordering + 1]] = true;
+
+	for (int k = 0; k < n; k++)
+		for (int i = 0; i < n; i++)
+			if (before[i][k])
+				for (int j = 0; j < n; j++)
+					if (before[k][j]) before[i][j] = true;
+	return before;
+}
+
+// Let v be ordered after all vertices in predecessors. Would this (transitively) order two vertices that must not be ordered?
+static bool newOrderingsConflict(vector<vector<bool>> & reach, vector<unordered_set<uint16_t>> & antiAdj, vector<int> & predecessors, int v){
+	for (int & p : predecessors)
+		for (size_t x = 0; x < reach.size(); x++)
+			if (x == p || reach[x][p])
+				for (size_t y = 0; y < reach.size(); y++)
+					if (y == v || reach[v][y])
+						if (x == y || antiAdj[x].count(y)) return true;
+	return false;
+}
+
 SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & methods, Model* htn, bool effectLessActionsInSeparateLeaf){
 	vector<unordered_set<uint16_t>> antiAdj;
 	vector<unordered_set<uint16_t>> antiBdj;
@@ -29,6 +55,7 @@ SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & met
 
 
 	// add ordering
+	vector<vector<bool>> reach = transitiveSubTaskOrdering(htn,m0); // transitive closure of sog->adj
 	for (int ordering = 0; ordering < htn->numOrderings[m0]; ordering += 2){
 		sog->adj[htn->ordering[m0][ordering]].insert(htn->ordering[m0][ordering + 1]);
 		sog->bdj[htn->ordering[m0][ordering + 1]].insert(htn->ordering[m0][ordering]);
@@ -37,7 +64,7 @@ SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & met
 	for (int i = 0; i < sog->numberOfVertices; i++)
 		for (int j = 0; j < sog->numberOfVertices; j++){
 			if (i == j) continue;
-			if (sog->adj[i].count(j)) continue;
+			if (reach[i][j]) continue;
 			antiAdj[i].insert(j);
 			antiBdj[j].insert(i);
 		}
@@ -48,6 +75,7 @@ SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & met
 		mapping.clear();
 		mapping.resize(htn->numSubTasks[m]);
 		unordered_set<int> takenVertices;
+		vector<vector<bool>> before = transitiveSubTaskOrdering(htn,m);
 
 		for (size_t stID = 0; stID < htn->numSubTasks[m]; stID++){
 			int subTask = htn->methodTotalOrder[m][stID]; // use positions in topological order, may lead to better results
@@ -56,6 +84,12 @@ SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & met
 			bool isEffectless = false;
 			if (myTask < htn->numActions && (htn->numAdds[myTask] == 0 && htn->numDels[myTask] == 0)) isEffectless = true;
 				
+			// all previous tasks of this method come either before this one or are not ordered w.r.t. it
+			vector<int> predecessors;
+			for (size_t ostID = 0; ostID < stID; ostID++)
+				if (before[htn->methodTotalOrder[m][ostID]][subTask])
+					predecessors.push_back(mapping[htn->methodTotalOrder[m][ostID]]);
+
 			// try to find a matching task
 			vector<int> matchingVertices;
 			for (size_t v = 0; v < sog->numberOfVertices; v++){
@@ -68,19 +102,18 @@ SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & met
 					int otherSubTask = htn->methodTotalOrder[m][ostID];
 					int ov = mapping[otherSubTask]; // vertex of other task
 					
-					if (htn->methodSubTasksSuccessors[m][subTask].count(otherSubTask)){
-						if (sog->bdj[v].count(ov)) goto next_vertex;
-						if (antiAdj[v].count(ov)) goto next_vertex;
-					} else if (htn->methodSubTasksPredecessors[m][subTask].count(otherSubTask)){
-						
-						if (sog->adj[v].count(ov)) goto next_vertex;
+					if (before[otherSubTask][subTask]){
+						if (reach[v][ov]) goto next_vertex;
 						if (antiBdj[v].count(ov)) goto next_vertex;
 					} else {
 						// no order is allowed to be present
-						if (sog->adj[v].count(ov)) goto next_vertex;
-						if (sog->bdj[v].count(ov)) goto next_vertex;
+						if (reach[v][ov]) goto next_vertex;
+						if (reach[ov][v]) goto next_vertex;
 					}
 				}
+				
+				// the orderings of all methods have to be kept, also if the vertices in between belong to another method
+				if (newOrderingsConflict(reach,antiAdj,predecessors,v)) goto next_vertex;
 			
 				// if we reached this point, this vertex is ok
 				matchingVertices.push_back(v);
@@ -98,6 +131,8 @@ next_vertex:;
 				sog->bdj.push_back(_temp16);
 				antiAdj.push_back(_temp16);
 				antiBdj.push_back(_temp16);
+				for (auto & r : reach) r.push_back(false);
+				reach.push_back(vector<bool>(sog->numberOfVertices,false));
 			}
 
 
@@ -144,12 +179,7 @@ next_vertex:;
 				int otherSubTask = htn->methodTotalOrder[m][ostID];
 				int ov = mapping[otherSubTask]; // vertex of other task
 				
-				if (htn->methodSubTasksSuccessors[m][subTask].count(otherSubTask)){
-					sog->adj[v].insert(ov);
-					antiAdj[ov].insert(v);
-					sog->bdj[ov].insert(v);
-					antiBdj[v].insert(ov);
-				} else if (htn->methodSubTasksPredecessors[m][subTask].count(otherSubTask)){
+				if (before[otherSubTask][subTask]){
 					sog->adj[ov].insert(v);
 					antiAdj[v].insert(ov);
 					sog->bdj[v].insert(ov);
@@ -161,6 +191,14 @@ next_vertex:;
 					antiBdj[ov].insert(v);
 				}
 			}
+
+			// update the transitive closure
+			for (int & p : predecessors)
+				for (size_t x = 0; x < reach.size(); x++)
+					if (x == p || reach[x][p])
+						for (size_t y = 0; y < reach.size(); y++)
+							if (y == v || reach[v][y])
+								reach[x][y] = true;
 		}
 		sog->methodSubTasksToVertices.push_back(mapping);
 	}
-- 
2.43.0


From 3dbf193e2bcdd66b955456bff268ed444e460484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 55/83] fix: SAT planner: actions without effects are executed
 in a state in which their preconditions hold

---
 src/sat/partial_order.cpp |  5 +++++
 src/sat/sat_planner.cpp   | 45 ++++++++++++++++++++++++++++-----------
 src/sat/state_formula.cpp |  3 ++-
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/sat/partial_order.cpp b/src/sat/partial_order.cpp
index 5d52986..8fd0873 100644
--- a/src/sat/partial_order.cpp
+++ b/src/sat/partial_order.cpp
@@ -157,6 +157,11 @@ void generate_matching_formula(void* solver, sat_capsule & capsule, Model * htn,
 			for (int p = 1; p < vars.size(); p++){
 				implies(solver,matching.matchingPerLeaf[l][p],forbiddenPerLeaf[lSucc][p-1]);
 			}
+			// all preconditions at a position are checked before the effects of the action at this position.
+			// So if l may have effects, its successors must not be at the same position
+			if (leafSOG->leafContainsEffectAction[l])
+				for (int p = 0; p < vars.size(); p++)
+					implies(solver,matching.matchingPerLeaf[l][p],forbiddenPerLeaf[lSucc][p]);
 		}
 	}
 
diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index ee86171..6b4a1b1 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -97,21 +97,40 @@ pair<int,int> printSolution(void * solver, Model * htn, PDT* pdt, MatchingData &
 	// if po output the primitive plan now
 	if (!htn->isTotallyOrdered){
 		for (int p = 0; p < matching.matchingPerPosition.size(); p++){
-			for (auto [pvar, prim] : matching.vars[p]){
-				if (ipasir_val(solver,pvar) > 0){
-					// find the if of the matched leaf
-					for (int l = 0; l < matching.matchingPerPosition[p].size(); l++){
+			// find the matched leafs
+			vector<int> matchedLeafs;
+			for (auto [pvar, prim] : matching.vars[p])
+				if (ipasir_val(solver,pvar) > 0)
+					for (int l = 0; l < matching.matchingPerPosition[p].size(); l++)
 						if (ipasir_val(solver,matching.matchingPerPosition[p][l]) > 0
-								&& matching.leafSOG->leafOfNode[l]->outputTask == prim){
-							// get the output number of that leaf
-							PDT * leaf = matching.leafSOG->leafOfNode[l];
-							solutionCost += htn->actionCosts[prim];
-							trueSolutionCost += originalActionCosts[prim];
-							leafsWithTask.push_back({leaf,l});
-							std::cout << leaf->outputID << " " << htn->taskNames[prim] << endl;
-						}
-					}
+								&& matching.leafSOG->leafOfNode[l]->outputTask == prim)
+							matchedLeafs.push_back(l);
+
+			// output them in an order that is compatible with the ordering of the leafs.
+			// At most one of them may have effects, it is the last one: the preconditions of the others hold before it.
+			while (matchedLeafs.size()){
+				size_t next = 0;
+				for (size_t i = 0; i < matchedLeafs.size(); i++){
+					bool first = true;
+					for (size_t j = 0; first && j < matchedLeafs.size(); j++)
+						if (i != j) first = !matching.leafSOG->successorSet[matchedLeafs[j]].count(matchedLeafs[i]);
+					if (!first) continue;
+
+					next = i;
+					int prim = matching.leafSOG->leafOfNode[matchedLeafs[i]]->outputTask;
+					if (htn->numAdds[prim] == 0 && htn->numDels[prim] == 0) break;
 				}
+
+				int l = matchedLeafs[next];
+				matchedLeafs.erase(matchedLeafs.begin() + next);
+
+				// get the output number of that leaf
+				PDT * leaf = matching.leafSOG->leafOfNode[l];
+				int prim = leaf->outputTask;
+				solutionCost += htn->actionCosts[prim];
+				trueSolutionCost += originalActionCosts[prim];
+				leafsWithTask.push_back({leaf,l});
+				std::cout << leaf->outputID << " " << htn->taskNames[prim] << endl;
 			}
 		}
 	}
diff --git a/src/sat/state_formula.cpp b/src/sat/state_formula.cpp
index 955d8f5..3347f12 100644
--- a/src/sat/state_formula.cpp
+++ b/src/sat/state_formula.cpp
@@ -275,7 +275,8 @@ void get_partial_state_atoms(sat_capsule & capsule, Model * htn, SOG* sog, vecto
 		sog->leafContainsEffectAction[t] = actualAction;
 	}
 	int numberOfTimeSteps = sog->numberOfVertices - leafsWithoutActualActions;
-	numberOfTimeSteps = numberOfTimeSteps;
+	// actions without effects that come after the last action with effects need a time step of their own
+	if (leafsWithoutActualActions > 0) numberOfTimeSteps++;
 	if (numberOfTimeSteps == 0) numberOfTimeSteps = 1;
 	
 	cout << "Total Leafs: " << sog->numberOfVertices << " of that without effect-actions " << leafsWithoutActualActions << " remaining: " << numberOfTimeSteps << endl;
-- 
2.43.0


From 8961daf070724b37851de91783e01e6338222823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 56/83] fix: SAT planner: the search for cheaper plans ends
 once no plan can be cheaper

---
 src/sat/sat_planner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index 6b4a1b1..463a758 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -736,7 +736,7 @@ void optimise_with_sat_planner_linear_bound_increase(Model * htn, bool block_com
 	currentMaximumCost = currentCost - 1;
 	int lastImprovedDepth = depth;
 
-	while (true){
+	while (currentMaximumCost >= 0){ // else no plan can be cheaper
 		void* solver = ipasir_init();
 		cout << endl << endl << color(Color::YELLOW, "Generating formula for depth " + to_string(depth) + " and cost " + to_string(currentMaximumCost)) << endl;
 		std::clock_t formula_start = std::clock();
-- 
2.43.0


From 34d02d274ad8fb71e1ec8582332fda0e1796b973 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:37:01 +0000
Subject: [PATCH 57/83] fix: preprocessing ends for problems without a finite
 decomposition

---
 src/Model.cpp                | 29 +++++++++++++++++++++++++++++
 src/Model.h                  |  2 ++
 src/translation/htnToSAS.cpp |  6 ++++++
 3 files changed, 37 insertions(+)

diff --git a/src/Model.cpp b/src/Model.cpp
index 694dc5d..367a23d 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2680,6 +2680,29 @@ newlyReachedMLMs = new noDelIntSet();
 		int id;
 	};
 
+	vector<bool> Model::calcFinitelyDecomposableMethods() {
+		vector<bool> finiteTask(this->numTasks, false);
+		vector<bool> finiteMethod(this->numMethods, false);
+		for (int i = 0; i < this->numActions; i++)
+			finiteTask[i] = true;
+
+		bool changed = true;
+		while (changed) {
+			changed = false;
+			for (int m = 0; m < this->numMethods; m++) {
+				if (finiteMethod[m]) continue;
+				bool finite = true;
+				for (int i = 0; finite && i < this->numSubTasks[m]; i++)
+					finite = finiteTask[this->subTasks[m][i]];
+				if (!finite) continue;
+				finiteMethod[m] = true;
+				finiteTask[this->decomposedTask[m]] = true;
+				changed = true;
+			}
+		}
+		return finiteMethod;
+	}
+
 	void Model::calcMinimalImpliedX() {
 
 		timeval tp;
@@ -2708,10 +2731,14 @@ newlyReachedMLMs = new noDelIntSet();
 			}
 		}
 
+		// the values of other methods would grow forever
+		vector<bool> finiteMethod = calcFinitelyDecomposableMethods();
+
 		list<tOrMnode *> h;
 		for (int i = 0; i < numActions; i++) {
 			for (int j = 0; j < this->stToMethodNum[i]; j++) {
 				int m = stToMethod[i][j];
+				if (!finiteMethod[m]) continue;
 				tOrMnode *nn = new tOrMnode();
 				nn->id = m;
 				nn->isMethod = true;
@@ -2749,6 +2776,7 @@ newlyReachedMLMs = new noDelIntSet();
 				minImpliedDistance[n->id] = INT_MAX;
 				for (int i = 0; i < this->numMethodsForTask[n->id]; i++) {
 					int m = this->taskToMethods[n->id][i];
+					if (!finiteMethod[m]) continue;
                     minEstimatedCosts[n->id] = min(minEstimatedCostsM[m], minEstimatedCosts[n->id]);
 					minImpliedDistance[n->id] = min(minImpliedDistanceM[m], minImpliedDistance[n->id]);
 				}
@@ -2758,6 +2786,7 @@ newlyReachedMLMs = new noDelIntSet();
 				if (changed) {
 					for (int i = 0; i < this->stToMethodNum[n->id]; i++) {
 						int m = stToMethod[n->id][i];
+						if (!finiteMethod[m]) continue;
 						tOrMnode *nn = new tOrMnode();
 						nn->id = m;
 						nn->isMethod = true;
diff --git a/src/Model.h b/src/Model.h
index fa1b018..4c23c45 100644
--- a/src/Model.h
+++ b/src/Model.h
@@ -210,6 +210,8 @@ namespace progression {
 			int *minImpliedDistance = nullptr;
 
 			void calcMinimalImpliedX();
+			// for each method whether all its subtasks can be decomposed into actions in finitely many steps
+			vector<bool> calcFinitelyDecomposableMethods();
 
 			// permanent SCC information
 			bool calculatedSccs = false;
diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index caa168f..d7676ee 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -464,10 +464,14 @@ void HTNToSASTranslation::calcMinimalProgressionBound(bool to) {
         }
     }
 
+    // the values of other methods would grow forever
+    vector<bool> finiteMethod = htn->calcFinitelyDecomposableMethods();
+
     list<tOrMnode*> h;
     for(int i = 0; i < htn->numActions; i++) {
         for(int j = 0; j < htn->stToMethodNum[i]; j++) {
             int m = htn->stToMethod[i][j];
+            if (!finiteMethod[m]) continue;
             tOrMnode* nn = new tOrMnode();
             nn->id = m;
             nn->isMethod = true;
@@ -517,6 +521,7 @@ void HTNToSASTranslation::calcMinimalProgressionBound(bool to) {
             minImpliedPGB[n->id] = INT_MAX;
             for (int i = 0; i < htn->numMethodsForTask[n->id]; i++) {
                 int m = htn->taskToMethods[n->id][i];
+                if (!finiteMethod[m]) continue;
                 minImpliedPGB[n->id] = min(minImpliedPGBM[m], minImpliedPGB[n->id]);
             }
 
@@ -524,6 +529,7 @@ void HTNToSASTranslation::calcMinimalProgressionBound(bool to) {
             if (changed) {
                 for(int i = 0; i < htn->stToMethodNum[n->id]; i++){
                     int m = htn->stToMethod[n->id][i];
+                    if (!finiteMethod[m]) continue;
                     tOrMnode* nn = new tOrMnode();
                     nn->id = m;
                     nn->isMethod = true;
-- 
2.43.0


From b0a69020698a9792a5ed339ae9798139c74d61cd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 58/83] fix: translation planner: an incomplete plan file of
 the classical planner is not a plan

---
 src/translation/translationController.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index cd27eaf..da2b466 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -4,6 +4,7 @@
 
 #include <cassert>
 #include <cstdio>
+#include <fstream>
 #include <sys/stat.h>
 #include <sys/time.h>
 
@@ -14,6 +15,18 @@ inline bool does_file_exist (const string& name) {
 }
 
 
+// FD writes one line per plan step and then the line with the plan's cost. If FD dies while doing so, the file contains
+// only a part of the plan, which is not a solution.
+bool is_complete_plan (const string& name) {
+	ifstream planFile (name);
+	string line;
+	while (getline(planFile, line)){
+		if (line.compare(0, 8, "; cost =") == 0) return true;
+		if (line.size() < 2 || line.front() != '(' || line.back() != ')') return false;
+	}
+	return false;
+}
+
 // returns false if translation failed
 bool performOneTranslation(HTNToSASTranslation * translation, TranslationType transtype, int parallel, int* pgbList){
 	// time measurement	
@@ -263,7 +276,13 @@ void runTranslationPlanner(Model* htn, TranslationType transtype, bool forceTran
     	}
 	}
 
-	translation->planToHddl(planFileName, "stdout");
+	if (!onlyGenerate){
+		if (!is_complete_plan(planFileName)){
+			cout << "- The plan file \"" << planFileName << "\" written by FD is not complete. Aborting." << endl;
+			exit(-1);
+		}
+		translation->planToHddl(planFileName, "stdout");
+	}
 
 	// we don't correctly clean up after ourselves -- yet
 	exit(0);
-- 
2.43.0


From 66deec5cd3a58cf924212ff9d168b7ac7552beff Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 59/83] fix: an input that ends early or cannot be read is
 rejected

---
 src/Model.cpp        | 101 +++++++++++++++++++++++++------------------
 src/SearchEngine.cpp |   5 ++-
 2 files changed, 62 insertions(+), 44 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 367a23d..2ed5918 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1542,9 +1542,28 @@ newlyReachedMLMs = new noDelIntSet();
 		}
 	}
 
+	// Reads the next line of the input. If there is none (the input is truncated or cannot be read any further), the
+	// problem is not known, so there is nothing that could be planned for.
+	static void readLine(istream &domainFile, string &line) {
+		if (!getline(domainFile, line)) {
+			cerr << "Unable to read the input: it ended unexpectedly." << endl;
+			exit(1);
+		}
+	}
+
+	// Reads the next number of a list that is ended by a negative number.
+	static int readListElement(stringstream &sStream) {
+		int x;
+		if (!(sStream >> x)) {
+			cerr << "Unable to read the input: list \"" << sStream.str() << "\" has no end." << endl;
+			exit(1);
+		}
+		return x;
+	}
+
 	void Model::readClassical(istream &domainFile) {
 		string line;
-		getline(domainFile, line);
+		readLine(domainFile, line);
 		stringstream *sStream;
 		sStream = new stringstream(line);
 		// read state bits and their descriptions
@@ -1552,13 +1571,13 @@ newlyReachedMLMs = new noDelIntSet();
 		delete sStream;
 		factStrs = new string[numStateBits];
 		for (int i = 0; i < numStateBits; i++) {
-			getline(domainFile, line);
+			readLine(domainFile, line);
 			factStrs[i] = line;
 		}
-		getline(domainFile, line);
-		getline(domainFile, line);
+		readLine(domainFile, line);
+		readLine(domainFile, line);
 		// variable definitions
-		getline(domainFile, line);
+		readLine(domainFile, line);
 		sStream = new stringstream(line);
 		*sStream >> numVars;
 		delete sStream;
@@ -1567,7 +1586,7 @@ newlyReachedMLMs = new noDelIntSet();
 		varNames = new string[numVars];
 		varOfStateBit = new int[numStateBits];
 		for (int i = 0; i < numVars; i++) {
-			getline(domainFile, line);
+			readLine(domainFile, line);
 			sStream = new stringstream(line);
 			*sStream >> firstIndex[i];
 			assert(firstIndex[i] < numStateBits);
@@ -1579,8 +1598,8 @@ newlyReachedMLMs = new noDelIntSet();
 			for (int j = firstIndex[i]; j <= lastIndex[i]; j++)
 				varOfStateBit[j] = i;
 		}
-		getline(domainFile, line);
-		getline(domainFile, line);
+		readLine(domainFile, line);
+		readLine(domainFile, line);
 
 		for (int informationType = 0; informationType < 3; informationType++) {
 			int &num = (informationType == 0) ? numStrictMutexes : ((informationType == 1) ? numMutexes
@@ -1590,23 +1609,23 @@ newlyReachedMLMs = new noDelIntSet();
 			int **&elems = (informationType == 0) ? strictMutexes : ((informationType == 1) ? mutexes : invariants);
 
 			// read further information
-			getline(domainFile, line);
+			readLine(domainFile, line);
 			sStream = new stringstream(line);
 			*sStream >> num;
 			delete sStream;
 			elems = new int *[num];
 			size = new int[num];
 			for (int i = 0; i < num; i++) {
-				getline(domainFile, line);
+				readLine(domainFile, line);
 				elems[i] = readIntList(line, size[i]);
 			}
-			getline(domainFile, line);
-			getline(domainFile, line);
+			readLine(domainFile, line);
+			readLine(domainFile, line);
 		}
 
 
 		// read actions
-		getline(domainFile, line);
+		readLine(domainFile, line);
 		sStream = new stringstream(line);
 		*sStream >> numActions;
 		delete sStream;
@@ -1631,17 +1650,17 @@ newlyReachedMLMs = new noDelIntSet();
 
 		numPrecLessActions = 0;
 		for (int i = 0; i < numActions; i++) {
-			getline(domainFile, line);
+			readLine(domainFile, line);
 			sStream = new stringstream(line);
 			*sStream >> actionCosts[i];
 			delete sStream;
-			getline(domainFile, line);
+			readLine(domainFile, line);
 			precLists[i] = readIntList(line, numPrecs[i]);
 			if (numPrecs[i] == 0) {
 				numPrecLessActions++;
 			}
 
-			getline(domainFile, line);
+			readLine(domainFile, line);
 			std::tuple<int *, int *, int **> adds = readConditionalIntList(line, numAdds[i], numConditionalAdds[i],
 					numConditionalAddsConditions[i]);
 			addLists[i] = get<0>(adds);
@@ -1649,7 +1668,7 @@ newlyReachedMLMs = new noDelIntSet();
 			conditionalAddListsCondition[i] = get<2>(adds);
 
 
-			getline(domainFile, line);
+			readLine(domainFile, line);
 			std::tuple<int *, int *, int **> dels = readConditionalIntList(line, numDels[i], numConditionalDels[i],
 					numConditionalDelsConditions[i]);
 			delLists[i] = get<0>(dels);
@@ -1755,14 +1774,14 @@ newlyReachedMLMs = new noDelIntSet();
 		delete[] delToActionTemp;
 
 		// s0
-		getline(domainFile, line);
-		getline(domainFile, line);
-		getline(domainFile, line);
+		readLine(domainFile, line);
+		readLine(domainFile, line);
+		readLine(domainFile, line);
 		s0List = readIntList(line, s0Size);
 		// goal
-		getline(domainFile, line);
-		getline(domainFile, line);
-		getline(domainFile, line);
+		readLine(domainFile, line);
+		readLine(domainFile, line);
+		readLine(domainFile, line);
 		gList = readIntList(line, gSize);
 #ifndef NDEBUG
 		for (int j = 0; j < s0Size; j++) {
@@ -1774,9 +1793,9 @@ newlyReachedMLMs = new noDelIntSet();
 #endif
 
 		// task/action names
-		getline(domainFile, line);
-		getline(domainFile, line);
-		getline(domainFile, line);
+		readLine(domainFile, line);
+		readLine(domainFile, line);
+		readLine(domainFile, line);
 		isHtnModel = true;
 		sStream = new stringstream(line);
 		*sStream >> numTasks;
@@ -1786,7 +1805,7 @@ newlyReachedMLMs = new noDelIntSet();
 		isPrimitive = new bool[numTasks];
 		bool isAbstract;
 		for (int i = 0; i < numTasks; i++) {
-			getline(domainFile, line);
+			readLine(domainFile, line);
 			if (line.size() == 0) {
 				cout << "Input promised " << numTasks << " tasks, but the list ended after " << i << endl;
 				exit(-1);
@@ -1843,9 +1862,9 @@ newlyReachedMLMs = new noDelIntSet();
 		delete sStream;
 		assert(initialTask < numTasks);
 		// methods
-		getline(domainFile, line);
-		getline(domainFile, line);
-		getline(domainFile, line);
+		readLine(domainFile, line);
+		readLine(domainFile, line);
+		readLine(domainFile, line);
 		sStream = new stringstream(line);
 		*sStream >> numMethods;
 		delete sStream;
@@ -1870,12 +1889,12 @@ newlyReachedMLMs = new noDelIntSet();
 				exit(-1);
 			}
 			methodNames[i] = line;
-			getline(domainFile, line);
+			readLine(domainFile, line);
 			sStream = new stringstream(line);
 			*sStream >> decomposedTask[i];
 			assert(decomposedTask[i] < numTasks);
 			delete sStream;
-			getline(domainFile, line);
+			readLine(domainFile, line);
 			subTasks[i] = readIntList(line, numSubTasks[i]);
 			if (numSubTasks[i] == 0) {
 				emptyMethod[decomposedTask[i]] = i;
@@ -1890,7 +1909,7 @@ newlyReachedMLMs = new noDelIntSet();
 				assert(subTasks[i][j] < numTasks);
 			}
 #endif
-			getline(domainFile, line);
+			readLine(domainFile, line);
 			ordering[i] = readIntList(line, numOrderings[i]);
 
 			// transitive reduction and determination of properties
@@ -2106,18 +2125,15 @@ newlyReachedMLMs = new noDelIntSet();
 		stringstream sStream(s);
 		vector<int> v;
 		vector<pair<vector<int>, int>> conds;
-		int x;
-		sStream >> x;
+		int x = readListElement(sStream);
 		while (x >= 0) {
 			vector<int> c;
 			for (int i = 0; i < x; i++) {
-				int y;
-				sStream >> y;
-				c.push_back(y);
+				c.push_back(readListElement(sStream));
 			}
 
 			// read the actual unguarded element
-			sStream >> x;
+			x = readListElement(sStream);
 
 			if (!c.size())
 				v.push_back(x);
@@ -2125,7 +2141,7 @@ newlyReachedMLMs = new noDelIntSet();
 				conds.push_back(make_pair(c, x));
 
 			// read the beginning of the next
-			sStream >> x;
+			x = readListElement(sStream);
 		}
 		sizeA = v.size();
 		sizeB = conds.size();
@@ -2155,12 +2171,11 @@ newlyReachedMLMs = new noDelIntSet();
 	int *Model::readIntList(string s, int &size) {
 		stringstream sStream(s);
 		vector<int> v;
-		int x;
-		sStream >> x;
+		int x = readListElement(sStream);
 		while (x != -1) {
 			if (x < 0) x++; // convert back to -i-1 instead of -i-2
 			v.push_back(x);
-			sStream >> x;
+			x = readListElement(sStream);
 		}
 		size = v.size();
 		if (size == 0) {
diff --git a/src/SearchEngine.cpp b/src/SearchEngine.cpp
index 72d0279..f1adec5 100644
--- a/src/SearchEngine.cpp
+++ b/src/SearchEngine.cpp
@@ -231,7 +231,10 @@ int main(int argc, char *argv[]) {
 	htn->filename = inputFilename;
 	if (args_info.satmutexes_flag || string(args_info.pruning_arg) == "h2") htn->rintanenInvariants = true;
 	htn->read(inputStream);
-	assert(htn->isHtnModel);
+	if (!htn->isHtnModel) {
+		std::cerr << "Unable to read the input: it ended before the initial task." << std::endl;
+		return 1;
+	}
 	searchNode* tnI = htn->prepareTNi(htn);
 			
 	if (inputFilename != "-") ((ifstream*) inputStream)->close();
-- 
2.43.0


From fec419c20fb5d3e8316f3783214da9cbb641c584 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 60/83] fix: HDDL export: orderings with no-ops are kept, write
 errors are reported

---
 src/Model.cpp                | 38 +++++++++++++++++++++++-------------
 src/translation/htnToSAS.cpp |  4 ++++
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 2ed5918..b4df369 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2844,6 +2844,7 @@ newlyReachedMLMs = new noDelIntSet();
 		dfile << endl;
 		
 		vector<bool> actionOccurs(this->numActions); // initialised to false
+		if (this->initialTask < this->numActions) actionOccurs[this->initialTask] = true;
 
 		for (int i = 0; i < numMethods; i++) {
 			int possibleMethodPrecondition = -1;
@@ -2932,27 +2933,28 @@ newlyReachedMLMs = new noDelIntSet();
 				dfile << "     )" << endl;
 
 
-				if (this->numOrderings[i]) {
+				// the orderings are transitively reduced, so leaving out a no-op must not leave out what it orders
+				vector<vector<bool>> before(numSubTasks[i], vector<bool>(numSubTasks[i], false));
+				for (int j = 0; j < this->numOrderings[i]; j += 2)
+					before[this->ordering[i][j]][this->ordering[i][j + 1]] = true;
+				for (int noop : noopIDs)
+					for (int j = 0; j < numSubTasks[i]; j++)
+						for (int k = 0; before[j][noop] && k < numSubTasks[i]; k++)
+							if (before[noop][k]) before[j][k] = true;
 
-					int j = 0;
-					bool firstOrdering = true;
-					while (j < this->numOrderings[i]) {
-						if (this->ordering[i][j] == possibleMethodPrecondition || noopIDs.count(this->ordering[i][j]) || noopIDs.count(this->ordering[i][j] + 1) ) {
-							j+=2;
-							continue;
-						}
+				bool firstOrdering = true;
+				for (int j = 0; j < numSubTasks[i]; j++) {
+					if (j == possibleMethodPrecondition || noopIDs.count(j)) continue;
+					for (int k = 0; k < numSubTasks[i]; k++) {
+						if (!before[j][k] || noopIDs.count(k)) continue;
 						if (firstOrdering) {
 							dfile << "     :ordering (and" << endl;
 							firstOrdering = false;
 						}
-						
-						
-						dfile << "        (task" << this->ordering[i][j] << " < task" << this->ordering[i][j + 1] << ")"
-							<< endl;
-						j += 2;
+						dfile << "        (task" << j << " < task" << k << ")" << endl;
 					}
-					if (!firstOrdering) dfile << "     )" << endl;
 				}
+				if (!firstOrdering) dfile << "     )" << endl;
 			}
 
 			dfile << "  )" << endl;
@@ -2986,6 +2988,10 @@ newlyReachedMLMs = new noDelIntSet();
 		}
 		dfile << ")" << endl;
 		dfile.close();
+		if (!dfile) {
+			cerr << "Unable to write output file " << dName << "." << endl;
+			exit(1);
+		}
 
 		ofstream pfile;
 		pfile.open(pName);
@@ -3013,6 +3019,10 @@ newlyReachedMLMs = new noDelIntSet();
 		}
 		pfile << ")" << endl;
 		pfile.close();
+		if (!pfile) {
+			cerr << "Unable to write output file " << pName << "." << endl;
+			exit(1);
+		}
 	}
 	}
 
diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index d7676ee..1231caa 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -2512,6 +2512,10 @@ void HTNToSASTranslation::writeToFastDown(string sasName, bool hasCondEff, bool
     // axiom section
     sasfile << 0 << endl;
     sasfile.close();
+    if (!sasfile) {
+      cerr << "Unable to write output file " << sasName << "." << endl;
+      exit(1);
+    }
     for (int i = 0; i < numStateBitsTrans; i++){
       delete[] convertMutexVars[i];
     }
-- 
2.43.0


From ec501af72dc6d528a99b95a787a5fcba13f136c5 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 61/83] fix: interactive planner: invalid choices, inapplicable
 actions and the end of the input

---
 src/interactivePlanner.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/interactivePlanner.cpp b/src/interactivePlanner.cpp
index 1e00b7f..34e8863 100644
--- a/src/interactivePlanner.cpp
+++ b/src/interactivePlanner.cpp
@@ -2,8 +2,21 @@
 
 #include <queue>
 #include <iostream>
+#include <sstream>
 
 
+// Asks until the answer is a number out of min, ..., max - 1. Returns min if there is nothing more to read.
+static int readChoice(int min, int max) {
+	string word;
+	while (cin >> word) {
+		stringstream sStream(word);
+		int choice;
+		if (sStream >> choice && sStream.eof() && choice >= min && choice < max) return choice;
+		cout << "Please enter a number between " << min << " and " << max - 1 << "." << endl;
+	}
+	return min;
+}
+
 void interactivePlanner(Model* htn, searchNode* tnI){
 	cout << "YouPlan!" << endl;
 	while(true) {
@@ -19,7 +32,7 @@ void interactivePlanner(Model* htn, searchNode* tnI){
 	    if (j == 1)
 	        step = 0;
 	    else
-            cin >> step;
+            step = readChoice(-2, j);
         if(step == -2) break;
         if(step == -1) exit(0);
         if(step < tnI->numAbstract) {
@@ -34,7 +47,11 @@ void interactivePlanner(Model* htn, searchNode* tnI){
             if (i == 1)
                 step2 = 0;
             else
-                cin >> step2;
+                step2 = readChoice(-1, i);
+            if(step2 == -1) {
+                if(!cin) break;
+                continue;
+            }
             int m = htn->taskToMethods[t][step2];
             tnI = htn->decompose(tnI, step, m);
         } else {
@@ -55,6 +72,11 @@ void interactivePlanner(Model* htn, searchNode* tnI){
                 int f = htn->delLists[a][i];
                 cout << "- " << f << " " << htn->factStrs[f] << endl;
             }
+            if(!htn->isApplicable(tnI, a)) {
+                cout << "This action is not applicable in the current state." << endl;
+                if (j == 1) break; // there is nothing else to choose
+                continue;
+            }
             tnI = htn->apply(tnI, step);
         }
 	}
-- 
2.43.0


From b96c9bc21305801f0ae3428105549dd77380ed4a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 62/83] fix: the planner does not end successfully if its
 output could not be written

---
 src/SearchEngine.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/SearchEngine.cpp b/src/SearchEngine.cpp
index f1adec5..016359c 100644
--- a/src/SearchEngine.cpp
+++ b/src/SearchEngine.cpp
@@ -11,6 +11,7 @@
 #include <iostream>
 #include <stdlib.h>
 #include <getopt.h>
+#include <unistd.h>
 #include <unordered_set>
 #include <landmarks/lmExtraction/LmCausal.h>
 #include <landmarks/lmExtraction/LMsInAndOrGraphs.h>
@@ -159,7 +160,17 @@ void printHeuristicHelp(){
 
 
 
+// A plan that could not be written completely must not be taken for one, so the planner does not end successfully then.
+static void checkOutputWritten(){
+	cout.flush();
+	if (cout.bad() || fflush(stdout) != 0 || ferror(stdout)){
+		cerr << "Unable to write the output: " << strerror (errno) << endl;
+		_exit(1);
+	}
+}
+
 int main(int argc, char *argv[]) {
+	atexit(checkOutputWritten);
 	//speed_test();
 	//return 42;
 #ifndef NDEBUG
-- 
2.43.0


From e2bdb8bdc54713295613752e71e5b5a8c5186f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:11 +0000
Subject: [PATCH 63/83] fix: a line of the input that ends before its number is
 rejected

---
 src/Model.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index b4df369..55f0797 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1551,6 +1551,14 @@ newlyReachedMLMs = new noDelIntSet();
 		}
 	}
 
+	// Reads a number that has to be on the current line.
+	template<class T> static void readNumber(stringstream &sStream, T &x) {
+		if (!(sStream >> x)) {
+			cerr << "Unable to read the input: a number is missing in \"" << sStream.str() << "\"." << endl;
+			exit(1);
+		}
+	}
+
 	// Reads the next number of a list that is ended by a negative number.
 	static int readListElement(stringstream &sStream) {
 		int x;
@@ -1567,7 +1575,7 @@ newlyReachedMLMs = new noDelIntSet();
 		stringstream *sStream;
 		sStream = new stringstream(line);
 		// read state bits and their descriptions
-		*sStream >> numStateBits;
+		readNumber(*sStream, numStateBits);
 		delete sStream;
 		factStrs = new string[numStateBits];
 		for (int i = 0; i < numStateBits; i++) {
@@ -1579,7 +1587,7 @@ newlyReachedMLMs = new noDelIntSet();
 		// variable definitions
 		readLine(domainFile, line);
 		sStream = new stringstream(line);
-		*sStream >> numVars;
+		readNumber(*sStream, numVars);
 		delete sStream;
 		firstIndex = new int[numVars];
 		lastIndex = new int[numVars];
@@ -1588,9 +1596,9 @@ newlyReachedMLMs = new noDelIntSet();
 		for (int i = 0; i < numVars; i++) {
 			readLine(domainFile, line);
 			sStream = new stringstream(line);
-			*sStream >> firstIndex[i];
+			readNumber(*sStream, firstIndex[i]);
 			assert(firstIndex[i] < numStateBits);
-			*sStream >> lastIndex[i];
+			readNumber(*sStream, lastIndex[i]);
 			assert(lastIndex[i] < numStateBits);
 			*sStream >> varNames[i];
 			delete sStream;
@@ -1611,7 +1619,7 @@ newlyReachedMLMs = new noDelIntSet();
 			// read further information
 			readLine(domainFile, line);
 			sStream = new stringstream(line);
-			*sStream >> num;
+			readNumber(*sStream, num);
 			delete sStream;
 			elems = new int *[num];
 			size = new int[num];
@@ -1627,7 +1635,7 @@ newlyReachedMLMs = new noDelIntSet();
 		// read actions
 		readLine(domainFile, line);
 		sStream = new stringstream(line);
-		*sStream >> numActions;
+		readNumber(*sStream, numActions);
 		delete sStream;
 		actionCosts = new int[numActions];
 
@@ -1652,7 +1660,7 @@ newlyReachedMLMs = new noDelIntSet();
 		for (int i = 0; i < numActions; i++) {
 			readLine(domainFile, line);
 			sStream = new stringstream(line);
-			*sStream >> actionCosts[i];
+			readNumber(*sStream, actionCosts[i]);
 			delete sStream;
 			readLine(domainFile, line);
 			precLists[i] = readIntList(line, numPrecs[i]);
@@ -1798,7 +1806,7 @@ newlyReachedMLMs = new noDelIntSet();
 		readLine(domainFile, line);
 		isHtnModel = true;
 		sStream = new stringstream(line);
-		*sStream >> numTasks;
+		readNumber(*sStream, numTasks);
 		delete sStream;
 		taskNames = new string[numTasks];
 		emptyMethod = new int[numTasks];
@@ -1811,7 +1819,7 @@ newlyReachedMLMs = new noDelIntSet();
 				exit(-1);
 			}
 			sStream = new stringstream(line);
-			*sStream >> isAbstract;
+			readNumber(*sStream, isAbstract);
 			isPrimitive[i] = !isAbstract;
 			*sStream >> taskNames[i];
 			emptyMethod[i] = -1;
@@ -1858,7 +1866,7 @@ newlyReachedMLMs = new noDelIntSet();
 		}
 		isHtnModel = true;
 		sStream = new stringstream(line);
-		*sStream >> initialTask;
+		readNumber(*sStream, initialTask);
 		delete sStream;
 		assert(initialTask < numTasks);
 		// methods
@@ -1866,7 +1874,7 @@ newlyReachedMLMs = new noDelIntSet();
 		readLine(domainFile, line);
 		readLine(domainFile, line);
 		sStream = new stringstream(line);
-		*sStream >> numMethods;
+		readNumber(*sStream, numMethods);
 		delete sStream;
 		decomposedTask = new int[numMethods];
 		subTasks = new int *[numMethods];
@@ -1891,7 +1899,7 @@ newlyReachedMLMs = new noDelIntSet();
 			methodNames[i] = line;
 			readLine(domainFile, line);
 			sStream = new stringstream(line);
-			*sStream >> decomposedTask[i];
+			readNumber(*sStream, decomposedTask[i]);
 			assert(decomposedTask[i] < numTasks);
 			delete sStream;
 			readLine(domainFile, line);
-- 
2.43.0


From a41b92af8efc31dc99998573a30111fa72985126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:41 +0000
Subject: [PATCH 64/83] fix: translation planner: a plan file that cannot be
 read to its end is not a plan

---
 src/translation/htnToSAS.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 1231caa..722814c 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -2568,6 +2568,10 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
       linecount++;
       getline(*fin, line);
     }
+    if (fin->bad()){
+        cerr << "Unable to read the plan file " << infile << "." << endl;
+        exit(1);
+    }
 
     fileInput = new ifstream(infile);
 
@@ -2591,6 +2595,12 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
       }
     }
 
+    // an error while reading looks like the end of the file
+    if (fin->bad()){
+        cerr << "Unable to read the plan file " << infile << "." << endl;
+        exit(1);
+    }
+
     fileInput->close();
     string* primitives = new string[primNumMax];
     string* methods = new string[methNumMax];
-- 
2.43.0


From 079f61a455b7d278080c79f806bc694a5b9b4960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:16 +0000
Subject: [PATCH 65/83] fix: a task whose name cannot be read is rejected

---
 src/Model.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 55f0797..b6042a1 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1551,10 +1551,10 @@ newlyReachedMLMs = new noDelIntSet();
 		}
 	}
 
-	// Reads a number that has to be on the current line.
-	template<class T> static void readNumber(stringstream &sStream, T &x) {
+	// Reads a number or a name that has to be on the current line.
+	template<class T> static void readValue(stringstream &sStream, T &x) {
 		if (!(sStream >> x)) {
-			cerr << "Unable to read the input: a number is missing in \"" << sStream.str() << "\"." << endl;
+			cerr << "Unable to read the input: a value is missing in \"" << sStream.str() << "\"." << endl;
 			exit(1);
 		}
 	}
@@ -1575,7 +1575,7 @@ newlyReachedMLMs = new noDelIntSet();
 		stringstream *sStream;
 		sStream = new stringstream(line);
 		// read state bits and their descriptions
-		readNumber(*sStream, numStateBits);
+		readValue(*sStream, numStateBits);
 		delete sStream;
 		factStrs = new string[numStateBits];
 		for (int i = 0; i < numStateBits; i++) {
@@ -1587,7 +1587,7 @@ newlyReachedMLMs = new noDelIntSet();
 		// variable definitions
 		readLine(domainFile, line);
 		sStream = new stringstream(line);
-		readNumber(*sStream, numVars);
+		readValue(*sStream, numVars);
 		delete sStream;
 		firstIndex = new int[numVars];
 		lastIndex = new int[numVars];
@@ -1596,9 +1596,9 @@ newlyReachedMLMs = new noDelIntSet();
 		for (int i = 0; i < numVars; i++) {
 			readLine(domainFile, line);
 			sStream = new stringstream(line);
-			readNumber(*sStream, firstIndex[i]);
+			readValue(*sStream, firstIndex[i]);
 			assert(firstIndex[i] < numStateBits);
-			readNumber(*sStream, lastIndex[i]);
+			readValue(*sStream, lastIndex[i]);
 			assert(lastIndex[i] < numStateBits);
 			*sStream >> varNames[i];
 			delete sStream;
@@ -1619,7 +1619,7 @@ newlyReachedMLMs = new noDelIntSet();
 			// read further information
 			readLine(domainFile, line);
 			sStream = new stringstream(line);
-			readNumber(*sStream, num);
+			readValue(*sStream, num);
 			delete sStream;
 			elems = new int *[num];
 			size = new int[num];
@@ -1635,7 +1635,7 @@ newlyReachedMLMs = new noDelIntSet();
 		// read actions
 		readLine(domainFile, line);
 		sStream = new stringstream(line);
-		readNumber(*sStream, numActions);
+		readValue(*sStream, numActions);
 		delete sStream;
 		actionCosts = new int[numActions];
 
@@ -1660,7 +1660,7 @@ newlyReachedMLMs = new noDelIntSet();
 		for (int i = 0; i < numActions; i++) {
 			readLine(domainFile, line);
 			sStream = new stringstream(line);
-			readNumber(*sStream, actionCosts[i]);
+			readValue(*sStream, actionCosts[i]);
 			delete sStream;
 			readLine(domainFile, line);
 			precLists[i] = readIntList(line, numPrecs[i]);
@@ -1806,7 +1806,7 @@ newlyReachedMLMs = new noDelIntSet();
 		readLine(domainFile, line);
 		isHtnModel = true;
 		sStream = new stringstream(line);
-		readNumber(*sStream, numTasks);
+		readValue(*sStream, numTasks);
 		delete sStream;
 		taskNames = new string[numTasks];
 		emptyMethod = new int[numTasks];
@@ -1819,9 +1819,9 @@ newlyReachedMLMs = new noDelIntSet();
 				exit(-1);
 			}
 			sStream = new stringstream(line);
-			readNumber(*sStream, isAbstract);
+			readValue(*sStream, isAbstract);
 			isPrimitive[i] = !isAbstract;
-			*sStream >> taskNames[i];
+			readValue(*sStream, taskNames[i]);
 			emptyMethod[i] = -1;
 			delete sStream;
 		}
@@ -1866,7 +1866,7 @@ newlyReachedMLMs = new noDelIntSet();
 		}
 		isHtnModel = true;
 		sStream = new stringstream(line);
-		readNumber(*sStream, initialTask);
+		readValue(*sStream, initialTask);
 		delete sStream;
 		assert(initialTask < numTasks);
 		// methods
@@ -1874,7 +1874,7 @@ newlyReachedMLMs = new noDelIntSet();
 		readLine(domainFile, line);
 		readLine(domainFile, line);
 		sStream = new stringstream(line);
-		readNumber(*sStream, numMethods);
+		readValue(*sStream, numMethods);
 		delete sStream;
 		decomposedTask = new int[numMethods];
 		subTasks = new int *[numMethods];
@@ -1899,7 +1899,7 @@ newlyReachedMLMs = new noDelIntSet();
 			methodNames[i] = line;
 			readLine(domainFile, line);
 			sStream = new stringstream(line);
-			readNumber(*sStream, decomposedTask[i]);
+			readValue(*sStream, decomposedTask[i]);
 			assert(decomposedTask[i] < numTasks);
 			delete sStream;
 			readLine(domainFile, line);
-- 
2.43.0


From 818d1aa96f3f3a83504365d7ec5330cd69aba046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:47 +0000
Subject: [PATCH 66/83] fix: translation planner: a plan file that cannot be
 opened again is not an empty plan

---
 src/translation/htnToSAS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 722814c..65b7892 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -2574,6 +2574,10 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
     }
 
     fileInput = new ifstream(infile);
+    if (!fileInput->good()) {
+        cerr << "Unable to open input file " << infile << ": " << strerror (errno) << endl;
+        exit(1);
+    }
 
     fin = fileInput;
     string* plan = new string[linecount];
-- 
2.43.0


From 91677a5f99e2c2a61851a0c23f60d17844b43976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:37 +0000
Subject: [PATCH 67/83] fix: SAT planner: the cost bound counts every action,
 also if several share a time step

---
 src/sat/sat_planner.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index 463a758..57c4da9 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -500,11 +500,15 @@ bool createFormulaForDepth(void* solver, PDT* pdt, Model * htn, sat_capsule & ca
 
 
 	if (costMode){
+		// the costs are counted per leaf: in partial order several actions without effects may share one time step
+		vector<vector<pair<int,int>>> leafActions;
+		get_linear_state_atoms(capsule, leafs, leafActions);
+
 		vector<int> costVars;
-		for (int t = 0; t < vars.size(); t++){
-			// maximum cost per time step
+		for (int t = 0; t < leafActions.size(); t++){
+			// maximum cost per leaf
 			int maxCost = 0;
-			for (const auto & [varID,taskID] : vars[t])
+			for (const auto & [varID,taskID] : leafActions[t])
 				maxCost = max(maxCost,htn->actionCosts[taskID]);
 			//cout << "\tMaximum Cost Time " << t << " is " << maxCost << endl;
 
@@ -515,7 +519,7 @@ bool createFormulaForDepth(void* solver, PDT* pdt, Model * htn, sat_capsule & ca
 				//cout << "\tC=" << c << endl;
 				int cvar = capsule.new_variable();
 				DEBUG(capsule.registerVariable(cvar,"cost var " + pad_int(c) + " @ " + pad_int(t)));
-				for (const auto & [varID,taskID] : vars[t])
+				for (const auto & [varID,taskID] : leafActions[t])
 					if (htn->actionCosts[taskID]/costFactor >= c)
 						implies(solver,varID,cvar);
 					else
-- 
2.43.0


From 8054026e6019e3da121a91fe090b427a3805a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:06 +0000
Subject: [PATCH 68/83] PANDA_VERIF: the size of CUDD's memory chunks can be
 chosen (guarded hook for simulation)

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
index 1032430..fc4930c 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
@@ -68,7 +68,12 @@
 
 #define DD_DEFAULT_RESIZE       10      /* how many extra variables */
                                         /* should be added when resizing */
+#ifdef PANDA_VERIF
+extern int ddVerifMemChunk;             /* chosen by the simulator */
+#define DD_MEM_CHUNK            ddVerifMemChunk
+#else
 #define DD_MEM_CHUNK            1022
+#endif
 
 /* These definitions work for CUDD_VALUE_TYPE == double */
 #define DD_ONE_VAL              (1.0)
-- 
2.43.0


From 8d1d6ebf85c73e6a2190b78af31adfcf8bbd8f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:23 +0000
Subject: [PATCH 69/83] PANDA_VERIF: how often CUDD looks at the clock and the
 termination request can be chosen (guarded hook)

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h   | 7 +++++++
 src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
index fc4930c..caa7cdd 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
@@ -201,7 +201,14 @@ extern int ddVerifMemChunk;             /* chosen by the simulator */
  **
  ** @see checkWhetherToGiveUp
  */
+#ifdef PANDA_VERIF
+extern int ddVerifCheckMask;            /* chosen by the simulator */
+#define CUDD_CHECK_MASK ddVerifCheckMask
+#define DD_UNIQUE_CHECK_MASK ddVerifCheckMask
+#else
 #define CUDD_CHECK_MASK 0x7ff
+#define DD_UNIQUE_CHECK_MASK 0x1ffff
+#endif
 
 /*---------------------------------------------------------------------------*/
 /* Type declarations                                                         */
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index 13a3ffe..bdd553e 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -1148,7 +1148,7 @@ cuddUniqueInter(
     unique->uniqueLookUps++;
 #endif
 
-    if (((int64_t) 0x1ffff & (int64_t) unique->cacheMisses) == 0) {
+    if (((int64_t) DD_UNIQUE_CHECK_MASK & (int64_t) unique->cacheMisses) == 0) {
         if (unique->terminationCallback != NULL &&
             unique->terminationCallback(unique->tcbArg)) {
             unique->errorCode = CUDD_TERMINATION;
@@ -1403,7 +1403,7 @@ cuddUniqueInterZdd(
     unique->uniqueLookUps++;
 #endif
 
-    if (((int64_t) 0x1ffff & (int64_t) unique->cacheMisses) == 0) {
+    if (((int64_t) DD_UNIQUE_CHECK_MASK & (int64_t) unique->cacheMisses) == 0) {
         if (unique->terminationCallback != NULL &&
             unique->terminationCallback(unique->tcbArg)) {
             unique->errorCode = CUDD_TERMINATION;
-- 
2.43.0


From 088364829062b312e8456dc38c3c1b7ba12b1cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:07 +0000
Subject: [PATCH 70/83] fix: CUDD: the nodes that a swap of two variables may
 need are reserved before it starts

A node allocation that failed in the middle of a swap left diagrams that
denote other functions.
---
 src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h |  1 +
 .../cudd-3.0.0/cudd/cuddLinear.c              |  4 ++
 .../cudd-3.0.0/cudd/cuddReorder.c             | 47 +++++++++++++++++++
 .../cudd-3.0.0/cudd/cuddZddLin.c              |  5 ++
 .../cudd-3.0.0/cudd/cuddZddReord.c            |  4 ++
 5 files changed, 61 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
index caa7cdd..afc69ec 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
@@ -1183,6 +1183,7 @@ extern void cuddReclaimZdd(DdManager *table, DdNode *n);
 extern void cuddClearDeathRow(DdManager *table);
 extern void cuddShrinkDeathRow(DdManager *table);
 extern DdNode *cuddDynamicAllocNode(DdManager *table);
+extern int cuddReserveNodes(DdManager *table, size_t n);
 extern int cuddSifting(DdManager *table, int lower, int upper);
 extern int cuddSwapping(DdManager *table, int lower, int upper, Cudd_ReorderingType heuristic);
 extern int cuddNextHigh(DdManager *table, int x);
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddLinear.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddLinear.c
index adbb1e3..78046c4 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddLinear.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddLinear.c
@@ -345,6 +345,10 @@ cuddLinearInPlace(
     yindex = table->invperm[y];
 
     if (cuddTestInteract(table,xindex,yindex)) {
+	/* Each x node is re-expressed by at most two new nodes. */
+	if (!cuddReserveNodes(table, 2 * (size_t) table->subtables[x].keys))
+	    goto cuddLinearOutOfMem;
+
 #ifdef DD_STATS
 	table->totalNumberLinearTr++;
 #endif
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
index 6b5e7bc..2e61ccc 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
@@ -442,6 +442,49 @@ cuddDynamicAllocNode(
 } /* end of cuddDynamicAllocNode */
 
 
+/**
+  @brief Makes sure that the next n nodes can be allocated.
+
+  @details Swapping two variables cannot be undone halfway. Hence the
+  nodes it may need are reserved before it starts.
+
+  @return 1 if the free list has at least n nodes; 0 if memory is full.
+
+  @sideeffect May extend the free list.
+
+  @see cuddDynamicAllocNode cuddSwapInPlace
+
+*/
+int
+cuddReserveNodes(
+  DdManager * table,
+  size_t n)
+{
+    DdNode *scan, *list, *last;
+
+    for (scan = table->nextFree; scan != NULL && n > 0; scan = scan->next)
+	n--;
+    while (n > 0) {
+	/* Allocate a new block and put it before the free list. */
+	list = table->nextFree;
+	table->nextFree = NULL;
+	scan = cuddDynamicAllocNode(table);
+	if (scan == NULL) {
+	    table->nextFree = list;
+	    return(0);
+	}
+	table->nextFree = scan;
+	for (last = scan; ; last = last->next) {
+	    if (n > 0) n--;
+	    if (last->next == NULL) break;
+	}
+	last->next = list;
+    }
+    return(1);
+
+} /* end of cuddReserveNodes */
+
+
 /**
   @brief Implementation of Rudell's sifting algorithm.
 
@@ -774,6 +817,10 @@ cuddSwapInPlace(
 	newxkeys = oldxkeys;
 	newykeys = oldykeys;
     } else {
+	/* Each x node is re-expressed by at most two new nodes. */
+	if (!cuddReserveNodes(table, 2 * (size_t) oldxkeys))
+	    goto cuddSwapOutOfMem;
+
 	newxkeys = 0;
 	newykeys = oldykeys;
 
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddLin.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddLin.c
index 12d75cd..7bc8073 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddLin.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddLin.c
@@ -264,6 +264,11 @@ cuddZddLinearInPlace(
     yshift   = table->subtableZ[y].shift;
     newykeys = oldykeys;
 
+    /* Each x node is re-expressed by at most two new nodes, and each
+    ** y node that moves to the x layer by at most one. */
+    if (!cuddReserveNodes(table, 2 * (size_t) oldxkeys + oldykeys))
+	goto zddSwapOutOfMem;
+
     /* The nodes in the x layer are put in two chains.  The chain
     ** pointed by g holds the normal nodes. When re-expressed they stay
     ** in the x list. The chain pointed by special holds the elements
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
index d443e5e..9ad3bd1 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
@@ -467,6 +467,10 @@ cuddZddSwapInPlace(
     yshift   = table->subtableZ[y].shift;
     newykeys = oldykeys;
 
+    /* Each x node is re-expressed by at most two new nodes. */
+    if (!cuddReserveNodes(table, 2 * (size_t) oldxkeys))
+	goto zddSwapOutOfMem;
+
     /* The nodes in the x layer that don't depend on y directly
     ** will stay there; the others are put in a chain.
     ** The chain is handled as a FIFO; g points to the beginning and
-- 
2.43.0


From 76be66b52ad979f4da3e48e882c945c1043f6387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:07 +0000
Subject: [PATCH 71/83] fix: CUDD: Cudd_addFindMax and Cudd_addFindMin used the
 result of an interrupted recursion

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddFind.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddFind.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddFind.c
index 240d784..11f40f1 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddFind.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddFind.c
@@ -113,9 +113,10 @@ Cudd_addFindMax(
     checkWhetherToGiveUp(dd);
 
     t  = Cudd_addFindMax(dd,cuddT(f));
-    if (t == DD_PLUS_INFINITY(dd)) return(t);
+    if (t == NULL || t == DD_PLUS_INFINITY(dd)) return(t);
 
     e  = Cudd_addFindMax(dd,cuddE(f));
+    if (e == NULL) return(NULL);
 
     res = (cuddV(t) >= cuddV(e)) ? t : e;
 
@@ -154,9 +155,10 @@ Cudd_addFindMin(
     checkWhetherToGiveUp(dd);
 
     t  = Cudd_addFindMin(dd,cuddT(f));
-    if (t == DD_MINUS_INFINITY(dd)) return(t);
+    if (t == NULL || t == DD_MINUS_INFINITY(dd)) return(t);
 
     e  = Cudd_addFindMin(dd,cuddE(f));
+    if (e == NULL) return(NULL);
 
     res = (cuddV(t) <= cuddV(e)) ? t : e;
 
-- 
2.43.0


From e0a9804bbb4f5e1e50b1df7c789c8c22a4c7211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:07 +0000
Subject: [PATCH 72/83] fix: CUDD: Cudd_zddSupport used a variable that could
 not be created

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddUtil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddUtil.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddUtil.c
index 3efb7fe..e33004e 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddUtil.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddUtil.c
@@ -528,6 +528,11 @@ Cudd_zddSupport(
                 ** not to trigger reordering because the node we look up
                 ** already exists. */
                 var = cuddUniqueInter(dd,i,dd->one,Cudd_Not(dd->one));
+                if (var == NULL) {
+                    Cudd_RecursiveDeref(dd,res);
+                    res = NULL;
+                    break;
+                }
                 cuddRef(var);
                 tmp = cuddBddAndRecur(dd,res,var);
                 if (tmp == NULL) {
-- 
2.43.0


From d6ac99c9d8ed25666b1df4314a535b6683cb10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:07 +0000
Subject: [PATCH 73/83] fix: CUDD: a failure inside an operator of
 Cudd_addApply was taken for a non-terminal case

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
index 6591ae4..cc1b386 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
@@ -1024,15 +1024,20 @@ cuddAddApplyRecur(
     int ford, gord;
     unsigned int index;
     DD_CTFP cacheOp;
+    Cudd_ErrorType errorCode;
 
     /* Check terminal cases. Op may swap f and g to increase the
      * cache hit rate.
      */
     statLine(dd);
+    errorCode = dd->errorCode;
+    dd->errorCode = CUDD_NO_ERROR;
     res = (*op)(dd,&f,&g);
-    if (res != NULL) return(res);
     /* Op may also have failed in a terminal case. */
-    if (dd->reordered || (cuddIsConstant(f) && cuddIsConstant(g))) return(NULL);
+    if (res == NULL && (dd->reordered || dd->errorCode != CUDD_NO_ERROR ||
+	(cuddIsConstant(f) && cuddIsConstant(g)))) return(NULL);
+    dd->errorCode = errorCode;
+    if (res != NULL) return(res);
 
     /* Check cache. */
     cacheOp = (DD_CTFP) op;
-- 
2.43.0


From 0426604c745fb6b0e37f1eccb341deb5ad34e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:07 +0000
Subject: [PATCH 74/83] fix: CUDD: Cudd_MinHammingDist cached distances that
 were cut off at a bound, and used a constant that could not be created

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
index 7528b5f..c7b2ffd 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
@@ -1870,10 +1870,12 @@ cuddMinHammingDistRecur(
     }
     h = ddMin(hT, hE + 1);
 
-    if (F->ref != 1) {
+    /* Only cache results that do not depend on the value of the bound. */
+    if (F->ref != 1 && h < upperBound) {
 	ptrint fanout = (ptrint) F->ref;
 	cuddSatDec(fanout);
 	res = cuddUniqueConst(dd, (CUDD_VALUE_TYPE) h);
+	if (res == NULL) return(CUDD_OUT_OF_MEM);
 	if (!cuddHashTableInsert1(table,f,res,fanout)) {
 	    cuddRef(res); Cudd_RecursiveDeref(dd, res);
 	    return(CUDD_OUT_OF_MEM);
-- 
2.43.0


From e306139547124dc9f484a118ff995acb1c4101eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:06 +0000
Subject: [PATCH 75/83] fix: symbolic search: an epsilon step of the plan is
 reconstructed up to the state that the rest of the plan starts in

---
 src/symbolic_search/automaton.cpp | 41 ++++++++-----------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 15a6b9d..0b624f4 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -948,37 +948,16 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 			std::deque<int> epsilonMethodStack;
 			std::deque<BDD> epsilonStateStack;
 
-			if (remainingTask == -1){
-				// no new edge was added, regress from the epsilon state itself
-				BDD beforeLast = edgeBDD.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux).
-					SwapVariables(sym_vars.swapVarsEff, sym_vars.swapVarsAux);
-				if (lastTask < htn->numActions)
-					beforeLast = trs[lastTask].preimage(beforeLast);
-				if (beforeLast.IsZero()) continue;
-
-				epsilonTaskStack.push_back(lastTask);
-				epsilonMethodStack.push_back(toVertex);
-				epsilonStateStack.push_back(beforeLast);
-			} else {
-				epsilonTaskStack.push_back(remainingTask);
-				epsilonMethodStack.push_back(remainingMethod);
-				ensureBDD(remainingTask, remainingMethod, pCost, pDepth, sym_vars);
-				epsilonStateStack.push_back(edges[0][remainingTask][remainingMethod][cost][depth] * !edges[0][remainingTask][remainingMethod][pCost][pDepth]);
-		
-				// regress through the last operation that we performed
-				predecessorsIsPossible = generatePredecessor(lastTask,toVertex,
-					epsilonTaskStack,epsilonMethodStack,epsilonStateStack,
-					method2,htn,sym_vars);
-
-				if (!predecessorsIsPossible) {
-					DEBUG(pc(mc); std::cout << "\t" << color(RED,"Predecessor cannot account for the new state.") << std::endl;);
-					continue;
-				}
-
-				epsilonTaskStack.pop_back();
-				epsilonMethodStack.pop_back();
-				epsilonStateStack.pop_back();
-			}
+			// the last operation led to the epsilon state, so regress through it
+			BDD beforeLast = edgeBDD.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux).
+				SwapVariables(sym_vars.swapVarsEff, sym_vars.swapVarsAux);
+			if (lastTask < htn->numActions)
+				beforeLast = trs[lastTask].preimage(beforeLast);
+			if (beforeLast.IsZero()) continue;
+
+			epsilonTaskStack.push_back(lastTask);
+			epsilonMethodStack.push_back(toVertex);
+			epsilonStateStack.push_back(beforeLast);
 
 			// only a target state if push and current are identical	
 			BDD nextTargetState = edgeBDD.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsPre).
-- 
2.43.0


From 725e772cf50a01d5ebc432b50368606646c08e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:06 +0000
Subject: [PATCH 76/83] fix: translation: completing an empty task costs
 nothing

---
 src/translation/htnToSAS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 65b7892..aa600a0 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -2357,7 +2357,7 @@ void HTNToSASTranslation::writeToFastDown(string sasName, bool hasCondEff, bool
         }
         sasfile << cost << " " << var0 << " " << preco << " " << var1 << endl;
       }
-      sasfile << this->actionCostsTrans[i] << endl;
+      sasfile << 0 << endl; // completing an empty task is free
       sasfile << "end_operator" << endl;
       for (int j = 0; j < numP; j++){
         delete[] precs[j];
-- 
2.43.0


From e943972ea54dbbd0943374360012c200fccee7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:00 +0000
Subject: [PATCH 77/83] fix: CUDD: symmetric sifting of ZDDs notices that a
 group move ran out of memory

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
index b42a41f..3308efe 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
@@ -1256,6 +1256,8 @@ cuddZddSymmSifting_up(
 	}
 	else { /* Group move */
 	    size = zdd_group_move(table, y, x, &moves);
+	    if (size == 0)
+		goto cuddZddSymmSifting_upOutOfMem;
 	    if ((double)size >
 		(double)limit_size * table->maxGrowth)
 		return(moves);
@@ -1345,6 +1347,8 @@ cuddZddSymmSifting_down(
 	}
 	else { /* Group move */
 	    size = zdd_group_move(table, x, y, &moves);
+	    if (size == 0)
+		goto cuddZddSymmSifting_downOutOfMem;
 	    if ((double)size >
 		(double)limit_size * table->maxGrowth)
 		return(moves);
@@ -1410,6 +1414,7 @@ cuddZddSymmSiftingBackward(
 	}
 	else { /* Group move necessary */
 	    res = zdd_group_move_backward(table, move->x, move->y);
+	    if (!res) return(0);
 	}
 	if (i_best == -1 && res == size)
 	    break;
-- 
2.43.0


From 4ed23bb3529341796fb8c5423178a9e04d191ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:00 +0000
Subject: [PATCH 78/83] fix: CUDD: a group move or a shuffle of ZDD variables
 that runs out of memory is undone

---
 .../cudd-3.0.0/cudd/cuddGroup.c               | 41 ++++++++++++++-
 src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h |  1 +
 .../cudd-3.0.0/cudd/cuddReorder.c             |  2 +
 .../cudd-3.0.0/cudd/cuddTable.c               |  1 +
 .../cudd-3.0.0/cudd/cuddZddGroup.c            | 41 ++++++++++++++-
 .../cudd-3.0.0/cudd/cuddZddReord.c            | 50 ++++++++++++++++++-
 6 files changed, 131 insertions(+), 5 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGroup.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGroup.c
index dde3bf1..ff0c513 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGroup.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGroup.c
@@ -97,6 +97,7 @@ static int ddGroupSiftingUp (DdManager *table, int y, int xLow, DD_CHKFP checkFu
 static int ddGroupSiftingDown (DdManager *table, int x, int xHigh, DD_CHKFP checkFunction, Move **moves);
 static int ddGroupMove (DdManager *table, int x, int y, Move **moves);
 static int ddGroupMoveBackward (DdManager *table, int x, int y);
+static void ddGroupMoveUndo (DdManager *table, int xsize, int ytop, int i, int j);
 static int ddGroupSiftingBackward (DdManager *table, Move *moves, int size, int upFlag, int lazyFlag);
 static void ddMergeGroups (DdManager *table, MtrNode *treenode, int low, int high);
 static void ddDissolveGroup (DdManager *table, int x, int y);
@@ -1453,7 +1454,10 @@ ddGroupMove(
     for (i = 1; i <= ysize; i++) {
 	for (j = 1; j <= xsize; j++) {
 	    size = cuddSwapInPlace(table,x,y);
-	    if (size == 0) goto ddGroupMoveOutOfMem;
+	    if (size == 0) {
+		ddGroupMoveUndo(table,xsize,ytop,i,j);
+		goto ddGroupMoveOutOfMem;
+	    }
 #if defined(DD_DEBUG) && defined(DD_VERBOSE)
 	    if (size < bestSize)
 		bestSize = size;
@@ -1551,8 +1555,10 @@ ddGroupMoveBackward(
     for (i = 1; i <= ysize; i++) {
 	for (j = 1; j <= xsize; j++) {
 	    size = cuddSwapInPlace(table,x,y);
-	    if (size == 0)
+	    if (size == 0) {
+		ddGroupMoveUndo(table,xsize,ytop,i,j);
 		return(0);
+	    }
 	    y = x;
 	    x = cuddNextLow(table,y);
 	}
@@ -1586,6 +1592,37 @@ ddGroupMoveBackward(
 } /* end of ddGroupMoveBackward */
 
 
+/**
+  @brief Undoes the part of a group move that was done when a swap failed.
+
+  @details The variables of a group must stay adjacent.  The swap that
+  failed is the j-th one of the i-th variable of the second group.  The
+  nodes that the swaps before it have freed are sufficient to undo them.
+
+  @sideeffect None
+
+*/
+static void
+ddGroupMoveUndo(
+  DdManager * table,
+  int  xsize,
+  int  ytop,
+  int  i,
+  int  j)
+{
+    table->undo = 1;
+    for (;;) {
+	if (--j == 0) {
+	    if (--i == 0) break;
+	    j = xsize;
+	}
+	if (cuddSwapInPlace(table,ytop+i-1-j,ytop+i-j) == 0) break;
+    }
+    table->undo = 0;
+
+} /* end of ddGroupMoveUndo */
+
+
 /**
   @brief Determines the best position for a variables and returns
   it there.
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
index afc69ec..7e60de5 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
@@ -482,6 +482,7 @@ struct DdManager {
     CUDD_VALUE_TYPE epsilon;    /**< tolerance on comparisons */
     /* Dynamic Reordering Parameters */
     int reordered;              /**< flag set at the end of reordering */
+    int undo;			/**< flag set while swaps are undone */
     unsigned int reorderings;   /**< number of calls to Cudd_ReduceHeap */
     unsigned int maxReorderings;/**< maximum number of calls to Cudd_ReduceHeap */
     int siftMaxVar;             /**< maximum number of vars sifted */
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
index 2e61ccc..005f8af 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
@@ -462,6 +462,8 @@ cuddReserveNodes(
 {
     DdNode *scan, *list, *last;
 
+    if (table->undo) return(1);
+
     for (scan = table->nextFree; scan != NULL && n > 0; scan = scan->next)
 	n--;
     while (n > 0) {
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index bdd553e..e30fa0a 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -590,6 +590,7 @@ cuddInitTable(
 
     /* Initialize fields concerned with automatic dynamic reordering. */
     unique->reordered = 0;
+    unique->undo = 0;
     unique->reorderings = 0;
     unique->maxReorderings = ~0;
     unique->siftMaxVar = DD_SIFT_MAX_VAR;
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddGroup.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddGroup.c
index ce13d78..381361c 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddGroup.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddGroup.c
@@ -86,6 +86,7 @@ static int zddGroupSiftingUp (DdManager *table, int y, int xLow, Move **moves);
 static int zddGroupSiftingDown (DdManager *table, int x, int xHigh, Move **moves);
 static int zddGroupMove (DdManager *table, int x, int y, Move **moves);
 static int zddGroupMoveBackward (DdManager *table, int x, int y);
+static void zddGroupMoveUndo (DdManager *table, int xsize, int ytop, int i, int j);
 static int zddGroupSiftingBackward (DdManager *table, Move *moves, int size);
 static void zddMergeGroups (DdManager *table, MtrNode *treenode, int low, int high);
 
@@ -1078,7 +1079,10 @@ zddGroupMove(
     for (i = 1; i <= ysize; i++) {
 	for (j = 1; j <= xsize; j++) {
 	    size = cuddZddSwapInPlace(table,x,y);
-	    if (size == 0) goto zddGroupMoveOutOfMem;
+	    if (size == 0) {
+		zddGroupMoveUndo(table,xsize,ytop,i,j);
+		goto zddGroupMoveOutOfMem;
+	    }
 #if defined(DD_DEBUG) && defined(DD_VERBOSE)
 	    if (size < bestSize)
 		bestSize = size;
@@ -1176,8 +1180,10 @@ zddGroupMoveBackward(
     for (i = 1; i <= ysize; i++) {
 	for (j = 1; j <= xsize; j++) {
 	    size = cuddZddSwapInPlace(table,x,y);
-	    if (size == 0)
+	    if (size == 0) {
+		zddGroupMoveUndo(table,xsize,ytop,i,j);
 		return(0);
+	    }
 	    y = x;
 	    x = cuddZddNextLow(table,y);
 	}
@@ -1211,6 +1217,37 @@ zddGroupMoveBackward(
 } /* end of zddGroupMoveBackward */
 
 
+/**
+  @brief Undoes the part of a group move that was done when a swap failed.
+
+  @details The variables of a group must stay adjacent.  The swap that
+  failed is the j-th one of the i-th variable of the second group.  The
+  nodes that the swaps before it have freed are sufficient to undo them.
+
+  @sideeffect None
+
+*/
+static void
+zddGroupMoveUndo(
+  DdManager * table,
+  int  xsize,
+  int  ytop,
+  int  i,
+  int  j)
+{
+    table->undo = 1;
+    for (;;) {
+	if (--j == 0) {
+	    if (--i == 0) break;
+	    j = xsize;
+	}
+	if (cuddZddSwapInPlace(table,ytop+i-1-j,ytop+i-j) == 0) break;
+    }
+    table->undo = 0;
+
+} /* end of zddGroupMoveUndo */
+
+
 /**
   @brief Determines the best position for a variables and returns
   it there.
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
index 9ad3bd1..1116166 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
@@ -86,6 +86,7 @@ static int cuddZddSiftingBackward (DdManager *table, Move *moves, int size);
 static void zddReorderPreprocess (DdManager *table);
 static int zddReorderPostprocess (DdManager *table);
 static int zddShuffle (DdManager *table, int *permutation);
+static void zddShuffleUndo (DdManager *table, int index, int *positions, int level);
 static int zddSiftUp (DdManager *table, int x, int xLow);
 static void zddFixTree (DdManager *table, MtrNode *treenode);
 
@@ -1466,6 +1467,7 @@ zddShuffle(
     int		position;
     int		numvars;
     int		result;
+    int		*positions;
 #ifdef DD_STATS
     unsigned long localTime;
     int		initialSize;
@@ -1482,6 +1484,11 @@ zddShuffle(
 #endif
 
     numvars = table->sizeZ;
+    positions = ALLOC(int,numvars);
+    if (positions == NULL) {
+	table->errorCode = CUDD_MEMORY_OUT;
+	return(0);
+    }
 
     for (level = 0; level < numvars; level++) {
 	index = permutation[level];
@@ -1489,8 +1496,13 @@ zddShuffle(
 #ifdef DD_STATS
 	previousSize = table->keysZ;
 #endif
+	positions[level] = position;
 	result = zddSiftUp(table,position,level);
-	if (!result) return(0);
+	if (!result) {
+	    zddShuffleUndo(table,index,positions,level);
+	    FREE(positions);
+	    return(0);
+	}
 #ifdef DD_STATS
 	if (table->keysZ < (unsigned) previousSize) {
 	    (void) fprintf(table->out,"-");
@@ -1503,6 +1515,8 @@ zddShuffle(
 #endif
     }
 
+    FREE(positions);
+
 #ifdef DD_STATS
     (void) fprintf(table->out,"\n");
     finalSize = table->keysZ;
@@ -1518,6 +1532,40 @@ zddShuffle(
 } /* end of zddShuffle */
 
 
+/**
+  @brief Restores the order of the variables when zddShuffle runs out
+  of memory.
+
+  @details The variables of a group must stay adjacent, which they need
+  not be in the middle of a shuffle.  The swaps that were made are
+  undone in reverse order; the nodes they have freed are sufficient.
+
+  @sideeffect None
+
+*/
+static void
+zddShuffleUndo(
+  DdManager * table,
+  int  index /**< variable that could not be moved */,
+  int * positions /**< levels the variables were moved from */,
+  int  level /**< level the variable should have moved to */)
+{
+    int x = table->permZ[index];
+
+    table->undo = 1;
+    for (;;) {
+	for (; x < positions[level]; x++) {
+	    if (cuddZddSwapInPlace(table,x,x+1) == 0) goto done;
+	}
+	if (level == 0) break;
+	x = --level;
+    }
+done:
+    table->undo = 0;
+
+} /* end of zddShuffleUndo */
+
+
 /**
   @brief Moves one %ZDD variable up.
 
-- 
2.43.0


From b0487918d3736ee27577d50850cbabb10e891b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:00 +0000
Subject: [PATCH 79/83] fix: CUDD: operations that fail release the nodes and
 the memory they hold

---
 .../cudd-3.0.0/cudd/cuddAddWalsh.c            |  1 +
 .../cudd-3.0.0/cudd/cuddBridge.c              | 45 ++++++++++++-------
 .../cudd-3.0.0/cudd/cuddDecomp.c              |  1 +
 .../cudd-3.0.0/cudd/cuddGenCof.c              |  4 ++
 .../cudd-3.0.0/cudd/cuddMatMult.c             |  1 +
 .../cudd-3.0.0/cudd/cuddReorder.c             |  4 +-
 .../cudd-3.0.0/cudd/cuddSign.c                | 11 ++++-
 .../cudd-3.0.0/cudd/cuddUtil.c                |  1 +
 8 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
index 4243e3c..eeedfea 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -223,6 +223,7 @@ Cudd_addResidue(
 		for (j = 0; j < m; j++) {
 		    Cudd_RecursiveDeref(dd,array[previous][j]);
 		}
+		Cudd_RecursiveDeref(dd,var);
 		FREE(array[0]);
 		FREE(array[1]);
 		return(NULL);
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddBridge.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddBridge.c
index 4d4374f..bbd2a92 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddBridge.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddBridge.c
@@ -83,6 +83,7 @@ static DdNode * addBddDoInterval (DdManager *dd, DdNode *f, DdNode *l, DdNode *u
 static DdNode * addBddDoIthBit (DdManager *dd, DdNode *f, DdNode *index);
 static DdNode * ddBddToAddRecur (DdManager *dd, DdNode *B);
 static DdNode * cuddBddTransferRecur (DdManager *ddS, DdManager *ddD, DdNode *f, st_table *table);
+static enum st_retval ddTransferDeref (void * key, void * value, void * arg);
 
 /** \endcond */
 
@@ -418,34 +419,22 @@ cuddBddTransfer(
   DdNode * f)
 {
     DdNode *res;
-    st_table *table = NULL;
-    st_generator *gen = NULL;
-    DdNode *key, *value;
+    st_table *table;
 
     table = st_init_table(st_ptrcmp,st_ptrhash);
-    if (table == NULL) goto failure;
+    if (table == NULL) return(NULL);
     res = cuddBddTransferRecur(ddS, ddD, f, table);
     if (res != NULL) cuddRef(res);
 
     /* Dereference all elements in the table and dispose of the table.
     ** This must be done also if res is NULL to avoid leaks in case of
     ** reordering. */
-    gen = st_init_gen(table);
-    if (gen == NULL) goto failure;
-    while (st_gen(gen, (void **) &key, (void **) &value)) {
-	Cudd_RecursiveDeref(ddD, value);
-    }
-    st_free_gen(gen); gen = NULL;
-    st_free_table(table); table = NULL;
+    (void) st_foreach(table, ddTransferDeref, ddD);
+    st_free_table(table);
 
     if (res != NULL) cuddDeref(res);
     return(res);
 
-failure:
-    /* No need to free gen because it is always NULL here. */
-    if (table != NULL) st_free_table(table);
-    return(NULL);
-
 } /* end of cuddBddTransfer */
 
 
@@ -905,6 +894,30 @@ ddBddToAddRecur(
 } /* end of ddBddToAddRecur */
 
 
+/**
+  @brief Releases a node of the destination manager held in the table
+  used by Cudd_bddTransfer.
+
+  @return ST_CONTINUE.
+
+  @sideeffect None
+
+  @see cuddBddTransfer
+
+*/
+static enum st_retval
+ddTransferDeref(
+  void * key,
+  void * value,
+  void * arg)
+{
+    (void) key; /* avoid warning */
+    Cudd_RecursiveDeref((DdManager *) arg, (DdNode *) value);
+    return(ST_CONTINUE);
+
+} /* end of ddTransferDeref */
+
+
 /**
   @brief Performs the recursive step of Cudd_bddTransfer.
 
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
index b772142..9c30325 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
@@ -337,6 +337,7 @@ Cudd_bddIterConjDecomp(
 	/* Compute the second factor by minimization. */
 	res[1] = Cudd_bddLICompaction(dd,old[1],res[0]);
 	if (res[1] == NULL) {
+	    Cudd_RecursiveDeref(dd,res[0]);
 	    Cudd_RecursiveDeref(dd,old[0]);
 	    Cudd_RecursiveDeref(dd,old[1]);
 	    return(0);
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
index 1a324a5..e6c275e 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
@@ -360,6 +360,10 @@ Cudd_bddConstrainDecomp(
 	res = cuddBddConstrainDecomp(dd,f,decomp);
     } while (dd->reordered == 1);
     if (res == 0) {
+	/* Release the components that had been computed. */
+	for (i = 0; i < dd->size; i++) {
+	    if (decomp[i] != NULL) Cudd_IterDerefBdd(dd, decomp[i]);
+	}
 	FREE(decomp);
         if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
           dd->timeoutHandler(dd, dd->tohArg);
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
index c1ceb36..3efa829 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
@@ -180,6 +180,7 @@ Cudd_addTimesPlus(
 	 w = Cudd_addIte(dd,z[i],cube,DD_ZERO(dd));
 	 if (w == NULL) {
 	    Cudd_RecursiveDeref(dd,tmp);
+	    Cudd_RecursiveDeref(dd,cube);
 	    return(NULL);
 	 }
 	 Cudd_Ref(w);
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
index 005f8af..70a82d2 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
@@ -236,8 +236,10 @@ Cudd_ReduceHeap(
                    table->totalNISwaps);
 #endif
 
-    if (result == 0)
+    if (result == 0) {
+	(void) ddReorderPostprocess(table);
 	return(0);
+    }
 
     if (!ddReorderPostprocess(table))
 	return(0);
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
index e2d50f8..52f108b 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
@@ -237,9 +237,16 @@ ddCofMintermAux(
 	Nnv = Cudd_NotCond(cuddE(N),N!=node);
 
 	valuesT = ddCofMintermAux(dd, Nv, table);
-	if (valuesT == NULL) return(NULL);
+	if (valuesT == NULL) {
+	    FREE(values);
+	    return(NULL);
+	}
 	valuesE = ddCofMintermAux(dd, Nnv, table);
-	if (valuesE == NULL) return(NULL);
+	if (valuesE == NULL) {
+	    if (Cudd_Regular(Nv)->ref == 1) FREE(valuesT);
+	    FREE(values);
+	    return(NULL);
+	}
 
 	if (Cudd_IsConstantInt(Nv)) {
 	    localSizeT = 1;
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
index 276763d..62bd5cb 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
@@ -2137,6 +2137,7 @@ Cudd_FirstPrime(
     gen->gen.primes.cube = ALLOC(int,dd->size);
     if (gen->gen.primes.cube == NULL) {
 	dd->errorCode = CUDD_MEMORY_OUT;
+	Cudd_RecursiveDeref(dd,gen->node);
 	FREE(gen);
 	return(NULL);
     }
-- 
2.43.0


From 11ec4c93bcacc18c24e09d6d5f391e0f058a61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:23 +0000
Subject: [PATCH 80/83] fix: translation: the initial state was written in the
 order of the input list, not of the variables, if every variable has several
 values

---
 src/translation/htnToSAS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index aa600a0..12a6fea 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -1,5 +1,6 @@
 #include "htnToSAS.h"
 
+#include <algorithm>
 #include <fstream>
 #include <cstring>
 #include <list>
@@ -106,6 +107,8 @@ void HTNToSASTranslation::sasPlus(){
   numStateBitsSP = lastIndexSP[htn->numVars - 1] + 1;
   
   if (not(change)){
+    // one fact per variable, in the order of the variables (as below)
+    sort(htn->s0List, htn->s0List + htn->s0Size);
     cerr << " no change";
     return;
   }
-- 
2.43.0


From a0d4837413a3c56ef1901e50f5e75e4cb4d216ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:23 +0000
Subject: [PATCH 81/83] fix: an action that deletes and adds the same fact was
 impossible for SAT-based planning and symbolic search

---
 src/Model.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Model.cpp b/src/Model.cpp
index b6042a1..8a4da69 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1683,6 +1683,14 @@ newlyReachedMLMs = new noDelIntSet();
 			conditionalDelLists[i] = get<1>(dels);
 			conditionalDelListsCondition[i] = get<2>(dels);
 
+			// an action that deletes and adds the same fact adds it
+			set<int> added(addLists[i], addLists[i] + numAdds[i]);
+			int numKept = 0;
+			for (int j = 0; j < numDels[i]; j++) {
+				if (!added.count(delLists[i][j])) delLists[i][numKept++] = delLists[i][j];
+			}
+			numDels[i] = numKept;
+
 #ifndef NDEBUG
 			for (int j = 0; j < numPrecs[i]; j++) {
 				assert(precLists[i][j] < numStateBits);
-- 
2.43.0


From 75b06d242509504cccb087fae63a52104ed0ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:23 +0000
Subject: [PATCH 82/83] fix: conditional effects of the input were silently
 ignored, so that plans and verdicts were wrong

---
 src/Model.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Model.cpp b/src/Model.cpp
index 8a4da69..3a55165 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1683,6 +1683,11 @@ newlyReachedMLMs = new noDelIntSet();
 			conditionalDelLists[i] = get<1>(dels);
 			conditionalDelListsCondition[i] = get<2>(dels);
 
+			if (numConditionalAdds[i] || numConditionalDels[i]) {
+				cerr << "Unable to read the input: action #" << i << " has conditional effects, which are not supported." << endl;
+				exit(1);
+			}
+
 			// an action that deletes and adds the same fact adds it
 			set<int> added(addLists[i], addLists[i] + numAdds[i]);
 			int numKept = 0;
-- 
2.43.0


From 2e72ee9b3bf3c91f1f4fc8fa9198be56d8a809af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:22 +0000
Subject: [PATCH 83/83] fix: a planner configuration given with --downwardConf
 was glued to the name of the plan file, so that no plan was found

---
 src/translation/translationController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index da2b466..42b523f 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -98,7 +98,7 @@ int runFD(string sasfile, string solver, string downwardConf, string & planFileN
 	else if (downwardConf == "ehc-ff()")
 		command += string(" --evaluator 'hff=ff()' --search 'iterated([ehc(hff, preferred=[hff]),lazy_greedy([hff], preferred=[hff])], continue_on_fail=true, continue_on_solve=false, max_time=1800)'");
 	else
-		command += downwardConf;
+		command += string(" ") + downwardConf;
 
 	// add the file input
 	command += string("  < ") + sasfile;
-- 
2.43.0

