From b712aab32f26d312cb6223ad083da45c17cd03ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 01/79] fix: match partially ordered task networks with one
 consistent mapping

The matching found below a pair of plan steps was discarded (maps were passed
by value), so steps reachable on several paths could be mapped differently on
each, and non-isomorphic search nodes were reported as already visited.
---
 src/VisitedList.cpp | 101 +++++++++++++++++++++++---------------------
 1 file changed, 53 insertions(+), 48 deletions(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 8c22c10..6bfb9b3 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -155,62 +155,69 @@ void to_dfs(planStep *s, vector<int> &seq) {
 }
 
 
-bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping);
-
+// successors of a pair of matched plan steps that still have to be matched, grouped by task
+struct matchingFrame {
+    map<int, set<planStep *>> oneNextTasks;
+    map<int, set<planStep *>> otherNextTasks;
+    unordered_set<int> tasks;
+};
 
 void getSortedTasks(planStep **network, int size, int *succ);
 
+bool matchingDFS(planStep *oneStep, planStep *otherStep,
+                 const map<planStep *, planStep *> &mapping, const map<planStep *, planStep *> &backmapping,
+                 vector<matchingFrame> frames);
+
+// matches everything that is left in the frames (starting with the last one), given what is already matched.
 bool matchingGenerate(
-        searchNode *one, searchNode *other,
-        map<planStep *, planStep *> &mapping, map<planStep *, planStep *> &backmapping,
-        map<int, set<planStep *>> oneNextTasks,
-        map<int, set<planStep *>> otherNextTasks,
-        unordered_set<int> tasks
+        const map<planStep *, planStep *> &mapping, const map<planStep *, planStep *> &backmapping,
+        vector<matchingFrame> frames
 ) {
-    if (tasks.size() == 0)
-        return true; // done, all children
+    if (frames.size() == 0)
+        return true; // everything is matched
 
-    if (oneNextTasks[*tasks.begin()].size() == 0) {
-        tasks.erase(*tasks.begin());
-        return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+    matchingFrame &frame = frames.back();
+    if (frame.tasks.size() == 0) {
+        frames.pop_back(); // done, all children
+        return matchingGenerate(mapping, backmapping, frames);
     }
 
-    int task = *tasks.begin();
+    int task = *frame.tasks.begin();
+
+    if (frame.oneNextTasks[task].size() == 0) {
+        frame.tasks.erase(task);
+        return matchingGenerate(mapping, backmapping, frames);
+    }
 
-    planStep *psOne = *oneNextTasks[task].begin();
-    oneNextTasks[task].erase(psOne);
+    planStep *psOne = *frame.oneNextTasks[task].begin();
+    frame.oneNextTasks[task].erase(psOne);
 
 	DEBUG(cout << "One Task " << task << endl);
 
     // possible partners
-    for (planStep *psOther : otherNextTasks[task]) {
+    for (planStep *psOther : set<planStep *>(frame.otherNextTasks[task])) {
 		DEBUG(cout << "\tOne Task " << task << endl);
 		DEBUG(cout << "\tPartner " << psOther << " " << psOther->task << endl);
         
-		if (mapping.count(psOne) && mapping[psOne] != psOther) continue;
-        if (backmapping.count(psOther) && backmapping[psOther] != psOne) continue;
+		if (mapping.count(psOne) && mapping.at(psOne) != psOther) continue;
+        if (backmapping.count(psOther) && backmapping.at(psOther) != psOne) continue;
 		DEBUG(cout << "\tOK" << endl);
 
-        bool subRes = true;
-        map<planStep *, planStep *> subMapping = mapping;
-        map<planStep *, planStep *> subBackmapping = backmapping;
+        vector<matchingFrame> subFrames = frames;
+        subFrames.back().otherNextTasks[task].erase(psOther);
 
-        if (!mapping.count(psOne)) { // don't check again if we already did it
+        if (mapping.count(psOne)) { // don't check again if we already did it
+            if (matchingGenerate(mapping, backmapping, subFrames))
+                return true;
+        } else {
+            map<planStep *, planStep *> subMapping = mapping;
+            map<planStep *, planStep *> subBackmapping = backmapping;
             subMapping[psOne] = psOther;
             subBackmapping[psOther] = psOne;
 
-            // run the DFS below this pair
-            subRes = matchingDFS(one, other, psOne, psOther, subMapping, subBackmapping);
-        }
-
-
-        if (subRes) {
-            map<int, set<planStep *>> subOtherNextTasks = otherNextTasks;
-            subOtherNextTasks[task].erase(psOther);
-
-            // continue the extraction with the next task
-            if (matchingGenerate(one, other, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks))
+            // match what is below this pair, and then everything that is left in the frames. The decisions made below
+            // this pair must be known there, since plan steps can be reached on several paths
+            if (matchingDFS(psOne, psOther, subMapping, subBackmapping, subFrames))
                 return true;
         }
     }
@@ -218,35 +225,33 @@ bool matchingGenerate(
     return false; // did not find any valid matching
 }
 
-bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping) {
+bool matchingDFS(planStep *oneStep, planStep *otherStep,
+                 const map<planStep *, planStep *> &mapping, const map<planStep *, planStep *> &backmapping,
+                 vector<matchingFrame> frames) {
 	if (oneStep->numSuccessors != otherStep->numSuccessors) return false; // is not possible
-    if (oneStep->numSuccessors == 0) return true; // no successors, matching OK
-
 
     // groups the successors into buckets according to their task labels
-    map<int, set<planStep *>> oneNextTasks;
-    map<int, set<planStep *>> otherNextTasks;
-    unordered_set<int> tasks;
+    matchingFrame frame;
 
 	DEBUG(cout << "Categorisation:" << endl);
 
     for (int i = 0; i < oneStep->numSuccessors; i++) {
         planStep *ps = oneStep->successorList[i];
-        oneNextTasks[ps->task].insert(ps);
-        tasks.insert(ps->task);
+        frame.oneNextTasks[ps->task].insert(ps);
+        frame.tasks.insert(ps->task);
 		DEBUG(cout << "\tone: " << ps->task << endl);
     }
     for (int i = 0; i < otherStep->numSuccessors; i++) {
         planStep *ps = otherStep->successorList[i];
-        otherNextTasks[ps->task].insert(ps);
-        tasks.insert(ps->task);
+        frame.otherNextTasks[ps->task].insert(ps);
+        frame.tasks.insert(ps->task);
 		DEBUG(cout << "\tother: " << ps->task << endl);
     }
 
-    for (int t : tasks) if (oneNextTasks[t].size() != otherNextTasks[t].size()) return false;
+    for (int t : frame.tasks) if (frame.oneNextTasks[t].size() != frame.otherNextTasks[t].size()) return false;
 
-    return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+    frames.push_back(frame);
+    return matchingGenerate(mapping, backmapping, frames);
 }
 
 
@@ -270,7 +275,7 @@ bool matching(searchNode *one, searchNode *other) {
     mapping[oneHead] = otherHead;
     backmapping[otherHead] = oneHead;
 
-    bool result = matchingDFS(one, other, oneHead, otherHead, mapping, backmapping);
+    bool result = matchingDFS(oneHead, otherHead, mapping, backmapping, {});
 
     //delete oneHead;
     //delete otherHead;
-- 
2.43.0


From 37d8a36fc50ae6148e0c808baf71a98a62075a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 02/79] fix: detect parallel-sequences instances only if they
 are

A task with several predecessors (or several successors) in a method of the
initial task did not prevent the instance from being treated as parallel
sequences, so the duplicate detection ignored parts of the task network.
---
 src/Model.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 0782e92..fb6ed4b 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1946,6 +1946,13 @@ newlyReachedMLMs = new noDelIntSet();
 		}
 
 
+		// the initial task may only be decomposed into several chains if this cannot happen inside of another task network
+		if (!isTotallyOrdered)
+			for (int i = 0; i < numMethods; i++)
+				for (int j = 0; j < numSubTasks[i]; j++)
+					if (subTasks[i][j] == initialTask)
+						isUniquePaths = isParallelSequences = false;
+
 		// Mapping from task to methods where it is a subtasks
 		stToMethodNum = new int[this->numTasks];
 		for (int i = 0; i < this->numTasks; i++)
@@ -3066,11 +3073,10 @@ newlyReachedMLMs = new noDelIntSet();
 
 			if (notOneSuccessor > 1 || notOnePredecessor > 1) {
 				isTotallyOrdered = false;
-				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask) {
+				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask)
 					isUniquePaths = false;
-					if (notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
-						isParallelSequences = false;
-				}
+				if (notZeroOrOneSuccessor || notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
+					isParallelSequences = false;
 			}
 		}
 
-- 
2.43.0


From 9d15adecd9fb772ded9514f4c9fed493dff29f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 03/79] fix: order newly unconstrained tasks independently of
 memory addresses

The order of the first tasks of a progressed node depended on the addresses of
its plan steps, so runs with the same random seed could differ.
---
 src/Model.cpp | 2 +-
 src/Model.h   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index fb6ed4b..c409fe9 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1054,7 +1054,7 @@ newlyReachedMLMs = new noDelIntSet();
 			potentialPredecessors.pop_front();
 			done.insert(ps2);
 			//cout << "GET " << ps2 << endl;
-			set<planStep *>::iterator iter = potentiallyFirst.find(ps2);
+			auto iter = potentiallyFirst.find(ps2);
 			if (iter != potentiallyFirst.end()) {
 				potentiallyFirst.erase(iter);
 				//cout << "ERASE " << ps2 << endl;
diff --git a/src/Model.h b/src/Model.h
index fa1b018..44792e0 100644
--- a/src/Model.h
+++ b/src/Model.h
@@ -292,7 +292,11 @@ namespace progression {
 
 			void tarjan(int v);
 
-			set<planStep *> potentiallyFirst;
+			// ordered by ID, so that the order of new first tasks does not depend on memory addresses
+			struct planStepIDLess {
+				bool operator()(const planStep * a, const planStep * b) const { return a->id < b->id; }
+			};
+			set<planStep *, planStepIDLess> potentiallyFirst;
 			set<planStep *> done;
 			forward_list<planStep *> potentialPredecessors;
 
-- 
2.43.0


From 67aff64c68ae3e5f1d7a80d6bc368e173426ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 04/79] fix: do not compare f-values that are not yet computed
 when re-opening is off

In suboptimal search, nodes are inserted before the fringe sets their f-value.
The partial-order mode of the visited list compared it nevertheless.
---
 src/VisitedList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 6bfb9b3..6a6e215 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -573,7 +573,7 @@ bool VisitedList::insertVisi(searchNode *n) {
 			//cout << endl << endl << "Comp " << result << endl;
 			//other->printNode(cout);
 			if (result) {
-				if (other->fValue > n->fValue){
+				if (!noReopening && other->fValue > n->fValue){
 					toRemove = other;
 					continue;
 				}
-- 
2.43.0


From 8aea104231a54043fbc97eda61836f59d854e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 05/79] fix: split sequence tries correctly at block boundaries

Inserting a sequence of a multiple of 64 bits that is a proper prefix of a
stored one split the node at bit 64, which lost the stored sequence.
---
 src/intDataStructures/CompressedSequenceSet.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/intDataStructures/CompressedSequenceSet.cpp b/src/intDataStructures/CompressedSequenceSet.cpp
index ed93d09..6f9bcc7 100644
--- a/src/intDataStructures/CompressedSequenceSet.cpp
+++ b/src/intDataStructures/CompressedSequenceSet.cpp
@@ -242,6 +242,11 @@ void compressed_sequence_trie::insert(const vector<uint64_t> & sequence, int pad
 			DEBUG(cout << "\tNew sequence ends within." << endl);
 			block_with_first_difference = sequence.size() - myFirstBlock - 1;
 			splitBit = 64 - paddingBits;
+			if (splitBit == 64){
+				// the sequence ends exactly at the end of a block, i.e. we have to split in front of the next one
+				block_with_first_difference++;
+				splitBit = 0;
+			}
 			// split
 			split_me_at(block_with_first_difference,splitBit);
 			p = &payload;
-- 
2.43.0


From bdce7da1eca135dc28d3b080ece6bd4fc9cb3b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 06/79] fix: compute minimal implied costs and distances as a
 fixpoint from above

---
 src/Model.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index c409fe9..5f60368 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2698,8 +2698,9 @@ newlyReachedMLMs = new noDelIntSet();
 		int *minImpliedDistanceM = new int[this->numMethods];
 
 		for (int i = 0; i < this->numMethods; i++) {
-            minEstimatedCostsM[i] = 0;
-			minImpliedDistanceM[i] = 0;
+			// not known until values for all subtasks are known
+            minEstimatedCostsM[i] = INT_MAX;
+			minImpliedDistanceM[i] = INT_MAX;
 		}
 
 		for (int i = 0; i < this->numTasks; i++) {
@@ -2707,8 +2708,8 @@ newlyReachedMLMs = new noDelIntSet();
                 minEstimatedCosts[i] = this->actionCosts[i];
 				minImpliedDistance[i] = 1;
 			} else {
-                minEstimatedCosts[i] = 0;
-				minImpliedDistance[i] = 0;
+                minEstimatedCosts[i] = INT_MAX;
+				minImpliedDistance[i] = INT_MAX;
 			}
 		}
 
@@ -2734,6 +2735,11 @@ newlyReachedMLMs = new noDelIntSet();
 				minImpliedDistanceM[n->id] = 1; // a distance of one is implied by the decomposition itself
 				for (int i = 0; i < this->numSubTasks[n->id]; i++) {
 					int st = this->subTasks[n->id][i];
+					if (minImpliedDistance[st] == INT_MAX) { // no value for this subtask so far
+						minEstimatedCostsM[n->id] = INT_MAX;
+						minImpliedDistanceM[n->id] = INT_MAX;
+						break;
+					}
                     minEstimatedCostsM[n->id] += minEstimatedCosts[st];
 					minImpliedDistanceM[n->id] += minImpliedDistance[st];
 				}
@@ -2771,6 +2777,13 @@ newlyReachedMLMs = new noDelIntSet();
 			}
 			delete n;
 		}
+		// tasks without any finite decomposition
+		for (int i = 0; i < this->numTasks; i++) {
+			if (minImpliedDistance[i] == INT_MAX) {
+				minEstimatedCosts[i] = 0;
+				minImpliedDistance[i] = 0;
+			}
+		}
 		delete[] minEstimatedCostsM;
 		delete[] minImpliedDistanceM;
 
-- 
2.43.0


From 6cf2d4bc98bb5f9d45ef002514e7f04fd36a756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 07/79] fix: let the FF relaxed-plan extraction stack grow

---
 src/heuristics/rcHeuristics/hsAddFF.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heuristics/rcHeuristics/hsAddFF.h b/src/heuristics/rcHeuristics/hsAddFF.h
index b62c961..098aa68 100644
--- a/src/heuristics/rcHeuristics/hsAddFF.h
+++ b/src/heuristics/rcHeuristics/hsAddFF.h
@@ -14,7 +14,7 @@
 #include "../../intDataStructures/IntPairHeap.h"
 #include "../../intDataStructures/bucketSet.h"
 #include "../../intDataStructures/noDelIntSet.h"
-#include "../../intDataStructures/IntStack.h"
+#include "../../intDataStructures/FlexIntStack.h"
 #include "../../Model.h"
 #include "LMCutLandmark.h"
 
@@ -58,7 +58,7 @@ namespace progression {
 
         noDelIntSet markedFs;
         noDelIntSet markedOps;
-        IntStack needToMark;
+        FlexIntStack needToMark; // may hold more entries than there are state bits
 
         bool allActionsCostOne = false;
 
-- 
2.43.0


From d47104c2c13c6516350209ce6d91c0b3be137ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 08/79] fix: cut heuristic values at the integer range instead
 of overflowing

---
 src/heuristics/rcHeuristics/hhRC2.h     |  8 +++++---
 src/heuristics/rcHeuristics/hsAddFF.cpp | 13 +++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/heuristics/rcHeuristics/hhRC2.h b/src/heuristics/rcHeuristics/hhRC2.h
index ed1724a..ed70c54 100644
--- a/src/heuristics/rcHeuristics/hhRC2.h
+++ b/src/heuristics/rcHeuristics/hhRC2.h
@@ -226,6 +226,7 @@ public:
 
         if (correctTaskCount) {
             if (hval != UNREACHABLE) {
+                long long corrected = hval;
                 for (int i = 0; i < n->numContainedTasks; i++) {
                     if (n->containedTaskCount[i] > 1) {
                         int task = n->containedTasks[i];
@@ -233,15 +234,16 @@ public:
                         assert(task < htn->numTasks);
                         if (useAdmissibleCostEstimate) {
                             if (task < htn->numActions) {
-                                hval += (htn->actionCosts[task] * (count - 1));
+                                corrected += ((long long) htn->actionCosts[task] * (count - 1));
                             }
                         } else if (estimate == estDISTANCE) {
-                            hval += (htn->minImpliedDistance[task] * (count - 1));
+                            corrected += ((long long) htn->minImpliedDistance[task] * (count - 1));
                         } else if (estimate == estCOSTS) {
-                            hval += (htn->minEstimatedCosts[task] * (count - 1));
+                            corrected += ((long long) htn->minEstimatedCosts[task] * (count - 1));
                         }
                     }
                 }
+                hval = (corrected < INT_MAX - 2) ? (int) corrected : INT_MAX - 2;
             }
         }
         return hval;
diff --git a/src/heuristics/rcHeuristics/hsAddFF.cpp b/src/heuristics/rcHeuristics/hsAddFF.cpp
index 5c2f738..9ce7fe7 100644
--- a/src/heuristics/rcHeuristics/hsAddFF.cpp
+++ b/src/heuristics/rcHeuristics/hsAddFF.cpp
@@ -143,11 +143,12 @@ namespace progression {
             if (g.get(prop)) {
                 if (--numGoals == 0) {
                     if (heuristic == sasAdd) {
-                        hVal = 0;
+                        long long sum = 0; // the sum may exceed hType
                         for (int f = g.getFirst(); f >= 0; f = g.getNext()) {
                             assert(hValProp[f] != hUnreachable);
-                            hVal += hValProp[f];
+                            sum += hValProp[f];
                         }
+                        hVal = (sum < INT_MAX) ? (hType) sum : (hType) (INT_MAX - 2);
                         break;
                     } else { // FF extraction
                         hVal = getFF(g);
@@ -157,15 +158,15 @@ namespace progression {
             }
             for (int iOp = 0; iOp < m->precToActionSize[prop]; iOp++) {
                 int op = m->precToAction[prop][iOp];
-                hType newVal;
+                long long newVal; // may exceed hType
                 if (this->heuristic == sasFF) {
-                    newVal = max(hValOp[op], m->actionCosts[op] + pVal);
+                    newVal = max((long long) hValOp[op], (long long) m->actionCosts[op] + pVal);
                 }
                 else {
-                    newVal = hValOp[op] + pVal;
+                    newVal = (long long) hValOp[op] + pVal;
                 }
 
-                if ((newVal < hValOp[op]) || (newVal < pVal)) {
+                if ((newVal >= hUnreachable) || (newVal < pVal)) {
                     if (!this->reportedOverflow) {
                         cout << "WARNING: Integer overflow in hAdd/hFF calculation. Value has been cut." << endl;
                         cout << "         You can choose a different data type for the Add/FF calculation (look for \"hType\" in heuristic class)" << endl;
-- 
2.43.0


From 472a0fd827d8ef567fd15bf243d80d968f61d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 09/79] fix: keep orderings through no-op tasks when writing
 HDDL

---
 src/Model.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 5f60368..e09b126 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2906,23 +2906,26 @@ newlyReachedMLMs = new noDelIntSet();
 
 
 				if (this->numOrderings[i]) {
+					// orderings that lead through a task which is not written must be kept
+					vector<vector<bool>> before(numSubTasks[i], vector<bool>(numSubTasks[i], false));
+					for (int j = 0; j < this->numOrderings[i]; j += 2)
+						before[this->ordering[i][j]][this->ordering[i][j + 1]] = true;
+					for (int noop : noopIDs)
+						for (int x = 0; x < numSubTasks[i]; x++)
+							for (int y = 0; y < numSubTasks[i]; y++)
+								if (before[x][noop] && before[noop][y]) before[x][y] = true;
 
-					int j = 0;
 					bool firstOrdering = true;
-					while (j < this->numOrderings[i]) {
-						if (this->ordering[i][j] == possibleMethodPrecondition || noopIDs.count(this->ordering[i][j]) || noopIDs.count(this->ordering[i][j] + 1) ) {
-							j+=2;
+					for (int x = 0; x < numSubTasks[i]; x++) for (int y = 0; y < numSubTasks[i]; y++) {
+						if (!before[x][y] || x == possibleMethodPrecondition || noopIDs.count(x) || noopIDs.count(y))
 							continue;
-						}
 						if (firstOrdering) {
 							dfile << "     :ordering (and" << endl;
 							firstOrdering = false;
 						}
 						
 						
-						dfile << "        (task" << this->ordering[i][j] << " < task" << this->ordering[i][j + 1] << ")"
-							<< endl;
-						j += 2;
+						dfile << "        (task" << x << " < task" << y << ")" << endl;
 					}
 					if (!firstOrdering) dfile << "     )" << endl;
 				}
-- 
2.43.0


From acb74d0adff6fbe3d78c67566b6f2f1b9c0d344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 10/79] fix: build the action vectors that h2 pruning needs
 when SAT mutexes are off

---
 src/SearchEngine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SearchEngine.cpp b/src/SearchEngine.cpp
index ccb04b8..654341b 100644
--- a/src/SearchEngine.cpp
+++ b/src/SearchEngine.cpp
@@ -229,7 +229,8 @@ int main(int argc, char *argv[]) {
 	bool trackContainedTasks = useTaskHash;
     Model* htn = new Model(trackContainedTasks, reachability, true, true);
 	htn->filename = inputFilename;
-	if (args_info.satmutexes_flag) htn->rintanenInvariants = true;
+	// h2 pruning uses the same action representation as the mutex computation
+	if (args_info.satmutexes_flag || string(args_info.pruning_arg) == "h2") htn->rintanenInvariants = true;
 	htn->read(inputStream);
 	assert(htn->isHtnModel);
 	searchNode* tnI = htn->prepareTNi(htn);
-- 
2.43.0


From 7300d490d26d3e52d6d44601c6cbc9061a7c0112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 11/79] fix: bound the cost of every plan step when optimising
 partially ordered plans

---
 src/sat/sat_planner.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index ee86171..fc8ff61 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -482,25 +482,26 @@ bool createFormulaForDepth(void* solver, PDT* pdt, Model * htn, sat_capsule & ca
 
 	if (costMode){
 		vector<int> costVars;
-		for (int t = 0; t < vars.size(); t++){
-			// maximum cost per time step
+		// count per leaf, as one time step can contain several effect-less actions
+		for (PDT* leaf : leafs){
+			// maximum cost per leaf
 			int maxCost = 0;
-			for (const auto & [varID,taskID] : vars[t])
-				maxCost = max(maxCost,htn->actionCosts[taskID]);
-			//cout << "\tMaximum Cost Time " << t << " is " << maxCost << endl;
+			for (size_t p = 0; p < leaf->possiblePrimitives.size(); p++)
+				if (leaf->primitiveVariable[p] != -1)
+					maxCost = max(maxCost,htn->actionCosts[leaf->possiblePrimitives[p]]);
 
 			maxCost /= costFactor;
 
-			//cout << "\tGenerating cost Implications" << endl;
 			for (int c = 1; c <= maxCost; c++){
-				//cout << "\tC=" << c << endl;
 				int cvar = capsule.new_variable();
-				DEBUG(capsule.registerVariable(cvar,"cost var " + pad_int(c) + " @ " + pad_int(t)));
-				for (const auto & [varID,taskID] : vars[t])
-					if (htn->actionCosts[taskID]/costFactor >= c)
-						implies(solver,varID,cvar);
+				DEBUG(capsule.registerVariable(cvar,"cost var " + pad_int(c) + " @ " + path_string(leaf->path)));
+				for (size_t p = 0; p < leaf->possiblePrimitives.size(); p++){
+					if (leaf->primitiveVariable[p] == -1) continue;
+					if (htn->actionCosts[leaf->possiblePrimitives[p]]/costFactor >= c)
+						implies(solver,leaf->primitiveVariable[p],cvar);
 					else
-						impliesNot(solver,varID,cvar);
+						impliesNot(solver,leaf->primitiveVariable[p],cvar);
+				}
 
 				costVars.push_back(cvar);
 			}
-- 
2.43.0


From dd0878825b2798ad5b7a1add0463f09e8ee400be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 12/79] fix: stop SAT plan optimisation at cost zero

---
 src/sat/sat_planner.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index fc8ff61..1467225 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -757,6 +757,7 @@ void optimise_with_sat_planner_linear_bound_increase(Model * htn, bool block_com
 #endif
 			auto [apparentCost,trueCost] = printSolution(solver,htn,pdt,matching);
 			ipasir_release(solver);
+			if (apparentCost == 0) return; // there cannot be a cheaper plan
 			if (apparentCost < 1000)
 				costFactor = 1; // try to get a better resolution ...
 			currentMaximumCost = apparentCost - costFactor;
-- 
2.43.0


From c12b388019d79ed7460e2cfca016707e3f60a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 13/79] fix: order effect-less actions correctly in partially
 ordered SAT encoding

Leafs without effects may share a time step with a leaf that has one.
Their preconditions are evaluated before that effect, but nothing kept
the effect-less successors of the leaf with the effect out of its time
step, and the plan printed the actions of a time step in arbitrary
order. The planner returned plans that violate the ordering or the
preconditions. There also was no time step left for effect-less actions
after the last action with an effect.
---
 src/sat/partial_order.cpp | 12 ++++++++++++
 src/sat/sat_planner.cpp   | 32 ++++++++++++++++++++++++--------
 src/sat/state_formula.cpp |  3 ++-
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/sat/partial_order.cpp b/src/sat/partial_order.cpp
index 5d52986..57d9190 100644
--- a/src/sat/partial_order.cpp
+++ b/src/sat/partial_order.cpp
@@ -160,6 +160,18 @@ void generate_matching_formula(void* solver, sat_capsule & capsule, Model * htn,
 		}
 	}
 
+	// leafs without effects may share a position with a leaf that has one. At every position, they are executed before the
+	// action with effects. So if leaf l @ position p has effects, its effect-less successors are forbidden even at p
+	for (int l = 0; l < leafSOG->numberOfVertices; l++){
+		if (!leafSOG->leafContainsEffectAction[l]) continue;
+		for (int lSucc : leafSOG->successorSet[l]){
+			if (leafSOG->leafContainsEffectAction[lSucc]) continue;
+			for (int p = 0; p < vars.size(); p++){
+				implies(solver,matching.matchingPerLeaf[l][p],forbiddenPerLeaf[lSucc][p]);
+			}
+		}
+	}
+
 	// forbidden-ness gets implied onwards
 	for (int l = 0; l < leafSOG->numberOfVertices; l++){
 		for (int lSucc : leafSOG->adj[l]){
diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index 1467225..19f614e 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -15,6 +15,7 @@
 #include <fstream>
 #include <iomanip>
 #include <cmath>
+#include <algorithm>
 
 #include <sys/sysinfo.h>
 #include "stdlib.h"
@@ -97,22 +98,37 @@ pair<int,int> printSolution(void * solver, Model * htn, PDT* pdt, MatchingData &
 	// if po output the primitive plan now
 	if (!htn->isTotallyOrdered){
 		for (int p = 0; p < matching.matchingPerPosition.size(); p++){
+			// leafs at this position, together with the task they contain
+			vector<pair<int,int>> leafsAtPosition;
 			for (auto [pvar, prim] : matching.vars[p]){
 				if (ipasir_val(solver,pvar) > 0){
 					// find the if of the matched leaf
 					for (int l = 0; l < matching.matchingPerPosition[p].size(); l++){
 						if (ipasir_val(solver,matching.matchingPerPosition[p][l]) > 0
-								&& matching.leafSOG->leafOfNode[l]->outputTask == prim){
-							// get the output number of that leaf
-							PDT * leaf = matching.leafSOG->leafOfNode[l];
-							solutionCost += htn->actionCosts[prim];
-							trueSolutionCost += originalActionCosts[prim];
-							leafsWithTask.push_back({leaf,l});
-							std::cout << leaf->outputID << " " << htn->taskNames[prim] << endl;
-						}
+								&& matching.leafSOG->leafOfNode[l]->outputTask == prim)
+							leafsAtPosition.push_back({l,prim});
 					}
 				}
 			}
+
+			// effect-less leafs come before the leaf with an effect and are ordered amongst each other (a leaf has strictly more successors than any of its successors)
+			SOG * leafSOG = matching.leafSOG;
+			sort(leafsAtPosition.begin(), leafsAtPosition.end(), [&](const pair<int,int> & a, const pair<int,int> & b) {
+				if (leafSOG->leafContainsEffectAction[a.first] != leafSOG->leafContainsEffectAction[b.first])
+					return (bool) leafSOG->leafContainsEffectAction[b.first];
+				if (leafSOG->successorSet[a.first].size() != leafSOG->successorSet[b.first].size())
+					return leafSOG->successorSet[a.first].size() > leafSOG->successorSet[b.first].size();
+				return a.first < b.first;
+			});
+
+			for (auto [l, prim] : leafsAtPosition){
+				// get the output number of that leaf
+				PDT * leaf = leafSOG->leafOfNode[l];
+				solutionCost += htn->actionCosts[prim];
+				trueSolutionCost += originalActionCosts[prim];
+				leafsWithTask.push_back({leaf,l});
+				std::cout << leaf->outputID << " " << htn->taskNames[prim] << endl;
+			}
 		}
 	}
 	
diff --git a/src/sat/state_formula.cpp b/src/sat/state_formula.cpp
index 955d8f5..f2de3c0 100644
--- a/src/sat/state_formula.cpp
+++ b/src/sat/state_formula.cpp
@@ -275,7 +275,8 @@ void get_partial_state_atoms(sat_capsule & capsule, Model * htn, SOG* sog, vecto
 		sog->leafContainsEffectAction[t] = actualAction;
 	}
 	int numberOfTimeSteps = sog->numberOfVertices - leafsWithoutActualActions;
-	numberOfTimeSteps = numberOfTimeSteps;
+	// effect-less actions are executed before the action with effects at the same position, so those after the last such action need a position of their own
+	if (leafsWithoutActualActions > 0) numberOfTimeSteps++;
 	if (numberOfTimeSteps == 0) numberOfTimeSteps = 1;
 	
 	cout << "Total Leafs: " << sog->numberOfVertices << " of that without effect-actions " << leafsWithoutActualActions << " remaining: " << numberOfTimeSteps << endl;
-- 
2.43.0


From 1a3d01bb2ca634ac718d114a6e8d8dd876c5736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 14/79] fix: do not add orderings when merging partially
 ordered methods for SAT

A method was merged into the children of a PDT vertex by looking only at
the direct orderings between the children it uses. Orderings of several
methods could combine transitively into one that a method does not
have, or into a cycle, and the planner lost the method's solutions.
---
 src/sat/sog.cpp | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/sat/sog.cpp b/src/sat/sog.cpp
index 9ccc8d8..8f7c0dc 100644
--- a/src/sat/sog.cpp
+++ b/src/sat/sog.cpp
@@ -5,6 +5,46 @@
 #include "pdt.h"
 
 
+// determines whether task subTask of method m can be put on vertex v such that the ordering of the SOG, if closed transitively, does
+// neither contain a cycle nor an ordering that one of the methods does not have
+bool impliesOnlyPresentOrderings(SOG* sog, vector<unordered_set<uint16_t>> & antiAdj, Model* htn, int m, int subTask, size_t stID, vector<uint16_t> & mapping, int v){
+	// all vertices ordered before / after v, if the task is put there
+	unordered_set<int> before, after;
+	vector<int> beforeStack = {v}, afterStack = {v};
+	vector<int> unordered;
+	for (size_t ostID = 0; ostID < stID; ostID++){
+		int otherSubTask = htn->methodTotalOrder[m][ostID];
+		if (htn->methodSubTasksPredecessors[m][subTask].count(otherSubTask))
+			beforeStack.push_back(mapping[otherSubTask]);
+		else if (htn->methodSubTasksSuccessors[m][subTask].count(otherSubTask))
+			afterStack.push_back(mapping[otherSubTask]);
+		else
+			unordered.push_back(mapping[otherSubTask]);
+	}
+	
+	while (beforeStack.size()){
+		int x = beforeStack.back(); beforeStack.pop_back();
+		if (before.insert(x).second)
+			beforeStack.insert(beforeStack.end(), sog->bdj[x].begin(), sog->bdj[x].end());
+	}
+	while (afterStack.size()){
+		int x = afterStack.back(); afterStack.pop_back();
+		if (after.insert(x).second)
+			afterStack.insert(afterStack.end(), sog->adj[x].begin(), sog->adj[x].end());
+	}
+
+	for (int x : unordered)
+		if (before.count(x) || after.count(x)) return false;
+
+	for (int x : before){
+		if (x != v && after.count(x)) return false; // cycle
+		for (int y : after)
+			if (antiAdj[x].count(y)) return false;
+	}
+	return true;
+}
+
+
 SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & methods, Model* htn, bool effectLessActionsInSeparateLeaf){
 	vector<unordered_set<uint16_t>> antiAdj;
 	vector<unordered_set<uint16_t>> antiBdj;
@@ -82,6 +122,9 @@ SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & met
 					}
 				}
 			
+				// orderings implied via vertices that this method does not use
+				if (!impliesOnlyPresentOrderings(sog, antiAdj, htn, m, subTask, stID, mapping, v)) goto next_vertex;
+			
 				// if we reached this point, this vertex is ok
 				matchingVertices.push_back(v);
 next_vertex:;
-- 
2.43.0


From 2d42336fa0b2a722efe151328eef79d16e005f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 15/79] fix: plan with effect-less actions in separate leafs if
 a leaf has to mix them

With -m, the SAT planner silently exited without a result as soon as a
leaf contained actions with and without effects (which inheriting a
primitive task into the children cannot always avoid, and which the
encoding supports), and read the effects of abstract tasks out of
bounds.
---
 src/sat/pdt.cpp           | 49 +++++++--------------------------------
 src/sat/state_formula.cpp |  4 ----
 2 files changed, 8 insertions(+), 45 deletions(-)

diff --git a/src/sat/pdt.cpp b/src/sat/pdt.cpp
index 225fe53..a072777 100644
--- a/src/sat/pdt.cpp
+++ b/src/sat/pdt.cpp
@@ -286,39 +286,25 @@ void PDT::expandPDT(Model* htn, bool effectLessActionsInSeparateLeaf){
 				}
 
 			if (!found) {
+				// childrenTasks[0][p] = _empty; no need to do this, as there are no duplicates in the list of primitives
+				selectedChild = 0; // just take 0
 				if (effectLessActionsInSeparateLeaf){
-					// childrenTasks[0][p] = _empty; no need to do this, as there are no duplicates in the list of primitives
+					// if possible take a child that has only tasks of the same kind
 					bool iameffectLess = htn->numAdds[p] == 0 && htn->numDels[p] == 0; 
-					bool childSelected = false;
 					for (size_t c = 0; c < sog->numberOfVertices; c++){
 						if (childrenTasks[c].size() != 0){
 							int itsFirst = childrenTasks[c].begin()->first;
-							bool itEffectless = htn->numAdds[itsFirst] == 0 && htn->numDels[itsFirst] == 0;
+							bool itEffectless = itsFirst < htn->numActions && htn->numAdds[itsFirst] == 0 && htn->numDels[itsFirst] == 0;
 							if (itEffectless != iameffectLess) continue;
 						}
-						// 
 						selectedChild = c;
-						int subIndex = children[selectedChild]->possiblePrimitives.size();
-						children[selectedChild]->possiblePrimitives.push_back(p);
-						childCausesForPrimitives[selectedChild].push_back(_empty);
-						positionOfPrimitiveTasksInChildren[selectedChild][p] = subIndex;
-						childSelected = true;
 						break;
 					}
-
-					if (!childSelected){
-						cout << "Edge case: no proper child selectable. Not yet implemented. mail g.behnke@uva.nl for bugfixing." << endl;
-						exit(0);
-					}
-				} else {
-					// just take 0
-					// childrenTasks[0][p] = _empty; no need to do this, as there are no duplicates in the list of primitives
-					selectedChild = 0;
-					int subIndex = children[selectedChild]->possiblePrimitives.size();
-					children[selectedChild]->possiblePrimitives.push_back(p);
-					childCausesForPrimitives[selectedChild].push_back(_empty);
-					positionOfPrimitiveTasksInChildren[selectedChild][p] = subIndex;	
 				}
+				int subIndex = children[selectedChild]->possiblePrimitives.size();
+				children[selectedChild]->possiblePrimitives.push_back(p);
+				childCausesForPrimitives[selectedChild].push_back(_empty);
+				positionOfPrimitiveTasksInChildren[selectedChild][p] = subIndex;
 			}
 			
 			
@@ -335,25 +321,6 @@ void PDT::expandPDT(Model* htn, bool effectLessActionsInSeparateLeaf){
 
 	for (size_t c = 0; c < sog->numberOfVertices; c++){
 	
-#ifndef NDEBUG
-		if (effectLessActionsInSeparateLeaf){
-			bool actualAction = false;
-			bool effectLessAction = false;
-			for (int prim : children[c]->possiblePrimitives){
-				cout << htn->taskNames[prim];
-				if (htn->numAdds[prim] > 0 || htn->numDels[prim] > 0){
-					actualAction = true;
-				} else {
-					effectLessAction = true;
-				}
-			}
-
-			if (actualAction && effectLessAction) {
-				cout << "Non allowed mix of actions with effects and without." << endl;
-				exit(0);
-			}
-		}
-#endif
 
 
 
diff --git a/src/sat/state_formula.cpp b/src/sat/state_formula.cpp
index f2de3c0..f1da35b 100644
--- a/src/sat/state_formula.cpp
+++ b/src/sat/state_formula.cpp
@@ -261,16 +261,12 @@ void get_partial_state_atoms(sat_capsule & capsule, Model * htn, SOG* sog, vecto
 	sog->leafContainsEffectAction.resize(sog->numberOfVertices);
 	for (int t = 0; t < sog->numberOfVertices; t++){
 		bool actualAction = false;
-		bool effectLessAction = false;
 		for (int prim : sog->leafOfNode[t]->possiblePrimitives){
 			if (htn->numAdds[prim] > 0 || htn->numDels[prim] > 0){
 				actualAction = true;
-			} else {
-				effectLessAction = true;
 			}
 		}
 
-		if (effectLessActionsInSeparateLeafs && actualAction && effectLessAction) exit(0);
 		if (!actualAction) leafsWithoutActualActions++;
 		sog->leafContainsEffectAction[t] = actualAction;
 	}
-- 
2.43.0


From 6a0be700679c13fa4dfa19d26948316aca2f17be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:45 +0000
Subject: [PATCH 16/79] fix: respect the order of two-task methods in the
 symbolic planner

The second subtask was taken as the first one if it is ordered before
the other. The planner returned invalid plans.
---
 src/symbolic_search/automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 8b80a59..9e82524 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1196,7 +1196,7 @@ void build_automaton(Model * htn){
 		int first = htn->subTasks[method][0];
 		int second = htn->subTasks[method][1];
 		assert(htn->numOrderings[method] == 2);
-		if (htn->ordering[method][0] == 1 && htn->ordering[method][1])
+		if (htn->ordering[method][0] == 1 && htn->ordering[method][1] == 0)
 			std::swap(first,second);
 
 		tasks_per_method[method] = {first, second};
-- 
2.43.0


From d30088d9777605da5da3c5377003beb450561de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 17/79] fix: visit all cost layers in the symbolic planner

Edges with extra costs may start a cost layer without any queue for
primitive tasks, and cost layers need not be contiguous. The planner
read past the end of its maps and crashed.
---
 src/symbolic_search/automaton.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 9e82524..450abd1 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -313,10 +313,17 @@ pair<int,int> prev(int cost, int depth){
 	if (depth != 0)
 		return {cost, depth-1};
 
-	if (abst_q[cost-1].size() == 0)
-		return {cost-1, 0};
+	// the layer before this one, there may be no layer with exactly cost-1
+	int lastCost = -1;
+	auto prim = prim_q.lower_bound(cost);
+	if (prim != prim_q.begin()) lastCost = max(lastCost, (--prim)->first);
+	auto abst = abst_q.lower_bound(cost);
+	if (abst != abst_q.begin()) lastCost = max(lastCost, (--abst)->first);
+
+	if (abst_q[lastCost].size() == 0)
+		return {lastCost, 0};
 	
-	return {cost-1, (--abst_q[cost-1].end())->first};
+	return {lastCost, (--abst_q[lastCost].end())->first};
 }
 
 
@@ -1236,6 +1243,7 @@ void build_automaton(Model * htn){
 		tracingInfo from = {currentCost, currentDepthInAbstract, fromTask, fromTo, method, cost, depth, extraCost};
 
 		std::vector<tracingInfo> * insertQueue;
+		if (extraCost) prim_q[currentCost + extraCost]; // the edge was added at this cost, so this layer has to be visited
 #ifndef NDEBUG
 		int insertCost = -1, insertDepth = -1;
 #endif
@@ -1280,9 +1288,7 @@ void build_automaton(Model * htn){
 			
 			unordered_set<int> handledCosts;
 			for(tracingInfo & info : entry.second){
-				//int sourceCost = get<0>(info) + get<7>(info);
-				int sourceCost = get<0>(info);
-				if (get<7>(info) != get<5>(info)) sourceCost += get<7>(info);
+				int sourceCost = get<0>(info) + get<7>(info);
 				if (handledCosts.count(sourceCost)) continue;
 				handledCosts.insert(sourceCost);
 
@@ -1724,13 +1730,17 @@ void build_automaton(Model * htn){
 		
 		if (next_abstract_layer == abst_q[currentCost].end()){
 			// transition to primitive layer
-			auto findIt = prim_q.find(currentCost);
-			findIt++;
-			if (findIt == prim_q.end() && ++abst_q.find(currentCost) == abst_q.end()){
+			// the next cost layer may contain primitive tasks, only abstract tasks (with extra cost), or both
+			auto nextPrim = prim_q.upper_bound(currentCost);
+			auto nextAbst = abst_q.upper_bound(currentCost);
+			if (nextPrim == prim_q.end() && nextAbst == abst_q.end()){
 				std::cout << color(RED,"Problem is unsolvable") << std::endl;
 				exit(0);
 			}
-			currentCost = findIt->first;
+			if (nextPrim == prim_q.end() || (nextAbst != abst_q.end() && nextAbst->first < nextPrim->first))
+				currentCost = nextAbst->first;
+			else
+				currentCost = nextPrim->first;
 			currentDepthInAbstract = 0; // the primitive layer
 			current_queue = prim_q[currentCost];
 			std::cout << color(CYAN,"==========================") << " Cost Layer " << currentCost << std::endl; 
-- 
2.43.0


From 06646ac679b90e4294be6beaf718cac9dbdfa4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 18/79] fix: continue with all current edges in the symbolic
 planner

---
 src/symbolic_search/automaton.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 450abd1..4274aa7 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1363,10 +1363,11 @@ void build_automaton(Model * htn){
 	
 							for (auto & [task2,tos] : edges[to]){
 								for (auto & [to2,bdds] : tos){
-									if (!bdds.count(lastCost) || !bdds[lastCost].count(lastDepth)) continue;
+									// edges may have been added since the current task was queued
+									if (!bdds.count(currentCost) || !bdds[currentCost].count(currentDepthInAbstract)) continue;
 									DEBUG(std::cout << "\tContinuing edge: " << task2 << " " << vertex_to_method[to2] << "\t" << htn->taskNames[task2] << std::endl);
 									
-									BDD bdd = bdds[lastCost][lastDepth];
+									BDD bdd = bdds[currentCost][currentDepthInAbstract];
 									BDD addStateWithIntermediate = nextState * bdd;
 									BDD originalAddStateWithIntermediate = addStateWithIntermediate;
 									// we only add something if it is not already at the edge ...
-- 
2.43.0


From f7cc6548e636104754e31c6526490715a2a5c317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 19/79] fix: use every epsilon state of a known edge in the
 symbolic planner

---
 src/symbolic_search/automaton.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 4274aa7..4a71ebd 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1565,6 +1565,7 @@ void build_automaton(Model * htn){
 	
 										// go through the timesteps where we can potentially have achieved an epsilon transition for this
 	
+										BDD handledEps = sym_vars.zeroBDD();
 										for (int cost = getHere; cost <= lastCost; cost++){
 											for (int depth = 0; depth < eps[methods_with_two_tasks_vertex[method]][cost].size(); depth++){
 												//if (cost == currentCost && depth == currentDepthInAbstract) break; // don't take epsilons from current layer, they will be handled elsewhere ...?
@@ -1573,7 +1574,9 @@ void build_automaton(Model * htn){
 												if (eps_inserted[methods_with_two_tasks_vertex[method]][cost][depth].size() == 0) continue; 
 		
 												// state after eps in v and stack push state in v'
-												BDD epsCurrent = eps[methods_with_two_tasks_vertex[method]][cost][depth];
+												// consider only epsilon states that have not been handled yet
+												BDD epsCurrent = eps[methods_with_two_tasks_vertex[method]][cost][depth] * !handledEps;
+												handledEps += epsCurrent;
 			
 												// determine the state intersection, i.e. whether we actually have a possible epsilon shortcut at this state
 												BDD epsilonIntersect = epsCurrent * sIntersect;
@@ -1616,15 +1619,7 @@ void build_automaton(Model * htn){
 													DEBUG(std::cout << "\t\t\t\tEpsilon transition is not new: " << tasks_per_method[method].second << " " << vertex_to_method[to] << " cost " << actualCost << std::endl);
 													addQ(tasks_per_method[method].second, to, actualCost, task, to, method, cost, depth, true); 
 												}
-												////////////////////////////////////////////////////////////////	
-	
-												// remove the part of the state that we handled from consideration
-												sIntersect = sIntersect * !(epsilonIntersect.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsPre));
-												if (sIntersect.IsZero()) break;
-											}
-											if (sIntersect.IsZero()){
-												DEBUG(std::cout << "\t\t\t\t" << color(RED,"no intersection remaining.") << std::endl);
-												break;
+												////////////////////////////////////////////////////////////////
 											}
 										}
 
-- 
2.43.0


From a0f3410f07d276645182fa837e12bedd6764a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 20/79] fix: plan extraction of the symbolic planner

---
 src/symbolic_search/automaton.cpp | 72 ++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 4a71ebd..3ad98b0 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -487,7 +487,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 	DEBUG(pc(mc); std::cout << "\tKnown causes: " << myPredecessors.size() << std::endl);
 	if (myPredecessors.size() == 0){
 		DEBUG(pc(mc); std::cout << "\t" << color(RED,"Stack has no known causes. This is not possible as we got here somehow.") << std::endl);
-		exit(0);
+		return get_fail();
 	}
 	std::map<std::pair<int,int>,std::vector<tracingInfo> > groupedTracesOrdinary;
 	std::vector<tracingInfo> tracesEpsilon;
@@ -497,7 +497,8 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 		if (cost != -1 && getHere >= 0)
 			tracesEpsilon.push_back(preItem);
 		else
-			groupedTracesOrdinary[std::make_pair(preCost + extraCost, preDepth)].push_back(preItem);
+			// edges that carry additional cost are inserted into the primitive layer of that cost
+			groupedTracesOrdinary[std::make_pair(preCost + extraCost, extraCost ? 0 : preDepth)].push_back(preItem);
 		
 		
 		DEBUG(pc(mc); std::cout << "\t\tEdge c=" << preCost << " d=" << preDepth << " t=" << preTask << " m=" << (preTo != -1?vertex_to_method[preTo]:-1) << " ec=" << cost << " ed=" << getHere << " epC=" << extraCost << std::endl;);
@@ -569,17 +570,15 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 			if (!(newStateStack.front() * targetState).IsZero()){
 				DEBUG(pc(mc); std::cout << "\t\t" << color(GREEN,"Got to target task on stack.") << std::endl);
 				return get_empty_success(newStateStack.front() * targetState);
-			} else {
-				DEBUG(pc(mc); std::cout << "\t\t" << color(RED,"Got to target task on stack, but state does not fit.") << std::endl);
-				return get_fail();
 			}
+			// the task may also occur before in a different state, so continue if it does not fit
 		}
 		
 
 #ifndef NDEBUG
 		int roundCounter = 0;
 #endif
-		for (auto & [_1, _2, preTask, preTo, appliedMethod, cost, depth, extraCost] : tracings){
+		for (auto & [_1, sourcePreDepth, preTask, preTo, appliedMethod, cost, depth, extraCost] : tracings){
 			DEBUG(roundCounter++);
 			DEBUG(pc(mc); std::cout << color(YELLOW, "I could have been inserted by ") << " c=" << preCost - extraCost << " d=" << preDepth << 
 					" t=" << preTask << " m=" << (preTo != -1 ? vertex_to_method[preTo] : -1) << " cost=" << cost << " depth=" << depth << " extraCost=" << extraCost << std::endl);
@@ -621,7 +620,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 				}
 
 				
-				auto [p2Cost, p2Depth] = prev(preCost - extraCost, preDepth);
+				auto [p2Cost, p2Depth] = prev(preCost - extraCost, sourcePreDepth);
 
 				// ensure that this stack is actually present in the previous time step
 				stateStackPredecessor = checkStack(
@@ -681,15 +680,18 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 					// now we are extracting until we have found the first task of the method on the edge
 					int firstTask = tasks_per_method[appliedMethod].first;
 					
-					reconstructed_plan a = extract2From(preCost - extraCost, preDepth, firstTask, sourceCost, newSourceState, 
+					// the second part might not be extractable from the state we started in, if so try the others
+					while (!newSourceState.IsZero()){
+					reconstructed_plan a = extract2From(preCost - extraCost, sourcePreDepth, firstTask, sourceCost, newSourceState, 
 							taskStackFirstPart, methodStackFirstPart, stateStackFirstPart, htn, sym_vars );
 
 					if (!a.success){
 						DEBUG(pc(mc); std::cout << "Extraction of the first part failed. This cannot happen." << std::endl;);
 						//exit(0);
 						//return get_fail();
-						continue;
+						break;
 					}
+					newSourceState *= !a.endState;
 					
 					int prefixExpectedCost = preCost - extraCost - sourceCost - htn->actionCosts[preTask];
 
@@ -700,25 +702,28 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 					}
 
 					// after the additional cost path has been explored, the head of the stack is now the head of the cost path when it finished
-					stateStackPredecessor[0] = a.endState;
-					taskStackPredecessor[0] = firstTask; 
+					std::deque<int> taskStackSecondPart = taskStackPredecessor;
+					std::deque<int> methodStackSecondPart = methodStackPredecessor;
+					std::deque<BDD> stateStackSecondPart = stateStackPredecessor;
+					stateStackSecondPart[0] = a.endState;
+					taskStackSecondPart[0] = firstTask; 
 
 					// ensure that this stack is actually present in the previous time step
-					stateStackPredecessor = checkStack(
+					stateStackSecondPart = checkStack(
 #ifndef NDEBUG
 						mc,
 #endif
-						continueCost,continueDepth,taskStackPredecessor,methodStackPredecessor,stateStackPredecessor,htn,sym_vars);
+						continueCost,continueDepth,taskStackSecondPart,methodStackSecondPart,stateStackSecondPart,htn,sym_vars);
 		
-					if (stateStackPredecessor.front().IsZero()){
+					if (stateStackSecondPart.front().IsZero()){
 						DEBUG(pc(mc); std::cout << "\t\t" << color(RED,"Second source stack does not exist") << std::endl;);
 						continue;
 					}
 					DEBUG(pc(mc); std::cout << "\t\t" << color(GREEN,"Second part of the stack exists") << std::endl;);
 
 					// apply the method there backwards
-					predecessorsIsPossible = generatePredecessor(abstractTask,methodStackPredecessor[1],
-							taskStackPredecessor,methodStackPredecessor,stateStackPredecessor,
+					predecessorsIsPossible = generatePredecessor(abstractTask,methodStackSecondPart[1],
+							taskStackSecondPart,methodStackSecondPart,stateStackSecondPart,
 							appliedMethod,htn,sym_vars);
 					if (!predecessorsIsPossible) {
 						DEBUG(pc(mc); std::cout << "\t" << color(RED,"Predecessor cannot account for the new state.") << std::endl;);
@@ -727,7 +732,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 
 					DEBUG(pc(mc); std::cout << "\t\t" << color(MAGENTA,"Second part continuation ") << " cc=" << continueCost << " cd=" << continueDepth << std::endl);
 					reconstructed_plan b = extract2From(continueCost, continueDepth, targetTask, targetCost, targetState,
-							taskStackPredecessor, methodStackPredecessor, stateStackPredecessor, htn, sym_vars);
+							taskStackSecondPart, methodStackSecondPart, stateStackSecondPart, htn, sym_vars);
 					
 					if (!b.success){
 						DEBUG(pc(mc); std::cout << "Extraction of the second part failed. This cannot happen." << std::endl;);
@@ -764,8 +769,10 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 					a.currentStack.push_front(sub2);
 					
 					a.root = b.root;
+					a.endState = b.endState; // we go on from where the second part started
 					//a.printPlan(htn);
 					return a;
+					}
 				}
 
 				DEBUG(pc(mc); std::cout << "Backtracking beyond decision to take cost edge. This cannot be wrong as the causing stack existed." << std::endl;);
@@ -942,8 +949,8 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 		);
 
 
-		for (auto & [_preCost2, _preDepth2, lastTask, _toAgain, method2, remainingTask, remainingMethod, _] : eps_inserted[toVertex][cost][depth]){
-			DEBUG(pc(mc); std::cout << color(YELLOW,"Vertex was reachable with Epsilon when ") << " next on stack: t=" << remainingTask << " m=" << remainingMethod << " previous task: " << lastTask << " method: " << method2 << " " << endl);
+		for (auto & [_preCost2, _preDepth2, lastTask, _toAgain, method2, _2, _3, _] : eps_inserted[toVertex][cost][depth]){
+			DEBUG(pc(mc); std::cout << color(YELLOW,"Vertex was reachable with Epsilon when ") << " previous task: " << lastTask << " method: " << method2 << " " << endl);
 		
 
 			//////////////////////////////////////////////// Reconstruct a plan for the epsilon transition
@@ -952,10 +959,10 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 			std::deque<int> epsilonMethodStack;
 			std::deque<BDD> epsilonStateStack;
 
-			epsilonTaskStack.push_back(remainingTask);
-			epsilonMethodStack.push_back(remainingMethod);
-			ensureBDD(remainingTask, remainingMethod, pCost, pDepth, sym_vars);
-			epsilonStateStack.push_back(edges[0][remainingTask][remainingMethod][cost][depth] * !edges[0][remainingTask][remainingMethod][pCost][pDepth]);
+			// the new epsilon states themselves, what would follow on the stack is irrelevant
+			epsilonTaskStack.push_back(-1);
+			epsilonMethodStack.push_back(-1);
+			epsilonStateStack.push_back(edgeBDD.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsEff).AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux));
 		
 			// regress through the last operation that we performed
 			predecessorsIsPossible = generatePredecessor(lastTask,toVertex,
@@ -976,6 +983,8 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 				AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux).
 				SwapVariables(sym_vars.swapVarsPre, sym_vars.swapVarsEff) * biimp;
 			
+			// the remainder might not be extractable from the state we started in, if so try the others
+			while (!nextTargetState.IsZero()){
 			reconstructed_plan a = extract2From(cost, depth, firstTask, cost - extraCost, nextTargetState, 
 					epsilonTaskStack, epsilonMethodStack, epsilonStateStack, htn, sym_vars);
 		
@@ -983,8 +992,9 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 				DEBUG(pc(mc); std::cout << "Extraction of the epsilon reduction failed. This cannot happen." << std::endl;);
 				//exit(0);
 				//return get_fail();	
-				continue;
+				break;
 			}
+			nextTargetState *= !a.endState;
 			
 			/*if (a.primitiveCost(htn) != extraCost){
 				DEBUG(pc(mc)); std::cout << "Epsilon: I was expecting " << extraCost << " but got " << a.primitiveCost(htn) << std::endl;
@@ -995,9 +1005,10 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 			//DEBUG(pc(mc)); std::cout << "\t\t\tEpsilon: I got the correct cost " << a.primitiveCost(htn) << " going on " << preCost << " " << preDepth << " " << preTask << " " << sm.front() << std::endl;
 		
 			// clean re-initialisation of stacks
-			stateStackPredecessor[0] *= a.endState.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux);
+			std::deque<BDD> stateStackRemainder = stateStackPredecessor;
+			stateStackRemainder[0] *= a.endState.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux);
 		
-			if (stateStackPredecessor[0].IsZero()) {
+			if (stateStackRemainder[0].IsZero()) {
 				DEBUG(pc(mc); std::cout << "\t" << color(RED,"Predecessor cannot account for the new state.") << std::endl;);
 				continue;
 			}
@@ -1012,7 +1023,7 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 
 
 			reconstructed_plan b = extract2From(preCost, preDepth, targetTask, targetCost, targetState,
-					taskStackPredecessor, methodStackPredecessor, stateStackPredecessor, 
+					taskStackPredecessor, methodStackPredecessor, stateStackRemainder, 
 					htn, sym_vars);
 		
 			if (!b.success) {
@@ -1053,10 +1064,12 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 			
 			a.currentStack = b.currentStack;
 			a.root = b.root;
+			a.endState = b.endState; // we go on from where the remainder started
 			
 			//a.printPlan(htn);
 
 			return a;
+			}
 		}
 
 		DEBUG(pc(mc); std::cout << color(RED,"Backtracking failed at this point ... ") << std::endl);
@@ -1358,6 +1371,8 @@ void build_automaton(Model * htn){
 	 					BDD disjunct = eps[to][currentCost][currentDepthInAbstract] + nextState;  
 						if (disjunct != eps[to][currentCost][currentDepthInAbstract]){
 							eps[to][currentCost][currentDepthInAbstract] = disjunct;
+							// memorise how these epsilon states were reached, even if they do not lead to a new edge right now
+							eps_inserted[to][currentCost][currentDepthInAbstract].push_back({currentCost, currentDepthInAbstract, task, to, htn->emptyMethod[task], -1, -1, -1});
 							DEBUG(std::cout << "\t\t\t\t\t\t" << color(MAGENTA,"Adding to eps of ") << vertex_to_method[to] << std::endl);
 							
 	
@@ -1445,9 +1460,6 @@ void build_automaton(Model * htn){
 									addQ(task2, to2, 0, task, to, htn->emptyMethod[task], -1, -1, false); // no method as primitive
 							
 									
-									tracingInfo tracingInf = {currentCost, currentDepthInAbstract, task, to, htn->emptyMethod[task], task2, to2, -1};
-									eps_inserted[to][currentCost][currentDepthInAbstract].push_back(tracingInf);
-								
 									
 									//if (step == 141){
 									//	exit(0);
-- 
2.43.0


From 73e8646dfcb6d6ac152d40e1ede91323e87ff852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:05 +0000
Subject: [PATCH 21/79] fix: let adding win over deleting the same fact in the
 SAT and BDD planners

---
 src/Model.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Model.cpp b/src/Model.cpp
index e09b126..5d5cb27 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1653,6 +1653,16 @@ newlyReachedMLMs = new noDelIntSet();
 			conditionalDelLists[i] = get<1>(dels);
 			conditionalDelListsCondition[i] = get<2>(dels);
 
+			// adding wins if an action adds and deletes the same fact, such a deletion has no effect
+			int keptDels = 0;
+			for (int j = 0; j < numDels[i]; j++) {
+				bool added = false;
+				for (int k = 0; k < numAdds[i]; k++)
+					if (addLists[i][k] == delLists[i][j]) added = true;
+				if (!added) delLists[i][keptDels++] = delLists[i][j];
+			}
+			numDels[i] = keptDels;
+
 #ifndef NDEBUG
 			for (int j = 0; j < numPrecs[i]; j++) {
 				assert(precLists[i][j] < numStateBits);
-- 
2.43.0


From 772e58620eef95e65b0ee0c561347049e9103b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 22/79] fix: build the SAS+ initial state of the translation
 from all variables

---
 src/translation/htnToSAS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index f0833df..e109800 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -174,7 +174,7 @@ void HTNToSASTranslation::sasPlus(){
   for (int i = 0; i < htn->s0Size; i++){
     int j = 0;
     while (true){
-      if (j >= htn->s0Size || htn->firstIndex[j] > htn->s0List[i]){
+      if (j >= htn->numVars || htn->firstIndex[j] > htn->s0List[i]){
         j--;
         break;
       }
-- 
2.43.0


From 639c671a656b90d71171c0aaed9c4b36d058d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 23/79] fix: allocate the conditional effects of move operators
 with their real number

---
 src/translation/htnToSAS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index e109800..0b4adcb 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -714,9 +714,9 @@ int HTNToSASTranslation::htnToCondSorted(int pgb) {
   index = methodTaskIndex;
   for (int i = 0; i < htn->numTasks; i++) {
     for (int j = 0; j < (pgb - 1); j++){
-      numConditionalEffectsTrans[index] = pgb;
+      numConditionalEffectsTrans[index] = pgb - 2;
       if (j > 0){
-        numConditionalEffectsTrans[index] = pgb + 2;
+        numConditionalEffectsTrans[index] = pgb;
       }
       effectConditionsTrans[index] = new int*[numConditionalEffectsTrans[index]];
       numEffectConditionsTrans[index] = new int[numConditionalEffectsTrans[index]];
-- 
2.43.0


From 55d9045fb2cf94fa1f738e92380ee1241459c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 24/79] fix: print the conditional effects of the partially
 ordered ADL encoding

---
 src/translation/translationController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index aa36173..81e9c11 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -69,7 +69,7 @@ void printSASToFile(HTNToSASTranslation * translation, TranslationType transtype
     gettimeofday(&tp, NULL);
     startT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << "Printing HTN model to file \"" << sasfile << "\" ... ";
-    translation->writeToFastDown(sasfile, transtype == Push, realCosts);
+    translation->writeToFastDown(sasfile, transtype == Push || transtype == BaseCondEffects, realCosts);
     gettimeofday(&tp, NULL);
     currentT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << " (" << (currentT - startT) << " ms)" << endl;
-- 
2.43.0


From 96f926eda414059ccfade1fa9d29dae227253d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 25/79] fix: separate a custom search configuration from the
 planner command

---
 src/translation/translationController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index 81e9c11..543b6a0 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -84,7 +84,7 @@ int runFD(string sasfile, string solver, string downwardConf, string & planFileN
 	else if (downwardConf == "ehc-ff()")
 		command += string(" --evaluator 'hff=ff()' --search 'iterated([ehc(hff, preferred=[hff]),lazy_greedy([hff], preferred=[hff])], continue_on_fail=true, continue_on_solve=false, max_time=1800)'");
 	else
-		command += downwardConf;
+		command += string(" ") + downwardConf;
 
 	// add the file input
 	command += string("  < ") + sasfile;
-- 
2.43.0


From d03ac4c906f92f77faa27bf36fc8e113faa53fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 26/79] fix: end after writing the file when only generating a
 translation

---
 src/translation/translationController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index 543b6a0..d8b55ba 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -220,7 +220,7 @@ void runTranslationPlanner(Model* htn, TranslationType transtype, bool forceTran
 		// what to do
 		performOneTranslation(translation, transtype, parallel, pgbList);
 		printSASToFile(translation, transtype, sasfile, realCosts);
-		if (onlyGenerate) break;
+		if (onlyGenerate) exit(0);
 
 
 		int error_code = runFD(sasfile,downward,downwardConf,planFileName);
-- 
2.43.0


From e9d3f608a24572f78df32d72dc736b60f9601a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 27/79] fix: give the operators that end an empty task no costs

---
 src/translation/htnToSAS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 0b4adcb..8ef1cba 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -2347,7 +2347,7 @@ void HTNToSASTranslation::writeToFastDown(string sasName, bool hasCondEff, bool
         }
         sasfile << cost << " " << var0 << " " << preco << " " << var1 << endl;
       }
-      sasfile << this->actionCostsTrans[i] << endl;
+      sasfile << 0 << endl;
       sasfile << "end_operator" << endl;
       for (int j = 0; j < numP; j++){
         delete[] precs[j];
-- 
2.43.0


From c0732a5a0e90c5a4cb54d7050485b20da85b771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 28/79] fix: follow the contents of heads when turning a
 classical plan into a decomposition

---
 src/translation/htnToSAS.cpp | 98 ++++++++++++------------------------
 1 file changed, 32 insertions(+), 66 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 8ef1cba..a3bee56 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -3,6 +3,7 @@
 #include <fstream>
 #include <cstring>
 #include <list>
+#include <map>
 #include <sys/time.h>
 
 using namespace std;
@@ -2582,12 +2583,19 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
     string* methods = new string[methNumMax];
     int* methIndex = new int[methNumMax];
     int* primIndex = new int[primNumMax];
-    int** subHeads = new int*[methNumMax];
-    bool** subHeadsFixed = new bool*[methNumMax];
+    // the plan elements that the subtasks of a method became
+    int** subElements = new int*[methNumMax];
+    // the method and the subtask that currently occupy a head
+    map<int, pair<int, int>> headContent;
+    auto takeFromHead = [&](int head, int element) {
+      auto it = headContent.find(head);
+      if (it == headContent.end()) return;
+      subElements[it->second.first][it->second.second] = element;
+      headContent.erase(it);
+    };
     bool* hasPrimIndezes = new bool[methNumMax];
     int** firstPrimIndezes = new int*[methNumMax];
     int* order = new int[linecount];
-    int* heads = new int[linecount];
     fout << "==>" << endl;
     int primNum = 0;
     int methNum = 0;
@@ -2597,22 +2605,9 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         primitives[primNum] = plan[i].substr(plan[i].find(": ") + 2, plan[i].length() - plan[i].find(": ") - 3);
         primIndex[primNum] = stoi(plan[i].substr(plan[i].find("id") + 3, plan[i].find("]", plan[i].find("id"), 1) - plan[i].find("id") - 3));
         order[i] = primNum;
-        heads[i] = stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5));
-        
-	    for (int j = methNum - 1; j >= 0; j--){
-		  bool repl = false;
-          for (int k = 0; k < htn->numSubTasks[methIndex[j]]; k++){
-            if (subHeadsFixed[j][k] == false && subHeads[j][k] == heads[i]){
-              subHeadsFixed[j][k] = true;
-			  repl = true;
-              break;
-            }
-          }
-          if (repl){
-            break;
-          }
-        }
-	
+        int head = stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5));
+        takeFromHead(head, primNum);
+
 		fout << primNum << " " << primitives[primNum] << endl;
         primNum++;
       }
@@ -2620,9 +2615,12 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         methods[methNum] = plan[i].substr(plan[i].find(": ") + 2, plan[i].length() - plan[i].find(": ") - 3);
         methIndex[methNum] = stoi(plan[i].substr(plan[i].find("id") + 3, plan[i].find("]", plan[i].find("id"), 1) - plan[i].find("id") - 3));
         order[i] = methNum + primNumMax;
-        heads[i] = stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5));
-        subHeads[methNum] = new int[htn->numSubTasks[methIndex[methNum]]];
-        subHeadsFixed[methNum] = new bool[htn->numSubTasks[methIndex[methNum]]];
+        int head = stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5));
+        takeFromHead(head, order[i]);
+        subElements[methNum] = new int[htn->numSubTasks[methIndex[methNum]]];
+        for (int j = 0; j < htn->numSubTasks[methIndex[methNum]]; j++){
+          subElements[methNum][j] = -1;
+        }
         int index = plan[i].find("firstPrim");
         hasPrimIndezes[methNum] = false;
         if (index < plan[i].length()){
@@ -2648,35 +2646,27 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         index = plan[i].find("subtasks");
         if (index < plan[i].length()){
           string s = plan[i].substr(index + 9, plan[i].find("]", index, 1) - index - 9);
-          for (int j = 0; j < htn->numSubTasks[methIndex[methNum]]; j++){
+          int numHeads = htn->numSubTasks[methIndex[methNum]];
+          if (hasPrimIndezes[methNum]){
+            numHeads -= firstNumTOPrimTasks[methIndex[methNum]];
+          }
+          for (int j = 0; j < numHeads; j++){
             int f = s.find(",");
+            headContent[stoi(s.substr(0, f))] = make_pair(methNum, j);
             if (f < s.length()){
-              subHeads[methNum][j] = stoi(s.substr(0, f));
               s = s.substr(f + 1, s.length());
             }
-            else {
-              subHeads[methNum][j] = stoi(s);
-            }
-          	subHeadsFixed[methNum][j] = false;
-		  }
+          }
         }
         methNum++;
       }
       else if (plan[i].size() > 4 && string("move").compare(plan[i].substr(1, 4)) == 0){
         int from = stoi(plan[i].substr(plan[i].find("from") + 5, plan[i].find("]", plan[i].find("from"), 1) - plan[i].find("from") - 5));
         int to = stoi(plan[i].substr(plan[i].find("to") + 3, plan[i].find("]", plan[i].find("to"), 1) - plan[i].find("to") - 3));
-        bool repl = false;
-        for (int j = methNum - 1; j >= 0; j--){
-          if (repl){
-            break;
-          }
-          for (int k = 0; k < htn->numSubTasks[methIndex[j]]; k++){
-            if (subHeadsFixed[j][k] == false && subHeads[j][k] == from){
-              subHeads[j][k] = to;
-              repl = true;
-              break;
-            }
-          }
+        auto it = headContent.find(from);
+        if (it != headContent.end()){
+          headContent[to] = it->second;
+          headContent.erase(from);
         }
       }
     }
@@ -2700,31 +2690,7 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         }
       }
       for (int j = htn->numSubTasks[m] - 1 - fntopt; j >= 0; j--){
-	int index = -1;
-        for (int k = o + 1; k < linecount - 1; k++){
-          if (order[k] == -1){
-            continue;
-          }
-          if (order[k] < primNumMax){
-            if (primIndex[order[k]] == subTasksInOrder[m][j]){
-              if (heads[k] != subHeads[i][j]){
-                continue;
-              }
-              index = order[k];
-              break;
-            }
-          }
-          else {
-            if (subTasksInOrder[m][j] == htn->decomposedTask[methIndex[order[k]-primNumMax]]){
-              if (heads[k] != subHeads[i][j]){
-                continue;
-              }
-              index = order[k];
-              break;
-            }
-          }
-        }
-        fout << index << " ";
+        fout << subElements[i][j] << " ";
       }
       fout << endl;
     }
-- 
2.43.0


From 6c794d27f354230c1ed80b9de19c9fbb96197307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 29/79] fix: sort the subtasks of a method by its ordering
 before translating it

---
 src/translation/htnToSAS.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index a3bee56..63ccbd9 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -336,23 +336,20 @@ void HTNToSASTranslation::reorderTasks(bool warning){
   	bool valueSet = false;
       for (int k = 0; k < htn->numSubTasks[i]; k++){
         bool notAlone = false;
+        for (int m = 0; m < j; m++){
+          if (k == subs[m]){
+            notAlone = true;
+            break;
+          }
+        }
         for (int l = 0; l < htn->numOrderings[i] / 2; l++){
           bool alreadyUsed = false;
-          bool ka = false;
           for (int m = 0; m < j; m++){
-            if (k == subs[m]){
-              ka = true;
-              break;
-            }
             if (htn->ordering[i][2 * l] == subs[m]){
               alreadyUsed = true;
               break;
             }
           }
-          if (ka){
-            notAlone = true;
-            break;
-          }
           if (not alreadyUsed && htn->ordering[i][2 * l + 1] == k){
             notAlone = true;
             break;
@@ -369,16 +366,19 @@ void HTNToSASTranslation::reorderTasks(bool warning){
       }
     }
 
-    // reordering tasks and adjusting restrictions
+    // reordering tasks (the last one comes first) and adjusting restrictions
+    int* newIndex = new int[htn->numSubTasks[i]];
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-      subTasksInOrder[i][j] = htn->subTasks[i][htn->numSubTasks[i] - 1 - subs[j]];
+      newIndex[subs[j]] = htn->numSubTasks[i] - 1 - j;
+      subTasksInOrder[i][newIndex[subs[j]]] = htn->subTasks[i][subs[j]];
     }
     for (int j = 0; j < htn->numOrderings[i]; j++){
-      htn->ordering[i][j] = htn->numSubTasks[i] - 1 - subs[htn->ordering[i][j]];
+      htn->ordering[i][j] = newIndex[htn->ordering[i][j]];
     }
+    delete[] newIndex;
     // evaluating number of primitive tasks in front
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-      if (htn->isPrimitive[htn->subTasks[i][j]]){
+      if (htn->isPrimitive[htn->subTasks[i][subs[j]]]){
         firstNumTOPrimTasks[i]++;
       }
       else {
-- 
2.43.0


From 03e4c54a3c80124b76ce6e30d5c00844f93ce56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 30/79] fix: recognise methods without a last task by what has
 to be before it

---
 src/translation/htnToSAS.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 63ccbd9..91840e6 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -393,14 +393,14 @@ void HTNToSASTranslation::reorderTasks(bool warning){
     }
     else {
       bool* lower = new bool[htn->numSubTasks[i]];
-      for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
+      for (int j = 1; j < htn->numSubTasks[i]; j++){
         lower[j] = false;
       }
-      lower[htn->numSubTasks[i] - 1] = true;
+      lower[0] = true;
       for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
         for (int k = 0; k < htn->numOrderings[i] / 2; k++){
-          if (lower[htn->ordering[i][2 * k]]){
-            lower[htn->ordering[i][2 * k + 1]] = true;
+          if (lower[htn->ordering[i][2 * k + 1]]){
+            lower[htn->ordering[i][2 * k]] = true;
           }
         }
       }
-- 
2.43.0


From 7ca7fed0e6b4fc1ea863fe66a36a77e43261a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 31/79] fix: do not merge leading actions whose preconditions
 contradict each other

---
 src/translation/htnToSAS.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 91840e6..6062b30 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -271,8 +271,10 @@ int HTNToSASTranslation::calculatePrecsAndAdds(int* s, int* p, int* a, string ta
           start = varChange[i][2 * j];
         }
       }
-      else if (varChange[i][2 * j] != -1 && end != varChange[i][2 * j]){
-        cerr << endl << "variable: " << i << ", value old: " << end << ", value should be: " << varChange[i][2 * j] << endl;
+      // the value the variable has before this task
+      int value = end == -1 ? start : end;
+      if (varChange[i][2 * j] != -1 && value != varChange[i][2 * j]){
+        cerr << endl << "variable: " << i << ", value old: " << value << ", value should be: " << varChange[i][2 * j] << endl;
         for (int j = 0; j < htn->numVars; j++){
           delete[] varChange[j];
         }
-- 
2.43.0


From e5739cc025f84d1f9ceb5068991c7288dd1bae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 32/79] fix: do not fail an operation when automatic reordering
 declines to run

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index 6779800..ea54b5b 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -51,6 +51,9 @@
 /* Constant declarations                                                     */
 /*---------------------------------------------------------------------------*/
 
+/* Automatic reordering is not attempted with fewer live nodes than this. */
+#define DD_MIN_DYN_NODES 10
+
 #ifndef DD_UNSORTED_FREE_LIST
 #ifdef DD_RED_BLACK_FREE_LIST
 /* Constants for red/black trees. */
@@ -1186,6 +1189,7 @@ cuddUniqueInter(
 
     /* countDead is 0 if deads should be counted and ~0 if they should not. */
     if (unique->autoDyn &&
+        unique->keys - unique->dead >= DD_MIN_DYN_NODES &&
         unique->keys - (unique->dead & unique->countDead) >= unique->nextDyn &&
         unique->maxReorderings > 0) {
         unsigned long cpuTime;
@@ -1195,7 +1199,7 @@ cuddUniqueInter(
 	retval = Cudd_CheckKeys(unique);
 	if (retval != 0) return(NULL);
 #endif
-	retval = Cudd_ReduceHeap(unique,unique->autoMethod,10); /* 10 = whatever */
+	retval = Cudd_ReduceHeap(unique,unique->autoMethod,DD_MIN_DYN_NODES);
         unique->maxReorderings--;
 	if (retval == 0) {
             unique->reordered = 2;
@@ -1448,6 +1452,7 @@ cuddUniqueInterZdd(
 
     /* countDead is 0 if deads should be counted and ~0 if they should not. */
     if (unique->autoDynZ &&
+        unique->keysZ - unique->deadZ >= DD_MIN_DYN_NODES &&
         unique->keysZ - (unique->deadZ & unique->countDead) >= unique->nextDyn) {
 #ifdef DD_DEBUG
 	retval = Cudd_DebugCheck(unique);
@@ -1455,7 +1460,7 @@ cuddUniqueInterZdd(
 	retval = Cudd_CheckKeys(unique);
 	if (retval != 0) return(NULL);
 #endif
-	retval = Cudd_zddReduceHeap(unique,unique->autoMethodZ,10); /* 10 = whatever */
+	retval = Cudd_zddReduceHeap(unique,unique->autoMethodZ,DD_MIN_DYN_NODES);
 	if (retval == 0) {
             unique->reordered = 2;
         } else if (unique->terminationCallback != NULL &&
-- 
2.43.0


From ce958491e73bb3b04261180245649869128f8f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 33/79] fix: Cudd_CofMinterm reads past its table for constant
 functions

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
index e2d50f8..63ffb2a 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
@@ -127,7 +127,7 @@ Cudd_CofMinterm(
 	result = ALLOC(double,size + 1);
 	if (result != NULL) {
 	    if (Cudd_IsConstantInt(node))
-		firstLevel = 1;
+		firstLevel = size;
 	    else
 		firstLevel = cuddI(dd,Cudd_Regular(node)->index);
 	    for (i = 0; i < size; i++) {
-- 
2.43.0


From 73b2bf697bb197827a2f4fb0400218fc8f508484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 34/79] fix: Cudd_SplitSet leaks a reference to the chosen
 minterms

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
index f806f6d..03dd025 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
@@ -518,6 +518,8 @@ selectMintermsFromUniverse(
     for (i = 0; i < numVars; i++)
 	Cudd_RecursiveDeref(manager,vars[i]);
     FREE(vars);
+    if (result)
+	cuddDeref(result);
 
     return(result);
 
-- 
2.43.0


From 5a69acd41cda007f426f772a747578cccec30398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 35/79] fix: Cudd_SolveEqn leaks the partial solution when
 variables are reordered

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSolve.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSolve.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSolve.c
index c1af278..2e13046 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSolve.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSolve.c
@@ -111,6 +111,7 @@ Cudd_SolveEqn(
 {
     DdNode *res;
     int *temp;
+    int i;
 
     *yIndex = temp = ALLOC(int, n);
     if (temp == NULL) {
@@ -122,7 +123,18 @@ Cudd_SolveEqn(
 
     do {
 	bdd->reordered = 0;
+	for (i = 0; i < n; i++)
+	    G[i] = NULL;
 	res = cuddSolveEqnRecur(bdd, F, Y, G, n, temp, 0);
+	if (res == NULL) {
+	    /* Drop the components of an incomplete solution. */
+	    for (i = 0; i < n; i++) {
+		if (G[i] != NULL) {
+		    Cudd_RecursiveDeref(bdd, G[i]);
+		    G[i] = NULL;
+		}
+	    }
+	}
     } while (bdd->reordered == 1);
     if (bdd->errorCode == CUDD_TIMEOUT_EXPIRED && bdd->timeoutHandler) {
         bdd->timeoutHandler(bdd, bdd->tohArg);
-- 
2.43.0


From 0ef27ad73c3aefeca3f059b0e9175b6e84cbab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 36/79] fix: Cudd_bddIsVar dereferences complemented and
 constant functions

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
index fcc5eb0..7784f23 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
@@ -238,7 +238,8 @@ Cudd_bddIsVar(
   DdNode * f)
 {
     DdNode *one = DD_ONE(dd);
-    return(f != 0 && cuddT(f) == one && cuddE(f) == Cudd_Not(one));
+    return(f != 0 && !Cudd_IsComplement(f) && !cuddIsConstant(f) &&
+	   cuddT(f) == one && cuddE(f) == Cudd_Not(one));
 
 } /* end of Cudd_bddIsVar */
 
-- 
2.43.0


From ddc03a904201fbb957734249aadc65a16c17193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 37/79] fix: Cudd_bddMakePrime loses the rest of the cube when
 variables are reordered

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
index bce24ee..5ad5076 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
@@ -972,12 +972,27 @@ cuddBddMakePrime(
 
     Cudd_Ref(res);
     scan = cube;
+    Cudd_Ref(scan);
     while (!Cudd_IsConstantInt(scan)) {
 	DdNode *reg = Cudd_Regular(scan);
 	DdNode *var = dd->vars[reg->index];
-	DdNode *expanded = Cudd_bddExistAbstract(dd,res,var);
+	DdNode *expanded;
+	/* Move to the rest of the cube before anything can be reordered. */
+	cuddGetBranches(scan,&t,&e);
+	if (t == lzero) {
+	    t = e;
+	} else if (e != lzero) {
+	    Cudd_RecursiveDeref(dd,res);
+	    Cudd_RecursiveDeref(dd,scan);
+	    return(NULL);	/* cube is not a cube */
+	}
+	Cudd_Ref(t);
+	Cudd_RecursiveDeref(dd,scan);
+	scan = t;
+	expanded = Cudd_bddExistAbstract(dd,res,var);
 	if (expanded == NULL) {
             Cudd_RecursiveDeref(dd,res);
+            Cudd_RecursiveDeref(dd,scan);
 	    return(NULL);
 	}
 	Cudd_Ref(expanded);
@@ -987,17 +1002,9 @@ cuddBddMakePrime(
 	} else {
 	    Cudd_RecursiveDeref(dd,expanded);
 	}
-	cuddGetBranches(scan,&t,&e);
-	if (t == lzero) {
-	    scan = e;
-	} else if (e == lzero) {
-	    scan = t;
-	} else {
-	    Cudd_RecursiveDeref(dd,res);
-	    return(NULL);	/* cube is not a cube */
-	}
     }
 
+    Cudd_Deref(scan);
     if (scan == DD_ONE(dd)) {
 	Cudd_Deref(res);
 	return(res);
-- 
2.43.0


From 9cad25f745727cd16f275da5a229f2fa29a5235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 38/79] fix: exact reordering reads and writes outside its
 tables

---
 .../cudd-3.0.0/cudd/cuddExact.c                | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
index 0e07eb2..93817d3 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
@@ -120,7 +120,7 @@ cuddExact(
     int maxBinomial, oldSubsets, newSubsets;
     int subsetCost;
     int size;			/* number of variables to be reordered */
-    int unused, nvars, level, result;
+    int nvars, level, result;
     int upperBound, lowerBound, cost;
     int roots;
     char *mask = NULL;
@@ -163,17 +163,9 @@ cuddExact(
     /* Initialization. */
     nvars = table->size;
     size = upper - lower + 1;
-    /* Count unused variable among those to be reordered.  This is only
-    ** used to compute maxBinomial. */
-    unused = 0;
-    for (i = lower + 1; i < upper; i++) {
-	if (table->subtables[i].keys == 1 &&
-	    table->vars[table->invperm[i]]->ref == 1)
-	    unused++;
-    }
-
-    /* Find the maximum number of subsets we may have to store. */
-    maxBinomial = getMaxBinomial(size - unused);
+    /* Find the maximum number of subsets we may have to store.  An unused
+    ** variable between the others may be part of a subset. */
+    maxBinomial = getMaxBinomial(size);
     if (maxBinomial == -1) goto cuddExactOutOfMem;
 
     newOrder = getMatrix(maxBinomial, size);
@@ -238,7 +230,7 @@ cuddExact(
 	    /* For each top bottom variable. */
 	    for (j = level; j >= 0; j--) {
 		/* Skip unused variables. */
-		if (table->subtables[j+lower-1].keys == 1 &&
+		if (j > 0 && table->subtables[j+lower-1].keys == 1 &&
 		    table->vars[table->invperm[j+lower-1]]->ref == 1) continue;
 		/* Find cost under this order. */
 		subsetCost = cost + getLevelKeys(table, lower + level);
-- 
2.43.0


From c6eb33a9fe00751ee74cd488624c9db00fccdbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 39/79] fix: general conjunctive decomposition after a
 reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
index b772142..fdaf366 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
@@ -1880,10 +1880,8 @@ BuildConjuncts(
 
     h2 = cuddBddIteRecur(dd, topv, factorsNv->h, factorsNnv->g);
     if (h2 == NULL) {
-	Cudd_RecursiveDeref(dd, factorsNv->g);
 	Cudd_RecursiveDeref(dd, factorsNv->h);
 	Cudd_RecursiveDeref(dd, factorsNnv->g);
-	Cudd_RecursiveDeref(dd, factorsNnv->h);
 	Cudd_RecursiveDeref(dd, g1);
 	Cudd_RecursiveDeref(dd, h1);
 	Cudd_RecursiveDeref(dd, g2);
@@ -2125,7 +2123,9 @@ outOfMem:
 	st_free_gen(stGen); stGen = NULL;
 	st_free_table(cacheTable); cacheTable = NULL;
     }
-    dd->errorCode = CUDD_MEMORY_OUT;
+    /* Reordering is not an error: the caller tries again. */
+    if (dd->reordered == 0)
+	dd->errorCode = CUDD_MEMORY_OUT;
     return(0);
 
 } /* end of cuddConjunctsAux */
-- 
2.43.0


From 53a485212a282582faec7d05173a4aa5ab923201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 40/79] fix: Cudd_bddCharToVect releases the wrong functions
 after a reordering

---
 .../cudd-3.0.0/cudd/cuddGenCof.c              | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
index f999067..83fa446 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
@@ -481,7 +481,7 @@ Cudd_bddCharToVect(
   DdManager * dd,
   DdNode * f)
 {
-    int i, j;
+    int i;
     DdNode **vect;
     DdNode *res = NULL;
 
@@ -493,20 +493,29 @@ Cudd_bddCharToVect(
 	return(NULL);
     }
 
+    for (i = 0; i < dd->size; i++) {
+	vect[i] = NULL;
+    }
     do {
 	dd->reordered = 0;
 	for (i = 0; i < dd->size; i++) {
 	    res = cuddBddCharToVect(dd,f,dd->vars[dd->invperm[i]]);
 	    if (res == NULL) {
-		/* Clean up the vector array in case reordering took place. */
-		for (j = 0; j < i; j++) {
-		    Cudd_IterDerefBdd(dd, vect[dd->invperm[j]]);
-		}
 		break;
 	    }
 	    cuddRef(res);
 	    vect[dd->invperm[i]] = res;
 	}
+	if (res == NULL) {
+	    /* Clean up the vector array. The order of the variables may have
+	    ** changed since it was filled. */
+	    for (i = 0; i < dd->size; i++) {
+		if (vect[i] != NULL) {
+		    Cudd_IterDerefBdd(dd, vect[i]);
+		    vect[i] = NULL;
+		}
+	    }
+	}
     } while (dd->reordered == 1);
     if (res == NULL) {
 	FREE(vect);
-- 
2.43.0


From 3cf8afe398a8369bcd5afac37c4d5adc00ccc1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 41/79] fix: Cudd_bddNPAnd is a conjunction that adds no
 variables

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
index 83fa446..f426cce 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
@@ -1093,7 +1093,7 @@ cuddBddNPAndRecur(
     F = Cudd_Regular(f);
     G = Cudd_Regular(g);
     if (F == G) {
-	if (f == g) return(one);
+	if (f == g) return(f);
 	else return(Cudd_Not(one));
     }
     if (G == one) {
@@ -1167,11 +1167,11 @@ cuddBddNPAndRecur(
 	gt = ge = g;
     }
 
-    t = cuddBddAndRecur(manager, ft, gt);
+    t = cuddBddNPAndRecur(manager, ft, gt);
     if (t == NULL) return(NULL);
     cuddRef(t);
 
-    e = cuddBddAndRecur(manager, fe, ge);
+    e = cuddBddNPAndRecur(manager, fe, ge);
     if (e == NULL) {
 	Cudd_IterDerefBdd(manager, t);
 	return(NULL);
-- 
2.43.0


From b5cec2440e27f99e86ef4646ff04774df2849eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 42/79] fix: Cudd_bddClosestCube after a reordering while
 unpacking the cube

---
 .../cudd-3.0.0/cudd/cuddPriority.c            | 27 ++++++++-----------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
index dfb530f..ec3f911 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
@@ -1317,33 +1317,28 @@ Cudd_bddClosestCube(
     DdNode *res, *acube;
     CUDD_VALUE_TYPE rdist;
 
-    /* Compute the cube and distance as a single ADD. */
+    /* Compute the cube and distance as a single ADD and unpack them.  A
+    ** reordering that happens while unpacking restructures the ADD, so
+    ** that the distance is no longer at its top: start again then.
+    */
     do {
 	dd->reordered = 0;
+	acube = NULL;
 	res = cuddBddClosestCube(dd,f,g,CUDD_CONST_INDEX + 1.0);
-    } while (dd->reordered == 1);
-    if (res == NULL) {
-        if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
-            dd->timeoutHandler(dd, dd->tohArg);
-        }
-        return(NULL);
-    }
-    cuddRef(res);
-
-    /* Unpack distance and cube. */
-    do {
-	dd->reordered = 0;
+	if (res == NULL)
+	    continue;
+	cuddRef(res);
 	acube = separateCube(dd, res, &rdist);
+	if (acube != NULL)
+	    cuddRef(acube);
+	Cudd_RecursiveDeref(dd, res);
     } while (dd->reordered == 1);
     if (acube == NULL) {
-	Cudd_RecursiveDeref(dd, res);
         if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
             dd->timeoutHandler(dd, dd->tohArg);
         }
 	return(NULL);
     }
-    cuddRef(acube);
-    Cudd_RecursiveDeref(dd, res);
 
     /* Convert cube from ADD to BDD. */
     do {
-- 
2.43.0


From 1850159af788860e4a68026abbd503ca63dadfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 43/79] fix: Mtr_MakeGroup refuses a group that cuts the group
 after its last child

---
 src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c b/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
index 899a0d4..b085d8e 100644
--- a/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
+++ b/src/symbolic_search/cudd-3.0.0/mtr/mtrGroup.c
@@ -269,9 +269,10 @@ Mtr_MakeGroup(
 	return(newn);
     }
 
-    /* Here last != NULL and low + size <= last->low + last->size. */
-    if (low + size - 1 >= (unsigned int) last->low &&
-	low + size < (unsigned int) (last->low + last->size)) {
+    /* Here last != NULL and the group of last->younger, if any, extends
+    ** past the end of the new group. */
+    if (last->younger != NULL &&
+	low + size > (unsigned int) last->younger->low) {
 	/* Trying to cut an existing group: not allowed. */
 	return(NULL);
     }
-- 
2.43.0


From 15764b6de3ac182070d3f68d3e865c18edc8e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:48 +0000
Subject: [PATCH 44/79] fix: random pivot reordering stays within its range of
 levels

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
index 267cc54..ea28499 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
@@ -602,7 +602,7 @@ cuddSwapping(
 		x = lower;
 	    } else{
 		do {
-		    x = (int) Cudd_Random(table) % modulo;
+		    x = ((int) Cudd_Random(table) % modulo) + lower;
 		} while (x == y);
 	    }
 	} else {
-- 
2.43.0


From f6629353f1bb751706043296b175dc8af12ba966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:49 +0000
Subject: [PATCH 45/79] fix: Cudd_ShuffleHeap keeps the variable groups sorted
 by level

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
index ea28499..31e6381 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddReorder.c
@@ -329,6 +329,8 @@ Cudd_ShuffleHeap(
     FREE(perm);
 
     result = ddShuffle(table,permutation);
+    if (result && table->tree != NULL)
+	Mtr_ReorderGroups(table->tree, table->perm);
 
     if (!ddReorderPostprocess(table)) return(0);
 
-- 
2.43.0


From 67210806aa42fd14dd6a27904328cc3ed005fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 46/79] fix: Cudd_addResidue negates the weight of the sign bit
 and survives reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
index 789341d..91e4e18 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -193,13 +193,20 @@ Cudd_addResidue(
 	/* Choose current and previous arrays. */
 	thisOne = k & 1;
 	previous = thisOne ^ 1;
+	/* Adjust residue for MSB, if this is a two's complement number. */
+	if (tc && (k == n - 1)) {
+	    residue = (m - residue) % m;
+	}
 	/* Build an ADD projection function. */
 	if (msbLsb) {
 	    index = top+n-k-1;
 	} else {
 	    index = top+k;
 	}
-	var = cuddUniqueInter(dd,index,DD_ONE(dd),DD_ZERO(dd));
+	do {
+	    dd->reordered = 0;
+	    var = cuddUniqueInter(dd,index,DD_ONE(dd),DD_ZERO(dd));
+	} while (dd->reordered == 1);
 	if (var == NULL) {
 	    for (j = 0; j < m; j++) {
 		Cudd_RecursiveDeref(dd,array[previous][j]);
@@ -233,10 +240,6 @@ Cudd_addResidue(
 	Cudd_RecursiveDeref(dd,var);
 	/* Update residue of 2**k. */
 	residue = (2 * residue) % m;
-	/* Adjust residue for MSB, if this is a two's complement number. */
-	if (tc && (k == n - 1)) {
-	    residue = (m - residue) % m;
-	}
     }
 
     /* We are only interested in the 0-residue node of the top layer. */
-- 
2.43.0


From 5eec00b8b3b62a56ccdafd3445502fd3ad8f2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:28 +0000
Subject: [PATCH 47/79] fix: Cudd_addRoundOff keeps results for different
 numbers of digits apart

---
 .../cudd-3.0.0/cudd/cuddAddNeg.c              | 25 ++++++++++++-------
 src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h |  2 +-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c
index 3f4c95d..99bd424 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c
@@ -130,13 +130,22 @@ Cudd_addRoundOff(
   DdNode * f,
   int  N)
 {
-    DdNode *res;
-    double trunc = pow(10.0,(double)N);
+    DdNode *res, *trunc;
+
+    /* The scale is a constant node so that it can be part of the key
+    ** of the entries in the cache.
+    */
+    trunc = cuddUniqueConst(dd,pow(10.0,(double)N));
+    if (trunc == NULL) return(NULL);
+    cuddRef(trunc);
 
     do {
 	dd->reordered = 0;
 	res = cuddAddRoundOffRecur(dd,f,trunc);
     } while (dd->reordered == 1);
+    if (res != NULL) cuddRef(res);
+    Cudd_RecursiveDeref(dd,trunc);
+    if (res != NULL) cuddDeref(res);
     if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
         dd->timeoutHandler(dd, dd->tohArg);
     }
@@ -222,12 +231,11 @@ DdNode *
 cuddAddRoundOffRecur(
   DdManager * dd,
   DdNode * f,
-  double  trunc)
+  DdNode * trunc)
 {
 
     DdNode *res, *fv, *fvn, *T, *E;
     double m, n;
-    DD_CTFP1 cacheOp;
 
     statLine(dd);
     // if (cuddIsConstant(f)) {
@@ -237,16 +245,15 @@ cuddAddRoundOffRecur(
     // }
     // this is the new version...
     if (cuddIsConstant(f)) {
-        m = cuddV(f)*trunc;
+        m = cuddV(f)*cuddV(trunc);
         n = floor(m);
 	if (m-n >= 0.5) 
 	    n = n + 1;
-        n = n / trunc;
+        n = n / cuddV(trunc);
 	res = cuddUniqueConst(dd,n);
 	return(res);
     }
-    cacheOp = (DD_CTFP1) Cudd_addRoundOff;
-    res = cuddCacheLookup1(dd,cacheOp,f);
+    res = cuddCacheLookup2(dd,(DD_CTFP)Cudd_addRoundOff,f,trunc);
     if (res != NULL) {
 	return(res);
     }
@@ -275,7 +282,7 @@ cuddAddRoundOffRecur(
     cuddDeref(E);
 
     /* Store result. */
-    cuddCacheInsert1(dd,cacheOp,f,res);
+    cuddCacheInsert2(dd,(DD_CTFP)Cudd_addRoundOff,f,trunc,res);
     return(res);
 
 } /* end of cuddAddRoundOffRecur */
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
index 1032430..e4e21eb 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
@@ -1076,7 +1076,7 @@ extern DdNode *cuddAddScalarInverseRecur(DdManager *dd, DdNode *f, DdNode *epsil
 extern DdNode *cuddAddIteRecur(DdManager *dd, DdNode *f, DdNode *g, DdNode *h);
 extern DdNode *cuddAddCmplRecur(DdManager *dd, DdNode *f);
 extern DdNode *cuddAddNegateRecur(DdManager *dd, DdNode *f);
-extern DdNode *cuddAddRoundOffRecur(DdManager *dd, DdNode *f, double trunc);
+extern DdNode *cuddAddRoundOffRecur(DdManager *dd, DdNode *f, DdNode *trunc);
 extern DdNode *cuddUnderApprox(DdManager *dd, DdNode *f, int numVars, int threshold, int safe, double quality);
 extern DdNode *cuddRemapUnderApprox(DdManager *dd, DdNode *f, int numVars, int threshold, double quality);
 extern DdNode *cuddBiasedUnderApprox(DdManager *dd, DdNode *f, DdNode *b, int numVars, int threshold, double quality1, double quality0);
-- 
2.43.0


From e13781f0b792e22a678282b8ab7d6b589f699f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:33 +0000
Subject: [PATCH 48/79] fix: Cudd_EqualSupNorm keeps results for different
 tolerances apart

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h |   1 +
 src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c | 117 +++++++++++-------
 2 files changed, 76 insertions(+), 42 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
index e4e21eb..249beaf 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
@@ -157,6 +157,7 @@
 #define DD_BDD_MAX_EXP_TAG                      0x8a
 #define DD_VARS_SYMM_BEFORE_TAG                 0x8e
 #define DD_VARS_SYMM_BETWEEN_TAG                0xa2
+#define DD_EQUAL_SUP_NORM_TAG                   0xa6
 
 /* Generator constants. */
 #define CUDD_GEN_CUBES 0
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
index 5ad5076..9d4c234 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
@@ -93,6 +93,7 @@ static DdNode * getCube (DdManager *manager, st_table *visited, DdNode *f, int c
 static DdNode * ddBddMaximallyExpand(DdManager *dd, DdNode *lb, DdNode *ub, DdNode *f);
 static int ddBddShortestPathUnate(DdManager *dd, DdNode *f, int *phases, st_table *table);
 static DdNode * ddGetLargestCubeUnate(DdManager *dd, DdNode *f, int *phases, st_table *table);
+static int ddEqualSupNormRecur(DdManager *dd, DdNode *f, DdNode *g, DdNode *tol, int pr);
 
 /** \endcond */
 
@@ -770,49 +771,18 @@ Cudd_EqualSupNorm(
   CUDD_VALUE_TYPE  tolerance /**< maximum allowed difference */,
   int  pr /**< verbosity level */)
 {
-    DdNode *fv, *fvn, *gv, *gvn, *r;
-    int topf, topg;
-
-    statLine(dd);
-    /* Check terminal cases. */
-    if (f == g) return(1);
-    if (cuddIsConstant(f) && cuddIsConstant(g)) {
-	if (ddEqualVal(cuddV(f),cuddV(g),tolerance)) {
-	    return(1);
-	} else {
-	    if (pr>0) {
-		(void) fprintf(dd->out,"Offending nodes:\n");
-		(void) fprintf(dd->out,
-			       "f: address = %p\t value = %40.30f\n",
-			       (void *) f, cuddV(f));
-		(void) fprintf(dd->out,
-			       "g: address = %p\t value = %40.30f\n",
-			       (void *) g, cuddV(g));
-	    }
-	    return(0);
-	}
-    }
-
-    /* We only insert the result in the cache if the comparison is
-    ** successful. Therefore, if we hit we return 1. */
-    r = cuddCacheLookup2(dd,(DD_CTFP)Cudd_EqualSupNorm,f,g);
-    if (r != NULL) {
-	return(1);
-    }
-
-    /* Compute the cofactors and solve the recursive subproblems. */
-    topf = cuddI(dd,f->index);
-    topg = cuddI(dd,g->index);
-
-    if (topf <= topg) {fv = cuddT(f); fvn = cuddE(f);} else {fv = fvn = f;}
-    if (topg <= topf) {gv = cuddT(g); gvn = cuddE(g);} else {gv = gvn = g;}
-
-    if (!Cudd_EqualSupNorm(dd,fv,gv,tolerance,pr)) return(0);
-    if (!Cudd_EqualSupNorm(dd,fvn,gvn,tolerance,pr)) return(0);
-
-    cuddCacheInsert2(dd,(DD_CTFP)Cudd_EqualSupNorm,f,g,DD_ONE(dd));
+    DdNode *tol;
+    int res;
 
-    return(1);
+    /* The tolerance is a constant node so that it can be part of the key
+    ** of the entries in the cache.
+    */
+    tol = cuddUniqueConst(dd,tolerance);
+    if (tol == NULL) return(0);
+    cuddRef(tol);
+    res = ddEqualSupNormRecur(dd,f,g,tol,pr);
+    Cudd_RecursiveDeref(dd,tol);
+    return(res);
 
 } /* end of Cudd_EqualSupNorm */
 
@@ -1735,3 +1705,66 @@ ddGetLargestCubeUnate(
     return(res);
 
 } /* end of ddGetLargestCubeUnate */
+
+
+/**
+  @brief Performs the recursive step of Cudd_EqualSupNorm.
+
+  @return 1 if the two ADDs are equal (within tolerance); 0 otherwise.
+
+  @sideeffect None
+
+*/
+static int
+ddEqualSupNormRecur(
+  DdManager * dd /**< manager */,
+  DdNode * f /**< first %ADD */,
+  DdNode * g /**< second %ADD */,
+  DdNode * tol /**< maximum allowed difference */,
+  int  pr /**< verbosity level */)
+{
+    DdNode *fv, *fvn, *gv, *gvn, *r;
+    int topf, topg;
+
+    statLine(dd);
+    /* Check terminal cases. */
+    if (f == g) return(1);
+    if (cuddIsConstant(f) && cuddIsConstant(g)) {
+	if (ddEqualVal(cuddV(f),cuddV(g),cuddV(tol))) {
+	    return(1);
+	} else {
+	    if (pr>0) {
+		(void) fprintf(dd->out,"Offending nodes:\n");
+		(void) fprintf(dd->out,
+			       "f: address = %p\t value = %40.30f\n",
+			       (void *) f, cuddV(f));
+		(void) fprintf(dd->out,
+			       "g: address = %p\t value = %40.30f\n",
+			       (void *) g, cuddV(g));
+	    }
+	    return(0);
+	}
+    }
+
+    /* We only insert the result in the cache if the comparison is
+    ** successful. Therefore, if we hit we return 1. */
+    r = cuddCacheLookup(dd,DD_EQUAL_SUP_NORM_TAG,f,g,tol);
+    if (r != NULL) {
+	return(1);
+    }
+
+    /* Compute the cofactors and solve the recursive subproblems. */
+    topf = cuddI(dd,f->index);
+    topg = cuddI(dd,g->index);
+
+    if (topf <= topg) {fv = cuddT(f); fvn = cuddE(f);} else {fv = fvn = f;}
+    if (topg <= topf) {gv = cuddT(g); gvn = cuddE(g);} else {gv = gvn = g;}
+
+    if (!ddEqualSupNormRecur(dd,fv,gv,tol,pr)) return(0);
+    if (!ddEqualSupNormRecur(dd,fvn,gvn,tol,pr)) return(0);
+
+    cuddCacheInsert(dd,DD_EQUAL_SUP_NORM_TAG,f,g,tol,DD_ONE(dd));
+
+    return(1);
+
+} /* end of ddEqualSupNormRecur */
-- 
2.43.0


From 0e213bc38406882069ddf0e6fdc46da7ee1fe1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:14 +0000
Subject: [PATCH 49/79] fix: Cudd_addMatrixMultiply keeps results for different
 summation variables apart

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h |  1 +
 .../cudd-3.0.0/cudd/cuddMatMult.c             | 29 ++++++++++++-------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
index 249beaf..d082907 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
@@ -158,6 +158,7 @@
 #define DD_VARS_SYMM_BEFORE_TAG                 0x8e
 #define DD_VARS_SYMM_BETWEEN_TAG                0xa2
 #define DD_EQUAL_SUP_NORM_TAG                   0xa6
+#define DD_ADD_MATRIX_MULTIPLY_TAG              0xaa
 
 /* Generator constants. */
 #define CUDD_GEN_CUBES 0
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
index 2b1e547..05c5248 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
@@ -77,7 +77,7 @@
 /* Static function prototypes                                                */
 /*---------------------------------------------------------------------------*/
 
-static DdNode * addMMRecur (DdManager *dd, DdNode *A, DdNode *B, int topP, int *vars);
+static DdNode * addMMRecur (DdManager *dd, DdNode *A, DdNode *B, int topP, int *vars, DdNode *cube);
 static DdNode * addTriangleRecur (DdManager *dd, DdNode *f, DdNode *g, int *vars, DdNode *cube);
 static DdNode * cuddAddOuterSumRecur (DdManager *dd, DdNode *M, DdNode *r, DdNode *c);
 
@@ -115,7 +115,7 @@ Cudd_addMatrixMultiply(
   int  nz)
 {
     int i, nvars, *vars;
-    DdNode *res; 
+    DdNode *res, *cube;
 
     /* Array vars says what variables are "summation" variables. */
     nvars = dd->size;
@@ -124,6 +124,12 @@ Cudd_addMatrixMultiply(
 	dd->errorCode = CUDD_MEMORY_OUT;
 	return(NULL);
     }
+    cube = Cudd_addComputeCube(dd, z, NULL, nz);
+    if (cube == NULL) {
+	FREE(vars);
+	return(NULL);
+    }
+    cuddRef(cube);
     for (i = 0; i < nvars; i++) {
         vars[i] = 0;
     }
@@ -133,8 +139,11 @@ Cudd_addMatrixMultiply(
 
     do {
 	dd->reordered = 0;
-	res = addMMRecur(dd,A,B,-1,vars);
+	res = addMMRecur(dd,A,B,-1,vars,cube);
     } while (dd->reordered == 1);
+    if (res != NULL) cuddRef(res);
+    Cudd_RecursiveDeref(dd,cube);
+    if (res != NULL) cuddDeref(res);
     FREE(vars);
     if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
         dd->timeoutHandler(dd, dd->tohArg);
@@ -318,7 +327,8 @@ addMMRecur(
   DdNode * A,
   DdNode * B,
   int  topP,
-  int * vars)
+  int * vars,
+  DdNode * cube)
 {
     DdNode *zero,
            *At,		/* positive cofactor of first operand */
@@ -335,7 +345,6 @@ addMMRecur(
     int index;		/* index of the top variable */
     CUDD_VALUE_TYPE value;
     int topA, topB, topV;
-    DD_CTFP cacheOp;
 
     statLine(dd);
     zero = DD_ZERO(dd);
@@ -376,8 +385,8 @@ addMMRecur(
     topA = cuddI(dd,A->index); topB = cuddI(dd,B->index);
     topV = ddMin(topA,topB);
 
-    cacheOp = (DD_CTFP) addMMRecur;
-    res = cuddCacheLookup2(dd,cacheOp,A,B);
+    /* The result depends on the summation variables, too. */
+    res = cuddCacheLookup(dd,DD_ADD_MATRIX_MULTIPLY_TAG,A,B,cube);
     if (res != NULL) {
 	/* If the result is 0, there is no need to normalize.
 	** Otherwise we count the number of z variables between
@@ -433,10 +442,10 @@ addMMRecur(
 	Bt = Be = B;
     }
 
-    t = addMMRecur(dd, At, Bt, (int)topV, vars);
+    t = addMMRecur(dd, At, Bt, (int)topV, vars, cube);
     if (t == NULL) return(NULL);
     cuddRef(t);
-    e = addMMRecur(dd, Ae, Be, (int)topV, vars);
+    e = addMMRecur(dd, Ae, Be, (int)topV, vars, cube);
     if (e == NULL) {
 	Cudd_RecursiveDeref(dd, t);
 	return(NULL);
@@ -473,7 +482,7 @@ addMMRecur(
 	Cudd_RecursiveDeref(dd, e);
     }
 
-    cuddCacheInsert2(dd,cacheOp,A,B,res);
+    cuddCacheInsert(dd,DD_ADD_MATRIX_MULTIPLY_TAG,A,B,cube,res);
 
     /* We have computed (and stored in the computed table) a minimal
     ** result; that is, a result that assumes no summation variables
-- 
2.43.0


From 634d9ded956875f9aaf7ee31dd92ff000b80ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:56 +0000
Subject: [PATCH 50/79] fix: Cudd_addNonSimCompose stays within its vectors and
 notices reordering

---
 .../cudd-3.0.0/cudd/cuddCompose.c             | 27 +++++++------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
index cdcb5a6..ee252d3 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
@@ -83,7 +83,7 @@ static DdNode * cuddAddPermuteRecur (DdManager *manager, DdHashTable *table, DdN
 static DdNode * cuddBddPermuteRecur (DdManager *manager, DdHashTable *table, DdNode *node, int *permut);
 static DdNode * cuddBddVarMapRecur (DdManager *manager, DdNode *f);
 static DdNode * cuddAddVectorComposeRecur (DdManager *dd, DdHashTable *table, DdNode *f, DdNode **vector, int deepest);
-static DdNode * cuddAddNonSimComposeRecur (DdManager *dd, DdNode *f, DdNode **vector, DdNode *key, DdNode *cube, int lastsub);
+static DdNode * cuddAddNonSimComposeRecur (DdManager *dd, DdNode *f, DdNode **vector, DdNode *key, DdNode *cube, int size);
 static DdNode * cuddBddVectorComposeRecur (DdManager *dd, DdHashTable *table, DdNode *f, DdNode **vector, int deepest);
 static int ddIsIthAddVar (DdManager *dd, DdNode *f, unsigned int i);
 
@@ -656,7 +656,7 @@ Cudd_addNonSimCompose(
 {
     DdNode		*cube, *key, *var, *tmp, *piece;
     DdNode		*res;
-    int			i, lastsub;
+    int			i;
 
     /* The cache entry for this function is composed of three parts:
     ** f itself, the replacement relation, and the cube of the
@@ -717,16 +717,9 @@ Cudd_addNonSimCompose(
 
     /* Now try composition, until no reordering occurs. */
     do {
-	/* Find real substitution with largest index. */
-	for (lastsub = dd->size - 1; lastsub >= 0; lastsub--) {
-	    if (!ddIsIthAddVar(dd,vector[lastsub],(unsigned int)lastsub)) {
-		break;
-	    }
-	}
-
 	/* Recursively solve the problem. */
 	dd->reordered = 0;
-	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,lastsub+1);
+	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,dd->size);
 	if (res != NULL) cuddRef(res);
 
     } while (dd->reordered == 1);
@@ -1443,7 +1436,7 @@ cuddAddNonSimComposeRecur(
   DdNode ** vector,
   DdNode * key,
   DdNode * cube,
-  int  lastsub)
+  int  size)
 {
     DdNode *f1, *f0, *key1, *key0, *cube1, *var;
     DdNode *T,*E;
@@ -1491,7 +1484,7 @@ cuddAddNonSimComposeRecur(
 	** cache performance is severely affected. Hence we
 	** existentially quantify the variable with index "index" from key.
 	*/
-	var = Cudd_addIthVar(dd, (int) index);
+	var = cuddUniqueInter(dd,(int)index,DD_ONE(dd),DD_ZERO(dd));
 	if (var == NULL) {
 	    return(NULL);
 	}
@@ -1516,13 +1509,13 @@ cuddAddNonSimComposeRecur(
     }
 
     /* Allocate two new vectors for the cofactors of vector. */
-    vect1 = ALLOC(DdNode *,lastsub);
+    vect1 = ALLOC(DdNode *,size);
     if (vect1 == NULL) {
 	dd->errorCode = CUDD_MEMORY_OUT;
 	Cudd_RecursiveDeref(dd,key1);
 	return(NULL);
     }
-    vect0 = ALLOC(DdNode *,lastsub);
+    vect0 = ALLOC(DdNode *,size);
     if (vect0 == NULL) {
 	dd->errorCode = CUDD_MEMORY_OUT;
 	Cudd_RecursiveDeref(dd,key1);
@@ -1533,7 +1526,7 @@ cuddAddNonSimComposeRecur(
     /* Cofactor the gi. Eliminate vect1[index] and vect0[index], because
     ** we do not need them.
     */
-    for (i = 0; i < lastsub; i++) {
+    for (i = 0; i < size; i++) {
 	DdNode *gi = vector[i];
 	if (gi == NULL) {
 	    vect1[i] = vect0[i] = NULL;
@@ -1547,7 +1540,7 @@ cuddAddNonSimComposeRecur(
     vect1[index] = vect0[index] = NULL;
 
     /* Recur on children. */
-    T = cuddAddNonSimComposeRecur(dd,f1,vect1,key1,cube1,lastsub);
+    T = cuddAddNonSimComposeRecur(dd,f1,vect1,key1,cube1,size);
     FREE(vect1);
     if (T == NULL) {
 	Cudd_RecursiveDeref(dd,key1);
@@ -1555,7 +1548,7 @@ cuddAddNonSimComposeRecur(
 	return(NULL);
     }
     cuddRef(T);
-    E = cuddAddNonSimComposeRecur(dd,f0,vect0,key0,cube1,lastsub);
+    E = cuddAddNonSimComposeRecur(dd,f0,vect0,key0,cube1,size);
     FREE(vect0);
     if (E == NULL) {
 	Cudd_RecursiveDeref(dd,key1);
-- 
2.43.0


From 5d1e0a5da1c6fd6469b37c2585560a83e1b2a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:24 +0000
Subject: [PATCH 51/79] fix: Cudd_addMinus does not recur on its own, where
 reordering would go unnoticed

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
index d9de676..c0172f0 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
@@ -315,7 +315,6 @@ Cudd_addMinus(
 
     F = *f; G = *g;
     if (F == G) return(DD_ZERO(dd));
-    if (F == DD_ZERO(dd)) return(cuddAddNegateRecur(dd,G));
     if (G == DD_ZERO(dd)) return(F);
     if (cuddIsConstant(F) && cuddIsConstant(G)) {
 	value = cuddV(F)-cuddV(G);
-- 
2.43.0


From 17574f096503a7e51f44d293d8ade447afde5517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:19 +0000
Subject: [PATCH 52/79] fix: do not take a tiny constant left by
 Cudd_CountMinterm for zero

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index ea54b5b..1baf780 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -1556,11 +1556,12 @@ cuddUniqueConst(
     /* Here we compare values both for equality and for difference less
      * than epsilon. The first comparison is required when values are
      * infinite, since Infinity - Infinity is NaN and NaN < X is 0 for
-     * every X.
+     * every X.  Only 0 itself is 0: the tiny constants that are made while
+     * epsilon is smaller, as in Cudd_CountMinterm, are different from it.
      */
     while (looking != NULL) {
-	if (looking->type.value == value ||
-	ddEqualVal(looking->type.value,value,unique->epsilon)) {
+	if (looking->type.value == value || (value != 0.0 &&
+	ddEqualVal(looking->type.value,value,unique->epsilon))) {
 	    if (looking->ref == 0) {
 		cuddReclaim(unique,looking);
 	    }
-- 
2.43.0


From b4a7bfdba62d3ce2d65af47768a9995b94c62916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:11 +0000
Subject: [PATCH 53/79] fix: Cudd_addOuterSum notices reordering while taking
 the minimum

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
index 05c5248..9fdd28b 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
@@ -652,7 +652,11 @@ cuddAddOuterSumRecur(
 		return(M);
 	    }
 	} else {
-	    P = Cudd_addApply(dd,Cudd_addMinimum,R,M);
+	    P = cuddAddApplyRecur(dd,Cudd_addMinimum,R,M);
+	    if (P == NULL) {
+		Cudd_RecursiveDeref(dd,R);
+		return(NULL);
+	    }
 	    cuddRef(P);
 	    Cudd_RecursiveDeref(dd,R);
 	    cuddDeref(P);
-- 
2.43.0


From bae6617acae9ad2b23513f37b4167e934be3636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:54 +0000
Subject: [PATCH 54/79] fix: Cudd_addPermute releases its operands when
 reordering interrupts it

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
index ee252d3..ffea33b 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
@@ -1067,7 +1067,11 @@ cuddAddPermuteRecur(
     */
     index = permut[node->index];
     var = cuddUniqueInter(manager,index,DD_ONE(manager),DD_ZERO(manager));
-    if (var == NULL) return(NULL);
+    if (var == NULL) {
+	Cudd_RecursiveDeref(manager, T);
+	Cudd_RecursiveDeref(manager, E);
+	return(NULL);
+    }
     cuddRef(var);
     res = cuddAddIteRecur(manager,var,T,E);
     if (res == NULL) {
-- 
2.43.0


From 92e0fe556a25080464b306046cc78481c74fd5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:57 +0000
Subject: [PATCH 55/79] fix: Cudd_addNewVar adds one variable when reordering
 interrupts it

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
index 7784f23..ee92bf7 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
@@ -106,6 +106,7 @@ Cudd_addNewVar(
   DdManager * dd)
 {
     DdNode *res;
+    int index = dd->size;
 
     if ((unsigned int) dd->size >= CUDD_MAXINDEX - 1) {
         dd->errorCode = CUDD_INVALID_ARG;
@@ -113,7 +114,7 @@ Cudd_addNewVar(
     }
     do {
 	dd->reordered = 0;
-	res = cuddUniqueInter(dd,dd->size,DD_ONE(dd),DD_ZERO(dd));
+	res = cuddUniqueInter(dd,index,DD_ONE(dd),DD_ZERO(dd));
     } while (dd->reordered == 1);
     if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
         dd->timeoutHandler(dd, dd->tohArg);
-- 
2.43.0


From 8594b72098795ebee31de42d511312c3bc1b1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:52 +0000
Subject: [PATCH 56/79] fix: Cudd_zddIthVar goes by the level of the variable
 and starts over after reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c | 48 +++++++++----------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
index ee92bf7..8372e6d 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
@@ -342,7 +342,7 @@ Cudd_zddIthVar(
     DdNode *res;
     DdNode *zvar;
     DdNode *lower;
-    int j;
+    int j, level;
 
     if ((unsigned int) i >= CUDD_MAXINDEX - 1) {
         dd->errorCode = CUDD_INVALID_ARG;
@@ -352,38 +352,36 @@ Cudd_zddIthVar(
     ** at the level corresponding to index i there is a node whose "then"
     ** child points to the universe, and whose "else" child points to zero.
     ** Above that level there are nodes with identical children.
+    ** Reordering changes the levels: when it occurs, we start over.
     */
-
-    /* First we build the node at the level of index i. */
-    lower = (i < dd->sizeZ - 1) ? dd->univ[dd->permZ[i]+1] : DD_ONE(dd);
     do {
 	dd->reordered = 0;
+	/* First we build the node at the level of index i. */
+	level = (i < dd->sizeZ) ? dd->permZ[i] : i;
+	lower = (level < dd->sizeZ - 1) ? dd->univ[level+1] : DD_ONE(dd);
 	zvar = cuddUniqueInterZdd(dd, i, lower, DD_ZERO(dd));
-    } while (dd->reordered == 1);
-    if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
-        dd->timeoutHandler(dd, dd->tohArg);
-    }
+	if (zvar == NULL)
+	    continue;
+	cuddRef(zvar);
 
-    if (zvar == NULL)
-	return(NULL);
-    cuddRef(zvar);
-
-    /* Now we add the "filler" nodes above the level of index i. */
-    for (j = dd->permZ[i] - 1; j >= 0; j--) {
-	do {
-	    dd->reordered = 0;
+	/* Now we add the "filler" nodes above the level of index i. */
+	for (j = level - 1; j >= 0; j--) {
 	    res = cuddUniqueInterZdd(dd, dd->invpermZ[j], zvar, zvar);
-	} while (dd->reordered == 1);
-	if (res == NULL) {
+	    if (res == NULL) {
+		Cudd_RecursiveDerefZdd(dd,zvar);
+		zvar = NULL;
+		break;
+	    }
+	    cuddRef(res);
 	    Cudd_RecursiveDerefZdd(dd,zvar);
-            if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
-                dd->timeoutHandler(dd, dd->tohArg);
-            }
-	    return(NULL);
+	    zvar = res;
 	}
-	cuddRef(res);
-	Cudd_RecursiveDerefZdd(dd,zvar);
-	zvar = res;
+    } while (dd->reordered == 1);
+    if (zvar == NULL) {
+	if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
+	    dd->timeoutHandler(dd, dd->tohArg);
+	}
+	return(NULL);
     }
     cuddDeref(zvar);
     return(zvar);
-- 
2.43.0


From d80ca3543ab5c78e99b04b0d84b93ad350f2097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:04 +0000
Subject: [PATCH 57/79] fix: cuddZddGetCofactors2 keeps the first cofactor
 while it computes the second

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
index 5f6d63c..6cf20cd 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -1444,11 +1444,13 @@ cuddZddGetCofactors2(
     *f1 = cuddZddSubset1(dd, f, v);
     if (*f1 == NULL)
 	return(1);
+    Cudd_Ref(*f1);
     *f0 = cuddZddSubset0(dd, f, v);
     if (*f0 == NULL) {
 	Cudd_RecursiveDerefZdd(dd, *f1);
 	return(1);
     }
+    Cudd_Deref(*f1);
     return(0);
 
 } /* end of cuddZddGetCofactors2 */
-- 
2.43.0


From 0fd65836b189ff1c13fc828288498a7b973c636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:04 +0000
Subject: [PATCH 58/79] fix: cuddZddDivide and cuddZddDivideF release
 intermediate results when interrupted

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
index 6cf20cd..a771615 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -1166,6 +1166,7 @@ cuddZddDivide(
 	tmp = r;
 	q = cuddZddDivide(dd, f0, g0);
 	if (q == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
@@ -1180,6 +1181,7 @@ cuddZddDivide(
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
 	    Cudd_RecursiveDerefZdd(dd, q);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(r);
@@ -1263,6 +1265,7 @@ cuddZddDivideF(
 	tmp = r;
 	q = cuddZddDivideF(dd, f0, g0);
 	if (q == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
@@ -1277,6 +1280,7 @@ cuddZddDivideF(
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
 	    Cudd_RecursiveDerefZdd(dd, q);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(r);
-- 
2.43.0


From 27b2617ae087a781ffb7514a3ad34f65ac2158ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:04 +0000
Subject: [PATCH 59/79] fix: cuddZddWeakDiv and cuddZddWeakDivF keep the
 quotient until it has been intersected

---
 .../cudd-3.0.0/cudd/cuddZddFuncs.c            | 66 ++++++++++++-------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
index a771615..6d234b4 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -794,9 +794,9 @@ cuddZddWeakDiv(
     }
 
     if (g1 != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDiv(dd, f1, g1);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, fd);
@@ -806,17 +806,22 @@ cuddZddWeakDiv(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, f1);
 	Cudd_RecursiveDerefZdd(dd, g1);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
+		Cudd_RecursiveDerefZdd(dd, tmp);
 		Cudd_RecursiveDerefZdd(dd, fd);
 		Cudd_RecursiveDerefZdd(dd, gd);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -833,9 +838,9 @@ cuddZddWeakDiv(
     }
 
     if (gd != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDiv(dd, fd, gd);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
 	    return(NULL);
@@ -843,16 +848,20 @@ cuddZddWeakDiv(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, fd);
 	Cudd_RecursiveDerefZdd(dd, gd);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
 		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1029,9 +1038,9 @@ cuddZddWeakDivF(
     }
 
     if (g1 != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDivF(dd, f1, g1);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, f1);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, fd);
@@ -1041,17 +1050,22 @@ cuddZddWeakDivF(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, f1);
 	Cudd_RecursiveDerefZdd(dd, g1);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
+		Cudd_RecursiveDerefZdd(dd, tmp);
 		Cudd_RecursiveDerefZdd(dd, fd);
 		Cudd_RecursiveDerefZdd(dd, gd);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
@@ -1068,9 +1082,9 @@ cuddZddWeakDivF(
     }
 
     if (gd != zero) {
-	Cudd_RecursiveDerefZdd(dd, q);
 	tmp = cuddZddWeakDivF(dd, fd, gd);
 	if (tmp == NULL) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, fd);
 	    Cudd_RecursiveDerefZdd(dd, gd);
 	    return(NULL);
@@ -1078,16 +1092,20 @@ cuddZddWeakDivF(
 	Cudd_Ref(tmp);
 	Cudd_RecursiveDerefZdd(dd, fd);
 	Cudd_RecursiveDerefZdd(dd, gd);
-	if (q == g)
+	if (q == g) {
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    q = tmp;
-	else {
-	    q = cuddZddIntersect(dd, q, tmp);
-	    if (q == NULL) {
+	} else {
+	    r = cuddZddIntersect(dd, q, tmp);
+	    if (r == NULL) {
+		Cudd_RecursiveDerefZdd(dd, q);
 		Cudd_RecursiveDerefZdd(dd, tmp);
 		return(NULL);
 	    }
-	    Cudd_Ref(q);
+	    Cudd_Ref(r);
+	    Cudd_RecursiveDerefZdd(dd, q);
 	    Cudd_RecursiveDerefZdd(dd, tmp);
+	    q = r;
 	}
     }
     else {
-- 
2.43.0


From 9c4cf2cdbae928e19e338491b16b3b0712a25c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:35 +0000
Subject: [PATCH 60/79] fix: a cached DD_NON_CONSTANT of Cudd_zddDiffConst is
 not a node to reclaim

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddCache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCache.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCache.c
index 010e486..1a86b42 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCache.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCache.c
@@ -555,7 +555,8 @@ cuddCacheLookup2Zdd(
     if (en->data != NULL && en->f==f && en->g==g && en->h==(ptruint)op) {
 	data = Cudd_Regular(en->data);
 	table->cacheHits++;
-	if (data->ref == 0) {
+	/* Cudd_zddDiffConst stores DD_NON_CONSTANT, which is no node. */
+	if (en->data != DD_NON_CONSTANT && data->ref == 0) {
 	    cuddReclaimZdd(table,data);
 	}
 	return(en->data);
-- 
2.43.0


From b352eccca841e50bbcf5dba1e19b4d60fdb9ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 61/79] fix: converging symmetric sifting of ZDDs only sifts
 variables of its range

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
index 3ebdd0e..80e2da3 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
@@ -478,7 +478,7 @@ cuddZddSymmSiftingConv(
 	util_qsort(var,classes,sizeof(IndexKey),cuddZddUniqueCompare);
 
 	/* Now sift. */
-	iteration = ddMin(table->siftMaxVar, nvars);
+	iteration = ddMin(table->siftMaxVar, classes);
 	for (i = 0; i < iteration; i++) {
 	    if (table->zddTotalNumberSwapping >= table->siftMaxSwap)
 		break;
-- 
2.43.0


From 0b0f98a5afcf6c7aa9f4a8bf3ae3935c1e8679cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:42 +0000
Subject: [PATCH 62/79] fix: random pivot reordering of ZDDs stays within its
 range

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
index d443e5e..02448bb 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddReord.c
@@ -732,7 +732,7 @@ cuddZddSwapping(
 		x = lower;
 	    } else {
 		do { /* x = random # from {0 .. pivot-2} */
-		    x = (int) Cudd_Random(table) % modulo;
+		    x = (int) (Cudd_Random(table) % modulo) + lower;
 		} while (x == y);
 		  /* Is this condition really needed, since x and y
 		     are in regions separated by pivot? */
-- 
2.43.0


From e25e2bfbec0c998b5ed0f51c9c6699cb5e1c4500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:23 +0000
Subject: [PATCH 63/79] fix: symmetric sifting of ZDDs goes on from the top of
 a group that grew without a move

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
index 80e2da3..a73be78 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
@@ -625,8 +625,11 @@ cuddZddSymmSiftingAux(
 	       pass */
             if (move_down != NULL)
 		x = move_down->y;
-	    else
+	    else {
+		while ((unsigned) x < table->subtableZ[x].next)
+		    x = table->subtableZ[x].next;
 		x = table->subtableZ[x].next;
+	    }
 	    i = x;
 	    while ((unsigned) i < table->subtableZ[i].next) {
 		i = table->subtableZ[i].next;
@@ -723,6 +726,8 @@ cuddZddSymmSiftingAux(
 	    x = move_down->y;
 	}
 	else {
+	    while ((unsigned) x < table->subtableZ[x].next)
+		x = table->subtableZ[x].next;
 	    x = table->subtableZ[x].next;
 	}
 	i = x;
@@ -810,6 +815,8 @@ cuddZddSymmSiftingAux(
 		x = move_down->y;
 	    }
 	    else {
+		while ((unsigned) x < table->subtableZ[x].next)
+		    x = table->subtableZ[x].next;
 		x = table->subtableZ[x].next;
 	    }
 	    i = x;
-- 
2.43.0


From 09996560ee60fc982c245f9dcdfae8c5cadd4801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:58 +0000
Subject: [PATCH 64/79] fix: Cudd_SplitSet survives an interrupted search

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
index 03dd025..5dd9f8c 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
@@ -193,7 +193,8 @@ Cudd_SplitSet(
         manager->timeoutHandler(manager, manager->tohArg);
     }
 
-    cuddDeref(result);
+    if (result)
+	cuddDeref(result);
     return(result);
 
 } /* end of Cudd_SplitSet */
-- 
2.43.0


From a2a2d08a57ea6842d5ee609e0e38d4ef79eedcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:58 +0000
Subject: [PATCH 65/79] fix: Cudd_SubsetWithMaskVars survives an interrupted
 step

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
index b8159b5..74b4da3 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
@@ -1701,6 +1701,7 @@ Cudd_SubsetWithMaskVars(
     DdNode	*zero;
 
     support = Cudd_Support(dd,f);
+    if (support == NULL) return(NULL);
     cuddRef(support);
     Cudd_RecursiveDeref(dd,support);
 
@@ -1716,11 +1717,19 @@ Cudd_SubsetWithMaskVars(
     }
     for (i = 0; i < mvars; i++) {
 	cof = Cudd_Cofactor(dd, f, maskVars[i]);
+	if (cof == NULL) {
+	    FREE(weight);
+	    return(NULL);
+	}
 	cuddRef(cof);
 	weight[i] = Cudd_CountMinterm(dd, cof, nvars);
 	Cudd_RecursiveDeref(dd,cof);
 
 	cof = Cudd_Cofactor(dd, f, Cudd_Not(maskVars[i]));
+	if (cof == NULL) {
+	    FREE(weight);
+	    return(NULL);
+	}
 	cuddRef(cof);
 	weight[i] -= Cudd_CountMinterm(dd, cof, nvars);
 	Cudd_RecursiveDeref(dd,cof);
@@ -1831,11 +1840,13 @@ Cudd_SubsetWithMaskVars(
     }
 
     subset = Cudd_bddAnd(dd,f,cube);
-    cuddRef(subset);
+    if (subset != NULL) cuddRef(subset);
     Cudd_RecursiveDeref(dd,cube);
 
     /* Test. */
-    if (Cudd_bddLeq(dd,subset,f)) {
+    if (subset == NULL) {
+	/* Nothing to be released. */
+    } else if (Cudd_bddLeq(dd,subset,f)) {
 	cuddDeref(subset);
     } else {
 	Cudd_RecursiveDeref(dd,subset);
-- 
2.43.0


From d8f2d8aecd0b86cf2b0a049b6f19ee2960addc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:58 +0000
Subject: [PATCH 66/79] fix: Cudd_addFindMax and Cudd_addFindMin pass on a
 failed recursion

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddFind.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddFind.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddFind.c
index 240d784..11f40f1 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddFind.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddFind.c
@@ -113,9 +113,10 @@ Cudd_addFindMax(
     checkWhetherToGiveUp(dd);
 
     t  = Cudd_addFindMax(dd,cuddT(f));
-    if (t == DD_PLUS_INFINITY(dd)) return(t);
+    if (t == NULL || t == DD_PLUS_INFINITY(dd)) return(t);
 
     e  = Cudd_addFindMax(dd,cuddE(f));
+    if (e == NULL) return(NULL);
 
     res = (cuddV(t) >= cuddV(e)) ? t : e;
 
@@ -154,9 +155,10 @@ Cudd_addFindMin(
     checkWhetherToGiveUp(dd);
 
     t  = Cudd_addFindMin(dd,cuddT(f));
-    if (t == DD_MINUS_INFINITY(dd)) return(t);
+    if (t == NULL || t == DD_MINUS_INFINITY(dd)) return(t);
 
     e  = Cudd_addFindMin(dd,cuddE(f));
+    if (e == NULL) return(NULL);
 
     res = (cuddV(t) <= cuddV(e)) ? t : e;
 
-- 
2.43.0


From 5629c6cff57ce8a5a0945918d35003f1e9bc888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:58 +0000
Subject: [PATCH 67/79] fix: Cudd_addWalsh and Cudd_addResidue clean up after a
 failed step

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
index 91e4e18..d830184 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -220,6 +220,7 @@ Cudd_addResidue(
 	    t = (i + residue) % m;
 	    tmp = Cudd_addIte(dd,var,array[previous][t],array[previous][i]);
 	    if (tmp == NULL) {
+		Cudd_RecursiveDeref(dd,var);
 		for (j = 0; j < i; j++) {
 		    Cudd_RecursiveDeref(dd,array[thisOne][j]);
 		}
@@ -358,7 +359,7 @@ addWalshInt(
 	    }
 	    cuddRef(w);
 	    t = Cudd_addIte(dd, x[i], w, t1);
-	    if (u == NULL) {
+	    if (t == NULL) {
 		Cudd_RecursiveDeref(dd, u1);
 		Cudd_RecursiveDeref(dd, t1);
 		Cudd_RecursiveDeref(dd, u);
-- 
2.43.0


From 3a9da27bc3a53930aa6f48775601e70b9c9d07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:58 +0000
Subject: [PATCH 68/79] fix: Cudd_addXeqy tests the node it has just built

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
index ec3f911..1e53c82 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
@@ -411,7 +411,7 @@ Cudd_addXeqy(
 	cuddRef(w);
 	Cudd_RecursiveDeref(dd, u);
 	u = Cudd_addIte(dd, x[i], v, w);
-	if (w == NULL) {
+	if (u == NULL) {
 	    Cudd_RecursiveDeref(dd, v);
 	    Cudd_RecursiveDeref(dd, w);
 	    return(NULL);
-- 
2.43.0


From 60552f46a7eed23216a04f7b72d4148f0e11b875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:58 +0000
Subject: [PATCH 69/79] fix: Cudd_bddSqueeze and Cudd_bddConstrainDecomp clean
 up after a failed step

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
index f426cce..b08436e 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
@@ -360,6 +360,11 @@ Cudd_bddConstrainDecomp(
 	res = cuddBddConstrainDecomp(dd,f,decomp);
     } while (dd->reordered == 1);
     if (res == 0) {
+	for (i = 0; i < dd->size; i++) {
+	    if (decomp[i] != NULL) {
+		Cudd_IterDerefBdd(dd, decomp[i]);
+	    }
+	}
 	FREE(decomp);
         if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
           dd->timeoutHandler(dd, dd->tohArg);
@@ -2050,6 +2055,8 @@ cuddBddSqueeze(
     } else if ((le == zero || Cudd_bddLeq(dd,le,Cudd_Not(ut))) &&
 	       (ue == one  || Cudd_bddLeq(dd,Cudd_Not(lt),ue))) { /* c-remap */
 	t = cuddBddSqueeze(dd, lt, ut);
+	if (t == NULL)
+	    return(NULL);
 	cuddRef(t);
 	if (Cudd_IsComplement(t)) {
 	    r = cuddUniqueInter(dd, index, Cudd_Not(t), t);
@@ -2073,6 +2080,8 @@ cuddBddSqueeze(
     } else if ((lt == zero || Cudd_bddLeq(dd,lt,Cudd_Not(ue))) &&
 	       (ut == one  || Cudd_bddLeq(dd,Cudd_Not(le),ut))) { /* c-remap */
 	e = cuddBddSqueeze(dd, le, ue);
+	if (e == NULL)
+	    return(NULL);
 	cuddRef(e);
 	if (Cudd_IsComplement(e)) {
 	    r = cuddUniqueInter(dd, index, Cudd_Not(e), e);
-- 
2.43.0


From 1bd9937875c539e3a3dedf5985ede477ceaa72a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:58 +0000
Subject: [PATCH 70/79] fix: Cudd_addNonSimCompose releases its cube when it
 fails

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
index ffea33b..54b3942 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
@@ -698,6 +698,7 @@ Cudd_addNonSimCompose(
 	piece = Cudd_addApply(dd,Cudd_addXnor,var,vector[i]);
 	if (piece == NULL) {
 	    Cudd_RecursiveDeref(dd,key);
+	    Cudd_RecursiveDeref(dd,cube);
 	    Cudd_RecursiveDeref(dd,var);
 	    return(NULL);
 	}
@@ -706,6 +707,7 @@ Cudd_addNonSimCompose(
 	tmp = Cudd_addApply(dd,Cudd_addTimes,key,piece);
 	if (tmp == NULL) {
 	    Cudd_RecursiveDeref(dd,key);
+	    Cudd_RecursiveDeref(dd,cube);
 	    Cudd_RecursiveDeref(dd,piece);
 	    return(NULL);
 	}
-- 
2.43.0


From 2ff024ef04d94975a2b6bac66ade35eb5dcef73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:58 +0000
Subject: [PATCH 71/79] fix: conjunctive decomposition keeps the error code and
 releases a factor when interrupted

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
index fdaf366..6bfe14d 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
@@ -1568,6 +1568,7 @@ ZeroCase(
     if (h2 == NULL) {
 	Cudd_RecursiveDeref(dd, factorsNv->h);
 	Cudd_RecursiveDeref(dd, factorsNv->g);
+	Cudd_RecursiveDeref(dd, g1);
 	return NULL;
     }
 
@@ -2123,8 +2124,9 @@ outOfMem:
 	st_free_gen(stGen); stGen = NULL;
 	st_free_table(cacheTable); cacheTable = NULL;
     }
-    /* Reordering is not an error: the caller tries again. */
-    if (dd->reordered == 0)
+    /* Reordering is not an error: the caller tries again.  An error found
+    ** earlier (termination, time or node limit) is not overwritten. */
+    if (dd->reordered == 0 && dd->errorCode == CUDD_NO_ERROR)
 	dd->errorCode = CUDD_MEMORY_OUT;
     return(0);
 
-- 
2.43.0


From 3e8ae13a09d8902029d31781f6bbb05a96593133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:58 +0000
Subject: [PATCH 72/79] fix: Cudd_addTimesPlus releases its cube when it fails

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
index 9fdd28b..e7ade27 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
@@ -189,6 +189,7 @@ Cudd_addTimesPlus(
 	 w = Cudd_addIte(dd,z[i],cube,DD_ZERO(dd));
 	 if (w == NULL) {
 	    Cudd_RecursiveDeref(dd,tmp);
+	    Cudd_RecursiveDeref(dd,cube);
 	    return(NULL);
 	 }
 	 Cudd_Ref(w);
-- 
2.43.0


From 25653c3d0dd43464b2870341d403a38f393cae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:20 +0000
Subject: [PATCH 73/79] fix: Cudd LI-compaction reports running out of memory
 in its tables

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
index b08436e..724087d 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
@@ -1478,17 +1478,20 @@ cuddBddLICompaction(
     */
     marktable = st_init_table(st_ptrcmp,st_ptrhash);
     if (marktable == NULL) {
+	dd->errorCode = CUDD_MEMORY_OUT;
 	return(NULL);
     }
     markcache = st_init_table(MarkCacheCompare,MarkCacheHash);
     if (markcache == NULL) {
 	st_free_table(marktable);
+	dd->errorCode = CUDD_MEMORY_OUT;
 	return(NULL);
     }
     if (cuddBddLICMarkEdges(dd,f,c,marktable,markcache) == CUDD_OUT_OF_MEM) {
 	st_foreach(markcache, MarkCacheCleanUp, NULL);
 	st_free_table(marktable);
 	st_free_table(markcache);
+	dd->errorCode = CUDD_MEMORY_OUT;
 	return(NULL);
     }
     st_foreach(markcache, MarkCacheCleanUp, NULL);
@@ -1496,6 +1499,7 @@ cuddBddLICompaction(
     buildcache = st_init_table(st_ptrcmp,st_ptrhash);
     if (buildcache == NULL) {
 	st_free_table(marktable);
+	dd->errorCode = CUDD_MEMORY_OUT;
 	return(NULL);
     }
     res = cuddBddLICBuildResult(dd,f,buildcache,marktable);
@@ -1869,6 +1873,7 @@ cuddBddLICBuildResult(
     if (st_insert(cache, f, r) == ST_OUT_OF_MEM) {
 	cuddRef(r);
 	Cudd_IterDerefBdd(dd,r);
+	dd->errorCode = CUDD_MEMORY_OUT;
 	return(NULL);
     }
 
-- 
2.43.0


From 56d66049de780404cf4e7ee90ebc40486699bf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:20 +0000
Subject: [PATCH 74/79] fix: Cudd decompositions release what they hold when
 memory runs out

---
 .../cudd-3.0.0/cudd/cuddDecomp.c              | 60 ++++++++++++-------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
index 6bfe14d..ffbd760 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddDecomp.c
@@ -337,6 +337,7 @@ Cudd_bddIterConjDecomp(
 	/* Compute the second factor by minimization. */
 	res[1] = Cudd_bddLICompaction(dd,old[1],res[0]);
 	if (res[1] == NULL) {
+	    Cudd_RecursiveDeref(dd,res[0]);
 	    Cudd_RecursiveDeref(dd,old[0]);
 	    Cudd_RecursiveDeref(dd,old[1]);
 	    return(0);
@@ -617,9 +618,15 @@ Cudd_bddVarConjDecomp(
         int i, est1, est0, est;
 	i = scan->index;
 	est1 = Cudd_EstimateCofactor(dd,f,i,1);
-        if (est1 == CUDD_OUT_OF_MEM) return(0);
+        if (est1 == CUDD_OUT_OF_MEM) {
+	    Cudd_RecursiveDeref(dd,support);
+	    return(0);
+	}
 	est0 = Cudd_EstimateCofactor(dd,f,i,0);
-        if (est0 == CUDD_OUT_OF_MEM) return(0);
+        if (est0 == CUDD_OUT_OF_MEM) {
+	    Cudd_RecursiveDeref(dd,support);
+	    return(0);
+	}
 	/* Minimize the size of the larger of the two cofactors. */
 	est = (est1 > est0) ? est1 : est0;
 	if (est < min) {
@@ -791,6 +798,7 @@ CreateBotDist(
     
     if (st_insert(distanceTable, N, nodeStat) ==
 	ST_OUT_OF_MEM) {
+	FREE(nodeStat);
 	return(0);
 
     }
@@ -853,6 +861,8 @@ CountMinterms(
     *dummy = min;
     if (st_insert(mintermTable, node, dummy) == ST_OUT_OF_MEM) {
 	(void) fprintf(fp, "st table insert failed\n");
+	FREE(dummy);
+	return(-1.0);
     }
     return(min);
 
@@ -981,6 +991,7 @@ CheckTablesCacheAndReturn(
 	    }
 	    if (st_insert(ghTable, Cudd_Regular(g),
 			  (void *)(ptruint)value) == ST_OUT_OF_MEM) {
+		FREE(factors);
 		return(NULL);
 	    }
 	}
@@ -996,6 +1007,7 @@ CheckTablesCacheAndReturn(
 	    }
 	    if (st_insert(ghTable, Cudd_Regular(h),
 			  (void *)(ptruint)value) == ST_OUT_OF_MEM) {
+		FREE(factors);
 		return(NULL);
 	    }
 	}
@@ -1006,6 +1018,7 @@ CheckTablesCacheAndReturn(
 	    value = 2;
 	    if (st_insert(ghTable, Cudd_Regular(g),
 			  (void *)(ptruint)value) == ST_OUT_OF_MEM) {
+		FREE(factors);
 		return(NULL);
 	    }
 	}
@@ -1016,6 +1029,7 @@ CheckTablesCacheAndReturn(
 	    value = 1;
 	    if (st_insert(ghTable, Cudd_Regular(h),
 			  (void *)(ptruint)value) == ST_OUT_OF_MEM) {
+		FREE(factors);
 		return(NULL);
 	    }
 	}
@@ -1983,6 +1997,7 @@ cuddConjunctsAux(
     nodeStat->distance = 0;
     nodeStat->localRef = 1;
     if (st_insert(distanceTable, DD_ONE(dd), nodeStat) == ST_OUT_OF_MEM) {
+	FREE(nodeStat);
 	goto outOfMem;
     }
 
@@ -2040,24 +2055,6 @@ cuddConjunctsAux(
                              mintermTable, &lastTimeG);
     if (factors == NULL) goto outOfMem;
 
-    /* free up tables */
-    stGen = st_init_gen(distanceTable);
-    if (stGen == NULL) goto outOfMem;
-    while(st_gen(stGen, (void **)&key, (void **)&value)) {
-	FREE(value);
-    }
-    st_free_gen(stGen); stGen = NULL;
-    st_free_table(distanceTable); distanceTable = NULL;
-    st_free_table(ghTable); ghTable = NULL;
-    
-    stGen = st_init_gen(mintermTable);
-    if (stGen == NULL) goto outOfMem;
-    while(st_gen(stGen, (void **)&key, (void **)&value)) {
-	FREE(value);
-    }
-    st_free_gen(stGen); stGen = NULL;
-    st_free_table(mintermTable); mintermTable = NULL;
-
     freeFactors = FactorsNotStored(factors);
     factors = (freeFactors) ? FactorsUncomplement(factors) : factors;
     if (factors != NULL) {
@@ -2084,6 +2081,24 @@ cuddConjunctsAux(
 #endif
     }
 
+    /* free up tables */
+    stGen = st_init_gen(distanceTable);
+    if (stGen == NULL) goto outOfMem;
+    while(st_gen(stGen, (void **)&key, (void **)&value)) {
+	FREE(value);
+    }
+    st_free_gen(stGen); stGen = NULL;
+    st_free_table(distanceTable); distanceTable = NULL;
+    st_free_table(ghTable); ghTable = NULL;
+    
+    stGen = st_init_gen(mintermTable);
+    if (stGen == NULL) goto outOfMem;
+    while(st_gen(stGen, (void **)&key, (void **)&value)) {
+	FREE(value);
+    }
+    st_free_gen(stGen); stGen = NULL;
+    st_free_table(mintermTable); mintermTable = NULL;
+
     stGen = st_init_gen(cacheTable);
     if (stGen == NULL) goto outOfMem;
     while(st_gen(stGen, (void **)&key, (void **)&value)) {
@@ -2096,6 +2111,11 @@ cuddConjunctsAux(
     return(1);
 
 outOfMem:
+    if (*c1 != NULL) {
+	Cudd_RecursiveDeref(dd, *c1);
+	Cudd_RecursiveDeref(dd, *c2);
+	*c1 = *c2 = NULL;
+    }
     if (distanceTable != NULL) {
 	stGen = st_init_gen(distanceTable);
 	if (stGen == NULL) goto outOfMem;
-- 
2.43.0


From b8721d5b2cafab7df026d3dfae72a3818145c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:20 +0000
Subject: [PATCH 75/79] fix: Cudd_SplitSet notices that counting minterms ran
 out of memory

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
index 5dd9f8c..76db22f 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
@@ -174,6 +174,12 @@ Cudd_SplitSet(
 	    ** onset are stored in mtable.
 	    */
 	    num = bddAnnotateMintermCount(manager,S,max,mtable);
+	    if (num == (double)CUDD_OUT_OF_MEM) {
+		st_foreach(mtable,cuddStCountfree,NIL(void));
+		st_free_table(mtable);
+		FREE(varSeen);
+		return(NULL);
+	    }
 	    if (m == num) {
 		st_foreach(mtable,cuddStCountfree,NIL(void));
 		st_free_table(mtable);
@@ -638,13 +644,13 @@ bddAnnotateMintermCount(
     }
 
     /* Recur on the two branches. */
-    min_v  = bddAnnotateMintermCount(manager,Nv,max,table) / 2.0;
+    min_v  = bddAnnotateMintermCount(manager,Nv,max,table);
     if (min_v == (double)CUDD_OUT_OF_MEM)
 	return ((double)CUDD_OUT_OF_MEM);
-    min_nv = bddAnnotateMintermCount(manager,Nnv,max,table) / 2.0;
+    min_nv = bddAnnotateMintermCount(manager,Nnv,max,table);
     if (min_nv == (double)CUDD_OUT_OF_MEM)
 	return ((double)CUDD_OUT_OF_MEM);
-    min_N  = min_v + min_nv;
+    min_N  = min_v / 2.0 + min_nv / 2.0;
 
     pmin = ALLOC(double,1);
     if (pmin == NULL) {
@@ -655,6 +661,7 @@ bddAnnotateMintermCount(
 
     if (st_insert(table, node, pmin) == ST_OUT_OF_MEM) {
 	FREE(pmin);
+	manager->errorCode = CUDD_MEMORY_OUT;
 	return((double)CUDD_OUT_OF_MEM);
     }
     
-- 
2.43.0


From 53bdd5072435a525dbc1089c0cbe77391935ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:20 +0000
Subject: [PATCH 76/79] fix: picking minterms notices that counting ran out of
 memory; free the right strings

---
 .../cudd-3.0.0/cudd/cuddUtil.c                | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
index 74b4da3..7714203 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddUtil.c
@@ -1507,7 +1507,7 @@ Cudd_bddPickArbitraryMinterms(
 	string[i] = ALLOC(char, size + 1);
 	if (string[i] == NULL) {
 	    for (j = 0; j < i; j++)
-		FREE(string[i]);
+		FREE(string[j]);
 	    FREE(string);
 	    dd->errorCode = CUDD_MEMORY_OUT;
 	    return(NULL);
@@ -1690,7 +1690,7 @@ Cudd_SubsetWithMaskVars(
   DdNode ** maskVars /**< array of variables */,
   int  mvars /**< size of <code>maskVars</code> */)
 {
-    double	*weight;
+    double	*weight, count;
     char	*string;
     int		i, size;
     int		*indices, *mask;
@@ -1722,8 +1722,13 @@ Cudd_SubsetWithMaskVars(
 	    return(NULL);
 	}
 	cuddRef(cof);
-	weight[i] = Cudd_CountMinterm(dd, cof, nvars);
+	count = Cudd_CountMinterm(dd, cof, nvars);
 	Cudd_RecursiveDeref(dd,cof);
+	if (count == (double)CUDD_OUT_OF_MEM) {
+	    FREE(weight);
+	    return(NULL);
+	}
+	weight[i] = count;
 
 	cof = Cudd_Cofactor(dd, f, Cudd_Not(maskVars[i]));
 	if (cof == NULL) {
@@ -1731,8 +1736,13 @@ Cudd_SubsetWithMaskVars(
 	    return(NULL);
 	}
 	cuddRef(cof);
-	weight[i] -= Cudd_CountMinterm(dd, cof, nvars);
+	count = Cudd_CountMinterm(dd, cof, nvars);
 	Cudd_RecursiveDeref(dd,cof);
+	if (count == (double)CUDD_OUT_OF_MEM) {
+	    FREE(weight);
+	    return(NULL);
+	}
+	weight[i] -= count;
     }
 
     string = ALLOC(char, size + 1);
@@ -3939,10 +3949,12 @@ ddPickArbitraryMinterms(
 	T = Cudd_Not(T); E = Cudd_Not(E);
     }
 
-    min1 = Cudd_CountMinterm(dd, T, nvars) / 2.0;
+    min1 = Cudd_CountMinterm(dd, T, nvars);
     if (min1 == (double)CUDD_OUT_OF_MEM) return(0);
-    min2 = Cudd_CountMinterm(dd, E, nvars) / 2.0;
+    min1 /= 2.0;
+    min2 = Cudd_CountMinterm(dd, E, nvars);
     if (min2 == (double)CUDD_OUT_OF_MEM) return(0);
+    min2 /= 2.0;
 
     t = (int)((double)nminterms * min1 / (min1 + min2) + 0.5);
     for (i = 0; i < t; i++)
-- 
2.43.0


From 3c007266b915dfe0580449b2de013332e1a9cec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:20 +0000
Subject: [PATCH 77/79] fix: Cudd shortest path and largest cube survive
 running out of memory

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c | 70 ++++++++++++++-----
 1 file changed, 52 insertions(+), 18 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
index 9d4c234..95e3683 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
@@ -199,6 +199,10 @@ Cudd_ShortestPath(
 
 	/* Initialize visited table. */
 	visited = st_init_table(st_ptrcmp, st_ptrhash);
+	if (visited == NULL) {
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 
 	/* Now get the length of the shortest path(s) from f to 1. */
 	(void) getShortest(manager, f, weight, support, visited);
@@ -207,7 +211,12 @@ Cudd_ShortestPath(
 
 	F = Cudd_Regular(f);
 
-	if (!st_lookup(visited, F, (void **) &rootPair)) return(NULL);
+	if (!st_lookup(visited, F, (void **) &rootPair)) {
+	    st_foreach(visited, freePathPair, NULL);
+	    st_free_table(visited);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 
 	if (complement) {
 	  cost = rootPair->neg;
@@ -277,6 +286,10 @@ Cudd_LargestCube(
 
 	/* Initialize visited table. */
 	visited = st_init_table(st_ptrcmp, st_ptrhash);
+	if (visited == NULL) {
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 
 	/* Now get the length of the shortest path(s) from f to 1. */
 	(void) getLargest(manager, f, visited);
@@ -285,7 +298,12 @@ Cudd_LargestCube(
 
 	F = Cudd_Regular(f);
 
-	if (!st_lookup(visited, F, (void **) &rootPair)) return(NULL);
+	if (!st_lookup(visited, F, (void **) &rootPair)) {
+	    st_foreach(visited, freePathPair, NULL);
+	    st_free_table(visited);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 
 	if (complement) {
 	  cost = rootPair->neg;
@@ -1097,13 +1115,13 @@ getShortest(
     my_pair->pos = res_pair.pos;
     my_pair->neg = res_pair.neg;
 
-    st_insert(visited, my_root, my_pair);
+    if (st_insert(visited, my_root, my_pair) == ST_OUT_OF_MEM) {
+	FREE(my_pair);
+    }
     if (Cudd_IsComplement(root)) {
-	res_pair.pos = my_pair->neg;
-	res_pair.neg = my_pair->pos;
-    } else {
-	res_pair.pos = my_pair->pos;
-	res_pair.neg = my_pair->neg;
+	int tmp = res_pair.pos;
+	res_pair.pos = res_pair.neg;
+	res_pair.neg = tmp;
     }
     return(res_pair);
 
@@ -1154,7 +1172,11 @@ getPath(
 
 	if (complement) {T = Cudd_Not(T); E = Cudd_Not(E);}
 
-	st_lookup(visited, Cudd_Regular(T), (void **) &T_pair);
+	if (!st_lookup(visited, Cudd_Regular(T), (void **) &T_pair)) {
+	    Cudd_RecursiveDeref(manager,sol);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 	if ((Cudd_IsComplement(T) && T_pair->neg == Tcost) ||
 	(!Cudd_IsComplement(T) && T_pair->pos == Tcost)) {
 	    tmp = cuddBddAndRecur(manager,manager->vars[my_dd->index],sol);
@@ -1171,7 +1193,11 @@ getPath(
 	    cost = Tcost;
 	    continue;
 	}
-	st_lookup(visited, Cudd_Regular(E), (void **) &E_pair);
+	if (!st_lookup(visited, Cudd_Regular(E), (void **) &E_pair)) {
+	    Cudd_RecursiveDeref(manager,sol);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 	if ((Cudd_IsComplement(E) && E_pair->neg == Ecost) ||
 	(!Cudd_IsComplement(E) && E_pair->pos == Ecost)) {
 	    tmp = cuddBddAndRecur(manager,Cudd_Not(manager->vars[my_dd->index]),sol);
@@ -1274,13 +1300,13 @@ getLargest(
     my_pair->neg = res_pair.neg;
 
     /* Caching may fail without affecting correctness. */
-    st_insert(visited, my_root, my_pair);
+    if (st_insert(visited, my_root, my_pair) == ST_OUT_OF_MEM) {
+	FREE(my_pair);
+    }
     if (Cudd_IsComplement(root)) {
-	res_pair.pos = my_pair->neg;
-	res_pair.neg = my_pair->pos;
-    } else {
-	res_pair.pos = my_pair->pos;
-	res_pair.neg = my_pair->neg;
+	int tmp = res_pair.pos;
+	res_pair.pos = res_pair.neg;
+	res_pair.neg = tmp;
     }
     return(res_pair);
 
@@ -1330,7 +1356,11 @@ getCube(
 
 	if (complement) {T = Cudd_Not(T); E = Cudd_Not(E);}
 
-	if (!st_lookup(visited, Cudd_Regular(T), (void **)&T_pair)) return(NULL);
+	if (!st_lookup(visited, Cudd_Regular(T), (void **)&T_pair)) {
+	    Cudd_RecursiveDeref(manager,sol);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 	if ((Cudd_IsComplement(T) && T_pair->neg == Tcost) ||
 	(!Cudd_IsComplement(T) && T_pair->pos == Tcost)) {
 	    tmp = cuddBddAndRecur(manager,manager->vars[my_dd->index],sol);
@@ -1347,7 +1377,11 @@ getCube(
 	    cost = Tcost;
 	    continue;
 	}
-	if (!st_lookup(visited, Cudd_Regular(E), (void **)&E_pair)) return(NULL);
+	if (!st_lookup(visited, Cudd_Regular(E), (void **)&E_pair)) {
+	    Cudd_RecursiveDeref(manager,sol);
+	    manager->errorCode = CUDD_MEMORY_OUT;
+	    return(NULL);
+	}
 	if ((Cudd_IsComplement(E) && E_pair->neg == Ecost) ||
 	(!Cudd_IsComplement(E) && E_pair->pos == Ecost)) {
 	    tmp = cuddBddAndRecur(manager,Cudd_Not(manager->vars[my_dd->index]),sol);
-- 
2.43.0


From a9ac294df4fdedf461c2f4c42af7e9b9e7e61c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:20 +0000
Subject: [PATCH 78/79] fix: Cudd under-approximations check their queues for
 running out of memory

---
 .../cudd-3.0.0/cudd/cuddApprox.c              | 74 ++++++++++++++++++-
 1 file changed, 71 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddApprox.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddApprox.c
index 601f83b..c5b69d2 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddApprox.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddApprox.c
@@ -701,6 +701,12 @@ cuddBiasedUnderApprox(
     }
 
     cache = cuddHashTableInit(dd,2,2);
+    if (cache == NULL) {
+	FREE(info->page);
+	cuddHashTableGenericQuit(info->table);
+	FREE(info);
+	return(NULL);
+    }
     result = BAapplyBias(dd, Cudd_Regular(f), b, info, cache);
     if (result == CARE_ERROR) {
 	(void) fprintf(dd->err, "Out-of-memory; Cannot subset\n");
@@ -1207,18 +1213,32 @@ UAmarkNodes(
 			  info->size, info->minterms);
 #endif
 	    savings -= updateRefs(dd,node,NULL,info,localQueue);
-	    assert(savings == 0);
+	    if (savings != 0) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	    continue;
 	}
 	if (!cuddIsConstant(cuddT(node))) {
 	    item = (GlobalQueueItem *) cuddLevelQueueEnqueue(queue,cuddT(node),
 					 cuddI(dd,cuddT(node)->index));
+	    if (item == NULL) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	    item->impactP += impactP/2.0;
 	    item->impactN += impactN/2.0;
 	}
 	if (!Cudd_IsConstantInt(cuddE(node))) {
 	    item = (GlobalQueueItem *) cuddLevelQueueEnqueue(queue,Cudd_Regular(cuddE(node)),
 					 cuddI(dd,Cudd_Regular(cuddE(node))->index));
+	    if (item == NULL) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	    if (Cudd_IsComplement(cuddE(node))) {
 		item->impactP += impactN/2.0;
 		item->impactN += impactP/2.0;
@@ -1526,6 +1546,11 @@ RAmarkNodes(
 	    }
 	    numOnset = infoN->mintermsP * impactP + infoN->mintermsN * impactN;
 	    savings = computeSavings(dd,node,shared,info,localQueue);
+	    if (savings == 0) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	    if (shared != NULL) {
 		NodeData *infoS;
 		infoS = (NodeData *) cuddHashTableGenericLookup(info->table, Cudd_Regular(shared));
@@ -1570,7 +1595,11 @@ RAmarkNodes(
 #endif
 		savings -= updateRefs(dd,node,shared,info,localQueue) - 1;
 	    }
-	    assert(savings == 0);
+	    if (savings != 0) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	} else {
 	    replace = NOTHING;
 	}
@@ -1579,6 +1608,11 @@ RAmarkNodes(
 	    !cuddIsConstant(cuddT(node))) {
 	    item = (GlobalQueueItem *) cuddLevelQueueEnqueue(queue,cuddT(node),
 					 cuddI(dd,cuddT(node)->index));
+	    if (item == NULL) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	    if (replace == REPLACE_E) {
 		item->impactP += impactP;
 		item->impactN += impactN;
@@ -1591,6 +1625,11 @@ RAmarkNodes(
 	    !Cudd_IsConstantInt(cuddE(node))) {
 	    item = (GlobalQueueItem *) cuddLevelQueueEnqueue(queue,Cudd_Regular(cuddE(node)),
 					 cuddI(dd,Cudd_Regular(cuddE(node))->index));
+	    if (item == NULL) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	    if (Cudd_IsComplement(cuddE(node))) {
 		if (replace == REPLACE_T) {
 		    item->impactP += impactN;
@@ -1613,6 +1652,11 @@ RAmarkNodes(
 	    !Cudd_IsConstantInt(shared)) {
 	    item = (GlobalQueueItem *) cuddLevelQueueEnqueue(queue,Cudd_Regular(shared),
 					 cuddI(dd,Cudd_Regular(shared)->index));
+	    if (item == NULL) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	    if (Cudd_IsComplement(shared)) {
 	        item->impactP += impactN;
 		item->impactN += impactP;
@@ -1829,6 +1873,11 @@ BAmarkNodes(
 	    }
 	    numOnset = infoN->mintermsP * impactP + infoN->mintermsN * impactN;
 	    savings = computeSavings(dd,node,shared,info,localQueue);
+	    if (savings == 0) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	    if (shared != NULL) {
 		NodeData *infoS;
 		infoS = (NodeData *) cuddHashTableGenericLookup(info->table, Cudd_Regular(shared));
@@ -1873,7 +1922,11 @@ BAmarkNodes(
 #endif
 		savings -= updateRefs(dd,node,shared,info,localQueue) - 1;
 	    }
-	    assert(savings == 0);
+	    if (savings != 0) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	} else {
 	    replace = NOTHING;
 	}
@@ -1882,6 +1935,11 @@ BAmarkNodes(
 	    !cuddIsConstant(cuddT(node))) {
 	    item = (GlobalQueueItem *) cuddLevelQueueEnqueue(queue,cuddT(node),
 					 cuddI(dd,cuddT(node)->index));
+	    if (item == NULL) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	    if (replace == REPLACE_E) {
 		item->impactP += impactP;
 		item->impactN += impactN;
@@ -1894,6 +1952,11 @@ BAmarkNodes(
 	    !Cudd_IsConstantInt(cuddE(node))) {
 	    item = (GlobalQueueItem *) cuddLevelQueueEnqueue(queue,Cudd_Regular(cuddE(node)),
 					 cuddI(dd,Cudd_Regular(cuddE(node))->index));
+	    if (item == NULL) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	    if (Cudd_IsComplement(cuddE(node))) {
 		if (replace == REPLACE_T) {
 		    item->impactP += impactN;
@@ -1916,6 +1979,11 @@ BAmarkNodes(
 	    !Cudd_IsConstantInt(shared)) {
 	    item = (GlobalQueueItem *) cuddLevelQueueEnqueue(queue,Cudd_Regular(shared),
 					 cuddI(dd,Cudd_Regular(shared)->index));
+	    if (item == NULL) {
+		cuddLevelQueueQuit(queue);
+		cuddLevelQueueQuit(localQueue);
+		return(0);
+	    }
 	    if (Cudd_IsComplement(shared)) {
 		if (replace == REPLACE_T) {
 		    item->impactP += impactN;
-- 
2.43.0


From 3a144c41a6e662d15fac5830a2d22d60633dde6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:20 +0000
Subject: [PATCH 79/79] fix: a level queue keeps its hash table when it cannot
 be enlarged

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddLevelQ.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddLevelQ.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddLevelQ.c
index de40c82..29f7436 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddLevelQ.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddLevelQ.c
@@ -523,6 +523,8 @@ hashResize(
     buckets = queue->buckets = ALLOC(DdQueueItem *, numBuckets);
     MMoutOfMemory = saveHandler;
     if (buckets == NULL) {
+	/* Keep using the table we have. */
+	queue->buckets = oldBuckets;
 	queue->maxsize <<= 1;
 	return(1);
     }
-- 
2.43.0

