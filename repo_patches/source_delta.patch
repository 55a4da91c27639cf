From 00a947b0d736275ca2eb8f3b349a04e826ab61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 01/30] fix: free the generated 1-trees on the early returns of
 bound()

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 16e27ff..ebbf2b5 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -736,6 +736,7 @@ void bound(SubProblem *currentSubProb) {
                     if(analyzedSubProblem.type != OPEN){
                         if(iter == 1 || (analyzedSubProblem.type == CLOSED_SUBGRADIENT)) {
                             currentSubProb->type = analyzedSubProblem.type;
+                            delete_SubProblemList(&generatedSubProblems);
                             return;
                         }
                     }
@@ -779,10 +780,12 @@ void bound(SubProblem *currentSubProb) {
 
                 else{
                     currentSubProb->type = CLOSED_UNFEASIBLE;
+                    delete_SubProblemList(&generatedSubProblems);
                     return;
                 }
             } else {
                 currentSubProb->type = CLOSED_UNFEASIBLE;
+                delete_SubProblemList(&generatedSubProblems);
                 return;
             }
 
-- 
2.43.0


From aa69b619dfc228622430c02ca92b3fe719190ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 02/30] fix: initialise the printed fields of the nearest
 neighbour solutions

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index ebbf2b5..35d953b 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -849,6 +849,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
     nn_subProblem.num_forbidden_edges = 0;
     nn_subProblem.num_mandatory_edges = 0;
     nn_subProblem.num_edges_in_cycle = 0;
+    nn_subProblem.edge_to_branch = -1;
     nn_subProblem.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
     create_mst(&nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
     unsigned short current_node = start_node;
@@ -894,6 +895,8 @@ void nearest_prob_neighbour(unsigned short start_node) {
         prob_nn_subProblem.num_forbidden_edges = 0;
         prob_nn_subProblem.num_mandatory_edges = 0;
         prob_nn_subProblem.num_edges_in_cycle = 0;
+        prob_nn_subProblem.edge_to_branch = -1;
+        prob_nn_subProblem.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
         current_node = start_node;
-- 
2.43.0


From fb41fd6b2a84f01b843d473d905afec9582eef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 03/30] fix: room for the third mandatory edge that makes a
 1-tree unfeasible

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 35d953b..9ff57d5 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -88,8 +88,8 @@ bool check_hamiltonian(SubProblem *subProblem) {
 BBNodeType mst_to_one_tree(SubProblem *currentSubproblem, Graph *graph) {
 
     Node candidate = graph->nodes[problem->candidateNodeId];
-    int bestEdgesPos[2];
-    double bestEdgesWeight[2];
+    int bestEdgesPos[3]; // the loop below stops at the third mandatory edge
+    double bestEdgesWeight[3];
     unsigned short src = candidate.positionInGraph;
     unsigned short others [candidate.num_neighbours];
     unsigned short num_others = 0;
-- 
2.43.0


From ffc82ea500167fd0b483af71d41a8f8b04f6e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 04/30] fix: print CLOSED_1TREE for the solutions found by the
 first 1-tree

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 9ff57d5..dad5b97 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1089,6 +1089,8 @@ void print_subProblem(const SubProblem *subProblem) {
         type = "CLOSED_NEAREST_NEIGHBOR";
     } else if (subProblem->type == CLOSED_NN_HYBRID) {
         type = "CLOSED_NEAREST_NEIGHBOR_HYBRID";
+    } else if (subProblem->type == CLOSED_1TREE) {
+        type = "CLOSED_1TREE";
     } else {
         type = "CLOSED_SUBGRADIENT";
     }
-- 
2.43.0


From 323e066c7da71920a857ef49fcf54755f277cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 05/30] fix: delete_list_elem_bottom on a list with a single
 element

---
 .../data_structures/doubly_linked_list/list_functions.c     | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index 9f2be7e..5977e3a 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -133,7 +133,11 @@ void delete_list_elem_bottom(List *list) {
     DllElem *oldTail = list->tail;
 
     list->tail = oldTail->prev;
-    list->tail->next = NULL;
+    if (list->tail == NULL) {
+        list->head = NULL;
+    } else {
+        list->tail->next = NULL;
+    }
 
     free(oldTail);
     list->size--;
-- 
2.43.0


From baf1d8aa98df639c23a8eb1d94cf09d036594885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 06/30] fix: bound the degrees in consolidate() by the golden
 ratio

---
 src/HybridSolver/main/data_structures/fibonacci_heap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/fibonacci_heap.c b/src/HybridSolver/main/data_structures/fibonacci_heap.c
index 49a9a9b..4767f4a 100644
--- a/src/HybridSolver/main/data_structures/fibonacci_heap.c
+++ b/src/HybridSolver/main/data_structures/fibonacci_heap.c
@@ -113,7 +113,8 @@ void swap_roots(FibonacciHeap * heap, OrdTreeNode * node1, OrdTreeNode * node2){
 
 void consolidate(FibonacciHeap * heap){
 
-    int dimension = ((int) ceil(log(heap->num_nodes) / log(2))) + 2;
+    // a tree whose root has degree d holds at least phi^d nodes, phi being the golden ratio
+    int dimension = ((int) ceil(log(heap->num_nodes) / log((1 + sqrt(5)) / 2))) + 2;
     OrdTreeNode * degree_list [dimension] ;
 
     for (int i = 0; i < dimension; i++) {
-- 
2.43.0


From ded401c2ff55500dac70419b4590ddb5f89b31ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 07/30] fix: variable_fixing reads only the edges that are in
 the 1-tree

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index dad5b97..ffb6868 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -469,7 +469,7 @@ int variable_fixing(SubProblem *currentSubProb){
     }
 
 
-    for (int i = 0; i < MAX_VERTEX_NUM; i++){
+    for (int i = 0; i < currentSubProb->oneTree.num_edges; i++){
         Edge edge_1tree = currentSubProb->oneTree.edges[i];
         double edge_1tree_weight = problem->graph.edges_matrix[edge_1tree.src][edge_1tree.dest].weight;
 
-- 
2.43.0


From df9424b29a76ff3cb6d35a0ae28afd9a90498fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 08/30] fix: keep the mandatory edges in constrained_prim
 whatever the scale of the weights

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index ffb6868..c2d8d74 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -590,9 +590,9 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 
         if(src != candidateId && dest != candidateId) {
 
-            graph_copy.edges_matrix[src][dest].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges_matrix[dest][src].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -((double) problem->graph.num_nodes);
+            graph_copy.edges_matrix[src][dest].weight = -FLT_MAX;
+            graph_copy.edges_matrix[dest][src].weight = -FLT_MAX;
+            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -FLT_MAX;
         }
     }
 
-- 
2.43.0


From 0cdf223e90705ce9cf5c60005ba43fd8daca151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 09/30] fix: nearest neighbour tours on incomplete graphs use
 only existing edges

---
 .../main/algorithms/branch_and_bound.c        | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index c2d8d74..b9ba1a6 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -844,6 +844,16 @@ bool time_limit_reached(void) {
 }
 
 
+static bool is_neighbour(const Node *node, unsigned short other) {
+    for (unsigned short i = 0; i < node->num_neighbours; i++) {
+        if (node->neighbours[i] == other) {
+            return true;
+        }
+    }
+    return false;
+}
+
+
 void nearest_prob_neighbour(unsigned short start_node) {
     SubProblem nn_subProblem;
     nn_subProblem.num_forbidden_edges = 0;
@@ -854,11 +864,16 @@ void nearest_prob_neighbour(unsigned short start_node) {
     create_mst(&nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
     unsigned short current_node = start_node;
     bool visited[MAX_VERTEX_NUM] = {false};
+    bool is_tour = true; // false if, on an incomplete graph, the path cannot be extended or closed
     ConstrainedEdge cycleEdge;
 
     for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
 
         if (visited_count == problem->graph.num_nodes - 1) {
+            if (!is_neighbour(&problem->graph.nodes[current_node], start_node)) {
+                is_tour = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
             cycleEdge.src = current_node;
             cycleEdge.dest = start_node;
@@ -876,6 +891,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                     best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                 }
             }
+            if (best_neighbour == current_node) {
+                is_tour = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
             cycleEdge.src = current_node;
             cycleEdge.dest = best_neighbour;
@@ -885,7 +904,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
             current_node = best_neighbour;
         }
     }
-    nn_subProblem.value = nn_subProblem.oneTree.cost;
+    nn_subProblem.value = is_tour ? nn_subProblem.oneTree.cost : INFINITE;
     nn_subProblem.oneTree.isValid = true;
     nn_subProblem.type = CLOSED_NN;
     nn_subProblem.prob = nn_subProblem.oneTree.prob;
@@ -900,10 +919,15 @@ void nearest_prob_neighbour(unsigned short start_node) {
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
         current_node = start_node;
+        is_tour = true;
 
         for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
 
             if (visited_count == problem->graph.num_nodes - 1) {
+                if (!is_neighbour(&problem->graph.nodes[current_node], start_node)) {
+                    is_tour = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = start_node;
@@ -921,6 +945,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                         best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                     }
                 }
+                if (best_neighbour == current_node) {
+                    is_tour = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = best_neighbour;
@@ -930,7 +958,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
                 current_node = best_neighbour;
             }
         }
-        prob_nn_subProblem.value = prob_nn_subProblem.oneTree.cost;
+        prob_nn_subProblem.value = is_tour ? prob_nn_subProblem.oneTree.cost : INFINITE;
         prob_nn_subProblem.oneTree.isValid = true;
         prob_nn_subProblem.type = CLOSED_NN_HYBRID;
         prob_nn_subProblem.prob = prob_nn_subProblem.oneTree.prob;
@@ -1023,6 +1051,7 @@ void branch_and_bound(Problem *current_problem) {
 
         problem->start = clock();
         problem->bestValue = INFINITE;
+        problem->bestSolution.value = INFINITE;
         problem->candidateNodeId = find_candidate_node();
         problem->bestSolution.id = 0;
         problem->bestSolution.treeLevel = 0;
-- 
2.43.0


From 0281be6e508843353001dac325aa341d2cf855a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 10/30] fix: a sub-problem never holds more mandatory edges
 than its array

---
 .../main/algorithms/branch_and_bound.c        | 67 +++++++++----------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index b9ba1a6..100298c 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -182,6 +182,22 @@ void initialize_matrix(SubProblem *subProblem) {
 }
 
 
+// makes an edge mandatory; false when no tour can contain all the mandatory edges, since they would be more than |V|
+static bool add_mandatory_edge(SubProblem *subProblem, unsigned short src, unsigned short dest) {
+    if (subProblem->constraints[src][dest] != MANDATORY) {
+        if (subProblem->num_mandatory_edges == MAX_VERTEX_NUM) {
+            return false;
+        }
+        subProblem->constraints[src][dest] = MANDATORY;
+        subProblem->constraints[dest][src] = MANDATORY;
+        subProblem->mandatoryEdges[subProblem->num_mandatory_edges].src = src;
+        subProblem->mandatoryEdges[subProblem->num_mandatory_edges].dest = dest;
+        subProblem->num_mandatory_edges++;
+    }
+    return true;
+}
+
+
 bool infer_constraints(SubProblem * subProblem){
 
     bool valid = true;
@@ -216,13 +232,11 @@ bool infer_constraints(SubProblem * subProblem){
         } else if (MAX_VERTEX_NUM - num_forbidden_node == 2) {
 
             if (num_nothing_node + num_mandatory_node == 2) {
-                for (short j = 0; j < num_nothing_node; j++) {
-                    subProblem->constraints[i][nothing_nodes[j]] = MANDATORY;
-                    subProblem->constraints[nothing_nodes[j]][i] = MANDATORY;
-                    subProblem->mandatoryEdges[subProblem->num_mandatory_edges].src = i;
-                    subProblem->mandatoryEdges[subProblem->num_mandatory_edges].dest = nothing_nodes[j];
-                    subProblem->num_mandatory_edges++;
-                    problem->num_fixed_edges++;
+                for (short j = 0; j < num_nothing_node && valid; j++) {
+                    valid = add_mandatory_edge(subProblem, i, nothing_nodes[j]);
+                    if (valid) {
+                        problem->num_fixed_edges++;
+                    }
                 }
             }
         }
@@ -274,16 +288,13 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
         child.treeLevel = currentSubProblem->treeLevel + 1;
         child.edge_to_branch = -1;
         copy_constraints(&child, currentSubProblem);
+        bool feasible = true;
 
         if(HYBRID) {
 
             if (prob_edge >= PROB_BRANCH) {
                 if (i == 0) {
-                    child.constraints[to_branch.src][to_branch.dest] = MANDATORY;
-                    child.constraints[to_branch.dest][to_branch.src] = MANDATORY;
-                    child.mandatoryEdges[child.num_mandatory_edges].src = to_branch.src;
-                    child.mandatoryEdges[child.num_mandatory_edges].dest = to_branch.dest;
-                    child.num_mandatory_edges++;
+                    feasible = add_mandatory_edge(&child, to_branch.src, to_branch.dest);
                 } else {
                     child.constraints[to_branch.src][to_branch.dest] = FORBIDDEN;
                     child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
@@ -295,21 +306,13 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
                     child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
                     child.num_forbidden_edges++;
                 } else {
-                    child.constraints[to_branch.src][to_branch.dest] = MANDATORY;
-                    child.constraints[to_branch.dest][to_branch.src] = MANDATORY;
-                    child.mandatoryEdges[child.num_mandatory_edges].src = to_branch.src;
-                    child.mandatoryEdges[child.num_mandatory_edges].dest = to_branch.dest;
-                    child.num_mandatory_edges++;
+                    feasible = add_mandatory_edge(&child, to_branch.src, to_branch.dest);
                 }
             }
         }
         else{
             if (i == 0) {
-                child.constraints[to_branch.src][to_branch.dest] = MANDATORY;
-                child.constraints[to_branch.dest][to_branch.src] = MANDATORY;
-                child.mandatoryEdges[child.num_mandatory_edges].src = to_branch.src;
-                child.mandatoryEdges[child.num_mandatory_edges].dest = to_branch.dest;
-                child.num_mandatory_edges++;
+                feasible = add_mandatory_edge(&child, to_branch.src, to_branch.dest);
             } else {
                 child.constraints[to_branch.src][to_branch.dest] = FORBIDDEN;
                 child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
@@ -317,7 +320,7 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
             }
         }
 
-        if(infer_constraints(&child)){
+        if(feasible && infer_constraints(&child)){
             long position = -1;
 
             SubProblemsListIterator *subProblem_iterators = create_SubProblemList_iterator(
@@ -476,21 +479,15 @@ int variable_fixing(SubProblem *currentSubProb){
         if(currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] == NOTHING) {
             if (edge_1tree.src != problem->candidateNodeId && edge_1tree.dest != problem->candidateNodeId) {
                 if (currentSubProb->oneTree.cost + replacement_costs[i] - edge_1tree_weight >= problem->bestValue) {
-                    currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] = MANDATORY;
-                    currentSubProb->constraints[edge_1tree.dest][edge_1tree.src] = MANDATORY;
-                    currentSubProb->mandatoryEdges[currentSubProb->num_mandatory_edges].src = edge_1tree.src;
-                    currentSubProb->mandatoryEdges[currentSubProb->num_mandatory_edges].dest = edge_1tree.dest;
-                    currentSubProb->num_mandatory_edges++;
-                    num_fixed++;
+                    if (add_mandatory_edge(currentSubProb, edge_1tree.src, edge_1tree.dest)) {
+                        num_fixed++;
+                    }
                 }
             } else {
                 if(currentSubProb->oneTree.cost + best_candidate_replacement - edge_1tree_weight >= problem->bestValue){
-                    currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] = MANDATORY;
-                    currentSubProb->constraints[edge_1tree.dest][edge_1tree.src] = MANDATORY;
-                    currentSubProb->mandatoryEdges[currentSubProb->num_mandatory_edges].src = edge_1tree.src;
-                    currentSubProb->mandatoryEdges[currentSubProb->num_mandatory_edges].dest = edge_1tree.dest;
-                    currentSubProb->num_mandatory_edges++;
-                    num_fixed++;
+                    if (add_mandatory_edge(currentSubProb, edge_1tree.src, edge_1tree.dest)) {
+                        num_fixed++;
+                    }
                 }
             }
         }
-- 
2.43.0


From 972fa2b92a01f592b7b457e09eb144f4ec7f3be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 11/30] fix: buffers of print_graph, print_mst and
 print_mst_original_weight too small

---
 src/HybridSolver/main/data_structures/graph.c |  9 ++-------
 src/HybridSolver/main/data_structures/mst.c   | 18 ++++--------------
 2 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/HybridSolver/main/data_structures/graph.c b/src/HybridSolver/main/data_structures/graph.c
index 26da3df..4cbaecb 100644
--- a/src/HybridSolver/main/data_structures/graph.c
+++ b/src/HybridSolver/main/data_structures/graph.c
@@ -113,15 +113,10 @@ void print_graph(const Graph *G) {
     printf("\nCost: %lf\n", G->cost);
     printf("\nEdges: %i\n", G->num_edges);
 
-    double dim = (log(G->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short j = 0; j < G->num_edges; j++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
+        char edge_print [32] ;
         Edge curr = G->edges[j];
-        sprintf(edge_print, "%i", curr.src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr.dest);
-        strcat(edge_print, edge_print_dest);
+        snprintf(edge_print, sizeof(edge_print), "%i <--> %i", curr.src, curr.dest);
 
         printf("Edge%i:\t%s\tweight = %.*f\tprob = %.*f\n",
                curr.symbol,
diff --git a/src/HybridSolver/main/data_structures/mst.c b/src/HybridSolver/main/data_structures/mst.c
index 3e71278..8ad1beb 100644
--- a/src/HybridSolver/main/data_structures/mst.c
+++ b/src/HybridSolver/main/data_structures/mst.c
@@ -70,15 +70,10 @@ void add_edge(MST * tree, const Edge * edge){
 void print_mst(const MST * tree){
     printf("\nMST or 1-Tree with cost: %lf and validity = %s\n", tree->cost, tree->isValid ? "TRUE" : "FALSE");
 
-    double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
+        char edge_print [32] ;
         const Edge * curr = &tree->edges[i];
-        sprintf(edge_print, "%i", curr->src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr->dest);
-        strcat(edge_print, edge_print_dest);
+        snprintf(edge_print, sizeof(edge_print), "%i <--> %i", curr->src, curr->dest);
         printf("Edge%i:\t%s\tweight = %lf\tprob = %lf\n",
                curr->symbol,
                edge_print,
@@ -92,15 +87,10 @@ void print_mst(const MST * tree){
 void print_mst_original_weight(const MST * tree, const Graph * graph){
     printf("\nMST or 1-Tree with cost: %f and validity = %s\n", tree->cost, tree->isValid ? "TRUE" : "FALSE");
 
-    double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
-        char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
+        char edge_print [32] ;
         const Edge * curr = &tree->edges[i];
-        sprintf(edge_print, "%i", curr->src);
-        strcat(edge_print, " <--> ");
-        sprintf(edge_print_dest, "%i", curr->dest);
-        strcat(edge_print, edge_print_dest);
+        snprintf(edge_print, sizeof(edge_print), "%i <--> %i", curr->src, curr->dest);
         printf("Edge%i: %s weight = %f prob = %f\n",
                curr->symbol,
                edge_print,
-- 
2.43.0


From 8f1b04363aa9c27d6055160b1009b7a26abec4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 12/30] fix: read_tsp_lib_file accepts EUC_2D files only

---
 src/HybridSolver/main/tsp_instance_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 99c940b..a72026c 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -28,7 +28,7 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
     bool check_euc_2d = false;
     while (getline(&line, &len, fp) != -1 &&
            strstr(line, "NODE_COORD_SECTION") == NULL) {
-        if (strstr(line, "EDGE_WEIGHT_TYPE : EUC_2D") == NULL) {
+        if (strstr(line, "EDGE_WEIGHT_TYPE") != NULL && strstr(line, "EUC_2D") != NULL) {
             check_euc_2d = true;
         }
     }
-- 
2.43.0


From 1f62da4878082e679d9cf9280836d69234de4b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 13/30] fix: the readers refuse instances with more than
 MAX_VERTEX_NUM nodes

---
 src/HybridSolver/main/tsp_instance_reader.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index a72026c..60ba12e 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -15,6 +15,13 @@
 #include "tsp_instance_reader.h"
 
 
+static void too_many_nodes(const char *filename) {
+    fprintf(stderr, "The instance has more than %i nodes.\n", MAX_VERTEX_NUM);
+    printf("\nFile: %s\n", filename);
+    exit(1);
+}
+
+
 void read_tsp_lib_file(Graph *graph, char *filename) {
     FILE *fp = fopen(filename, "r");
     if (fp == NULL) {
@@ -56,6 +63,9 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
                 printf("\nFile: %s\n", filename);
                 exit(1);
             }
+            if (i >= MAX_VERTEX_NUM) {
+                too_many_nodes(filename);
+            }
             nodes[i].positionInGraph = i;
             nodes[i].x = x;
             nodes[i].y = y;
@@ -107,6 +117,9 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
                     printf("\nFile: %s\n", filename);
                     exit(1);
                 }
+                if (node_num >= MAX_VERTEX_NUM) {
+                    too_many_nodes(filename);
+                }
                 graph->nodes[node_num].positionInGraph = node_num;
                 graph->nodes[node_num].x = x;
                 graph->nodes[node_num].y = y;
@@ -119,7 +132,13 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
         }
         char *token = strtok(line, ";");
         unsigned short j = 0;
+        if (i >= MAX_VERTEX_NUM) {
+            too_many_nodes(filename);
+        }
         while (token != NULL && strcmp(token, "\n") != 0) {
+            if (j >= MAX_VERTEX_NUM) {
+                too_many_nodes(filename);
+            }
             if (j != i) {
                 double weight = 0, prob = 0;
 
-- 
2.43.0


From b057499e752065d6a433242d835496dcf2a7d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 14/30] fix: report an output file that cannot be opened or
 written

---
 src/HybridSolver/main/main.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/main.c b/src/HybridSolver/main/main.c
index 21076fa..dfcb542 100644
--- a/src/HybridSolver/main/main.c
+++ b/src/HybridSolver/main/main.c
@@ -37,7 +37,10 @@ int main(int argc, char *argv[]) {
     //printf("\nReading from file '%s'\n", input_file);
     //printf("\nWriting to file '%s'\n", output_file);
 
-    freopen(output_file, "w+", stdout);
+    if (freopen(output_file, "w+", stdout) == NULL) {
+        perror("Error while opening the output file");
+        exit(1);
+    }
 
     //run_all_tests();
 
@@ -52,7 +55,10 @@ int main(int argc, char *argv[]) {
 
     print_problem();
 
-    fclose(stdout);
+    if (fclose(stdout) == EOF) {
+        perror("Error while writing the output file");
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From e571497bb9fcd70290a43bbf1e04d431a181956b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 15/30] fix: HybridSolver.py uses errno without importing it

---
 src/HybridSolver/main/HybridSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index 8351373..ab5e93f 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -11,6 +11,7 @@
 
     Repo: https://github.com/LorenzoSciandra/GraphConvolutionalBranchandBound
 """
+import errno
 import subprocess
 import argparse
 import pprint as pp
-- 
2.43.0


From 9328514b738bb6cdfe08ae054dd6a16c595e6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 16/30] fix: get_instance reports every instance that is not in
 the file

---
 src/HybridSolver/main/HybridSolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index ab5e93f..0017c13 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -95,7 +95,7 @@ def get_instance(instance, num_nodes):
     with open(file_path, "r") as f:
         lines = f.readlines()
 
-    if lines is None or len(lines) < instance - 1:
+    if lines is None or not 1 <= instance <= len(lines):
         raise Exception(
             "The instance " + str(instance) + " for the number of nodes " + str(num_nodes) + " does not exist.")
 
-- 
2.43.0


From 22a0760815dfc20cbe5c6693f1a69e5f714513f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 17/30] fix: probabilities of the dummy cities compared as
 numbers and given to the city they copy

---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 89da50f..d959658 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -148,9 +148,11 @@ def write_adjacency_matrix(graph, y_probs, x_edges_values, nodes_coord, filepath
                 final_arr.append(arr_combined[i * model_size + j])
 
             for j in range(num_nodes, model_size):
-                if i != j-num_nodes:
-                    if arr_combined[i * model_size + j][1] > final_arr[i * num_nodes + j - num_nodes][1]:
-                        final_arr[i * num_nodes + j - num_nodes][1] = arr_combined[i * model_size + j][1]
+                # the city of which j is a copy, see add_dummy_cities
+                city = (j - num_nodes) % num_nodes
+                if i != city:
+                    if float(arr_combined[i * model_size + j][1]) > float(final_arr[i * num_nodes + city][1]):
+                        final_arr[i * num_nodes + city][1] = arr_combined[i * model_size + j][1]
 
         arr_combined = np.array(final_arr)
 
-- 
2.43.0


From e6a252dbd3a3d137b18536cba84cc7f2dc5dd7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 18/30] fix: missing backslash of textbf in the tables

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index ddccab2..86b8bf0 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -403,7 +403,7 @@ def modify_string(old_tab, line, name, j):
         if p_val < 0.05:
             old_tab = old_tab.replace(name + "_" + str(j),  "\\underline{\\textbf{" + str(cla_m) + "}}")
         else:
-            old_tab = old_tab.replace(name + "_" + str(j),  "\textbf{" + str(cla_m) + "}")
+            old_tab = old_tab.replace(name + "_" + str(j),  "\\textbf{" + str(cla_m) + "}")
 
         old_tab = old_tab.replace("std_" + name + "_" + str(j + 1), "\stdf{" + str(hyb_std) + "}")
         old_tab = old_tab.replace(name + "_" + str(j + 1),  str(hyb_m))
-- 
2.43.0


From 38e4f9d80ff6ba823d25d92b17a33b7eaa3d7aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 19/30] fix: instances without a solution yet are not counted
 as better for the classic solver

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index 86b8bf0..1dd77b9 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -61,7 +61,7 @@ def improvement_profile(hyb_solutions, cla_solutions, num_nodes, profiles_path):
         two_count = 0
         for key in sol_one.keys():
             # if the two solutions are contained in the ub range, we consider them equal
-            if not abs(sol_one[key] - sol_two[key]) < ub:
+            if sol_one[key] != sol_two[key] and not abs(sol_one[key] - sol_two[key]) < ub:
                 if sol_one[key] < sol_two[key]:
                     one_count += 1
                 else:
-- 
2.43.0


From 32ff9e5962fcf2f11d742dbc53d15e976d67efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 20/30] fix: list the cities in the order in which the solver
 numbers them

---
 src/HybridSolver/main/HybridSolver.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index 0017c13..e5897b2 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -113,6 +113,22 @@ def get_instance(instance, num_nodes):
     return graph, orig_graph
 
 
+def get_csv_nodes(input_file):
+    """
+    Reads the nodes of an adjacency matrix file, in the order in which the Branch and Bound numbers them. With more than
+    100 nodes it is not the order of the instance: the medoids come first.
+    Args:
+        input_file: The path of the adjacency matrix file.
+
+    Returns:
+        The nodes in a list.
+    """
+    with open(input_file, "r") as f:
+        cities = f.readline().strip().strip(";").split(";")
+
+    return [[float(coord) for coord in city.strip().strip("()").split(",")] for city in cities]
+
+
 def build_c_program(build_directory, num_nodes, hyb_mode):
     """
     Builds the C program with the specified number of nodes and whether it is in hybrid mode or not.
@@ -212,6 +228,7 @@ def hybrid_solver(num_instances, num_nodes, hyb_mode, gen_matrix):
                 print('Neural Network completed successfully on instance ' + str(i) + ' / ' + str(end_instance))
             else:
                 print('Neural Network failed on instance ' + str(i) + ' / ' + str(end_instance))
+            graph = get_csv_nodes(absolute_input_path)
 
         elif gen_matrix:
             adj_matrix = adjacency_matrix(graph)
-- 
2.43.0


From 36b37961587ed263d9dd359fd2824e04e4f75c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 21/30] fix: forbidding an edge removes it from the mandatory
 edges

---
 .../main/algorithms/branch_and_bound.c        | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 100298c..1203f19 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -198,6 +198,22 @@ static bool add_mandatory_edge(SubProblem *subProblem, unsigned short src, unsig
 }
 
 
+// makes an edge forbidden; variable fixing may have just made it mandatory
+static void forbid_edge(SubProblem *subProblem, unsigned short src, unsigned short dest) {
+    for (unsigned short i = 0; i < subProblem->num_mandatory_edges; i++) {
+        ConstrainedEdge edge = subProblem->mandatoryEdges[i];
+        if ((edge.src == src && edge.dest == dest) || (edge.src == dest && edge.dest == src)) {
+            subProblem->num_mandatory_edges--;
+            subProblem->mandatoryEdges[i] = subProblem->mandatoryEdges[subProblem->num_mandatory_edges];
+            break;
+        }
+    }
+    subProblem->constraints[src][dest] = FORBIDDEN;
+    subProblem->constraints[dest][src] = FORBIDDEN;
+    subProblem->num_forbidden_edges++;
+}
+
+
 bool infer_constraints(SubProblem * subProblem){
 
     bool valid = true;
@@ -296,15 +312,11 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
                 if (i == 0) {
                     feasible = add_mandatory_edge(&child, to_branch.src, to_branch.dest);
                 } else {
-                    child.constraints[to_branch.src][to_branch.dest] = FORBIDDEN;
-                    child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
-                    child.num_forbidden_edges++;
+                    forbid_edge(&child, to_branch.src, to_branch.dest);
                 }
             } else {
                 if (i == 0) {
-                    child.constraints[to_branch.src][to_branch.dest] = FORBIDDEN;
-                    child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
-                    child.num_forbidden_edges++;
+                    forbid_edge(&child, to_branch.src, to_branch.dest);
                 } else {
                     feasible = add_mandatory_edge(&child, to_branch.src, to_branch.dest);
                 }
@@ -314,9 +326,7 @@ void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
             if (i == 0) {
                 feasible = add_mandatory_edge(&child, to_branch.src, to_branch.dest);
             } else {
-                child.constraints[to_branch.src][to_branch.dest] = FORBIDDEN;
-                child.constraints[to_branch.dest][to_branch.src] = FORBIDDEN;
-                child.num_forbidden_edges++;
+                forbid_edge(&child, to_branch.src, to_branch.dest);
             }
         }
 
-- 
2.43.0


From 197a158375e8820e75e953c55efa0c17f0b0249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 22/30] fix: inserting at the end of a list by index updates
 its tail

---
 src/HybridSolver/main/data_structures/b_and_b_data.c             | 1 +
 .../main/data_structures/doubly_linked_list/list_functions.c     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.c b/src/HybridSolver/main/data_structures/b_and_b_data.c
index e9cf1dc..f120683 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.c
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.c
@@ -99,6 +99,7 @@ void add_elem_SubProblemList_index(SubProblemsList *list, SubProblem *element, s
         if (supp == NULL) {
             e = build_list_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_list_elem(element, supp, supp->prev);
             e->next->prev = e;
diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index 5977e3a..22c083f 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -110,6 +110,7 @@ void add_elem_list_index(List *list, void *element, size_t index) {
         if (supp == NULL) {
             e = build_dll_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_dll_elem(element, supp, supp->prev);
             e->next->prev = e;
-- 
2.43.0


From 785ce71388254b42da318442a35c36a72026476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:15 +0000
Subject: [PATCH 23/30] fix: sorting the edges of a graph that has none reads
 out of bounds

---
 src/HybridSolver/main/algorithms/kruskal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/kruskal.c b/src/HybridSolver/main/algorithms/kruskal.c
index 69aa710..fa7338b 100644
--- a/src/HybridSolver/main/algorithms/kruskal.c
+++ b/src/HybridSolver/main/algorithms/kruskal.c
@@ -123,7 +123,9 @@ static void quick_sort(Graph * graph, unsigned short first, unsigned short last)
 void wrap_quick_sort(Graph * graph) {
     if (!graph->orderedEdges) {
         graph->orderedEdges = true;
-        quick_sort(graph, 0, graph->num_edges - 1);
+        if (graph->num_edges > 0) {
+            quick_sort(graph, 0, graph->num_edges - 1);
+        }
     }
 }
 
-- 
2.43.0


From f472287ab56794ccfcbbca6fc5633ec14144e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 24/30] fix: underline in the tables every difference with a
 p-value below 0.05, not only below 0.045

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index 1dd77b9..9526295 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -388,7 +388,7 @@ def modify_string(old_tab, line, name, j):
     hyb_std = round(float(line.split()[2]), 2)
     cla_m = round(float(line.split()[3]), 2)
     cla_std = round(float(line.split()[4]), 2)
-    p_val = round(float(line.split()[5]), 2)
+    p_val = float(line.split()[5])
     #print(hyb_m, cla_m, name)
     if hyb_m < cla_m:
         old_tab = old_tab.replace("std_" + name + "_" + str(j), "\stdf{" + str(cla_std) + "}")
-- 
2.43.0


From 79395057c0c8f119eee69f06418bbab05889a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 25/30] fix: the improvement profile compares the instances
 that both solvers ran, as the cumulative profile does

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index 9526295..fe41931 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -22,6 +22,11 @@ import pandas as pd
 
 
 def improvement_profile(hyb_solutions, cla_solutions, num_nodes, profiles_path):
+
+    same_ids = set(hyb_solutions.keys()).intersection(set(cla_solutions.keys()))
+    hyb_solutions = {key: value for key, value in hyb_solutions.items() if key in same_ids}
+    cla_solutions = {key: value for key, value in cla_solutions.items() if key in same_ids}
+
     # take all the times of the partial solutions
     times = set()
 
-- 
2.43.0


From b19dcd689207f70f36f7ab072acf01fe18ea5abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:56 +0000
Subject: [PATCH 26/30] fix: take the edge out of the 1-tree once when it is
 replaced

The replacement cost of an edge of the 1-tree is the weight of the edge that
replaces it minus its own; variable_fixing subtracted its own weight again. At
the candidate node the replacement could be an edge already in the 1-tree, so
nothing was ever fixed there. Edges that every improving tour needs were left
free.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 1203f19..fe5aad2 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -473,7 +473,9 @@ int variable_fixing(SubProblem *currentSubProb){
 
             }
 
-            if(current_edge.src == problem->candidateNodeId || current_edge.dest == problem->candidateNodeId){
+            // an edge of the 1-tree can only be replaced by one that is not in it
+            if((current_edge.src == problem->candidateNodeId || current_edge.dest == problem->candidateNodeId)
+               && currentSubProb->oneTree.edges_matrix[current_edge.src][current_edge.dest] == -1){
                 if(current_edge.weight < best_candidate_replacement){
                     best_candidate_replacement = current_edge.weight;
                 }
@@ -488,7 +490,7 @@ int variable_fixing(SubProblem *currentSubProb){
 
         if(currentSubProb->constraints[edge_1tree.src][edge_1tree.dest] == NOTHING) {
             if (edge_1tree.src != problem->candidateNodeId && edge_1tree.dest != problem->candidateNodeId) {
-                if (currentSubProb->oneTree.cost + replacement_costs[i] - edge_1tree_weight >= problem->bestValue) {
+                if (currentSubProb->oneTree.cost + replacement_costs[i] >= problem->bestValue) {
                     if (add_mandatory_edge(currentSubProb, edge_1tree.src, edge_1tree.dest)) {
                         num_fixed++;
                     }
-- 
2.43.0


From 2117b72688a36fb890f93a11c33051c3fefbd4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:22 +0000
Subject: [PATCH 27/30] fix: beam search never visits a city twice, whatever
 the predictions

---
 src/HybridSolver/main/graph-convnet-tsp/utils/beamsearch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/utils/beamsearch.py b/src/HybridSolver/main/graph-convnet-tsp/utils/beamsearch.py
index 45ef6c6..cc29b7d 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/utils/beamsearch.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/utils/beamsearch.py
@@ -80,6 +80,8 @@ class Beamsearch(object):
                 beam_lk[:, 1:] = -1e20 * torch.ones(beam_lk[:, 1:].size()).type(self.dtypeFloat)
         # Multiply by mask
         beam_lk = beam_lk * self.mask
+        # A visited node ranks below every other one, even below those of (numerically) zero probability
+        beam_lk[self.mask != 1] = -1e30
         beam_lk = beam_lk.view(self.batch_size, -1)  # (batch_size, beam_size * num_nodes)
         # Get top k scores and indexes (k = beam_size)
         bestScores, bestScoresId = beam_lk.topk(self.beam_size, 1, True, True)
-- 
2.43.0


From fae8d717e2106015fad8c8af499b0efed1f124bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:44 +0000
Subject: [PATCH 28/30] fix: keep the copy of the graph made by
 constrained_prim off the stack, which it overflows from 330 nodes on

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index fe5aad2..3159e5c 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -573,7 +573,8 @@ void constrained_kruskal(Graph * graph, SubProblem * subProblem, unsigned short
 
 void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short candidateId) {
 
-    Graph graph_copy = *graph;
+    static Graph graph_copy; // too large for the stack when there are many nodes
+    graph_copy = *graph;
     create_mst(&subProblem->oneTree,graph->nodes, graph->num_nodes);
     FibonacciHeap heap;
     create_fibonacci_heap(&heap);
-- 
2.43.0


From 380313aee45576eddacdb3de293c4284fc4b6c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:44 +0000
Subject: [PATCH 29/30] fix: number the edges with unsigned int, as a graph of
 more than 362 nodes has more than 65535 edges

---
 .../main/algorithms/branch_and_bound.c         |  4 ++--
 src/HybridSolver/main/algorithms/kruskal.c     | 18 +++++++++---------
 src/HybridSolver/main/algorithms/kruskal.h     |  6 +++---
 src/HybridSolver/main/data_structures/graph.c  |  6 +++---
 src/HybridSolver/main/data_structures/graph.h  |  6 +++---
 src/HybridSolver/main/tsp_instance_reader.c    |  2 +-
 6 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 3159e5c..1212eb6 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -535,7 +535,7 @@ void constrained_kruskal(Graph * graph, SubProblem * subProblem, unsigned short
         }
     }
 
-    unsigned short num_edges_inG = 0;
+    unsigned int num_edges_inG = 0;
 
     while (num_edges_inG < graph->num_edges && num_edges_inMST < graph->num_nodes - 2) {
 
@@ -691,7 +691,7 @@ void bound(SubProblem *currentSubProb) {
             SubProblem analyzedSubProblem = *currentSubProb;
             BBNodeType type;
             if(!first_iter) {
-                for (unsigned short j = 0; j < problem->graph.num_edges; j++) {
+                for (unsigned int j = 0; j < problem->graph.num_edges; j++) {
                     if ((pi[used_graph->edges[j].src] +
                          pi[used_graph->edges[j].dest]) != 0) {
                         used_graph->edges[j].weight += (pi[used_graph->edges[j].src] +
diff --git a/src/HybridSolver/main/algorithms/kruskal.c b/src/HybridSolver/main/algorithms/kruskal.c
index fa7338b..cb26032 100644
--- a/src/HybridSolver/main/algorithms/kruskal.c
+++ b/src/HybridSolver/main/algorithms/kruskal.c
@@ -15,7 +15,7 @@
 #include "kruskal.h"
 
 
-static void swap(Graph *graph, unsigned short swap_1, unsigned short swap_2) {
+static void swap(Graph *graph, unsigned int swap_1, unsigned int swap_2) {
 
     Edge * edges = graph->edges;
 
@@ -36,11 +36,11 @@ static void swap(Graph *graph, unsigned short swap_1, unsigned short swap_2) {
 }
 
 
-static int pivot_quicksort(Graph * graph, unsigned short first, unsigned short last) {
+static int pivot_quicksort(Graph * graph, unsigned int first, unsigned int last) {
     Edge * edges = graph->edges;
     Edge last_edge = edges[last];
     Edge first_edge = edges[first];
-    unsigned short middle = (first + last) / 2;
+    unsigned int middle = (first + last) / 2;
     Edge middle_edge = edges[middle];
     double pivot_weight = first_edge.weight;
     double pivot_prob = first_edge.prob;
@@ -74,8 +74,8 @@ static int pivot_quicksort(Graph * graph, unsigned short first, unsigned short l
             swap(graph, first, middle);
         }
     }
-    unsigned short j = last;
-    unsigned short i = first + 1;
+    unsigned int j = last;
+    unsigned int i = first + 1;
     bool condition = true;
     while (condition) {
         Edge i_edge = edges[i];
@@ -107,10 +107,10 @@ static int pivot_quicksort(Graph * graph, unsigned short first, unsigned short l
 }
 
 
-static void quick_sort(Graph * graph, unsigned short first, unsigned short last) {
+static void quick_sort(Graph * graph, unsigned int first, unsigned int last) {
     if (first < last) {
-        unsigned short pivot = pivot_quicksort(graph, first, last);
-        if(pivot -1 > first) {
+        unsigned int pivot = pivot_quicksort(graph, first, last);
+        if(pivot > first + 1) {
             quick_sort(graph, first, pivot - 1);
         }
         if(pivot + 1 < last) {
@@ -135,7 +135,7 @@ void kruskal(Graph * graph, MST * mst) {
     Forest forest;
     create_forest(&forest, graph->nodes, graph->num_nodes);
     wrap_quick_sort(graph);
-    unsigned short num_edges_inG = 0;
+    unsigned int num_edges_inG = 0;
     unsigned short num_edges_inMST = 0;
 
     while (num_edges_inG < graph->num_edges && num_edges_inMST < graph->num_nodes - 1) {
diff --git a/src/HybridSolver/main/algorithms/kruskal.h b/src/HybridSolver/main/algorithms/kruskal.h
index 63e5f2f..54e3fc5 100644
--- a/src/HybridSolver/main/algorithms/kruskal.h
+++ b/src/HybridSolver/main/algorithms/kruskal.h
@@ -24,7 +24,7 @@
  * @param swap_1 The index of the first Edge to swap.
  * @param swap_2 The index of the second Edge to swap.
  */
-static void swap(Graph * graph, unsigned short swap_1, unsigned short swap_2);
+static void swap(Graph * graph, unsigned int swap_1, unsigned int swap_2);
 
 
 //! The core of the quick sort algorithm.
@@ -36,7 +36,7 @@ static void swap(Graph * graph, unsigned short swap_1, unsigned short swap_2);
  * @param last The index of the last Edge to consider in the list of edges.
  * @return the index of the pivot.
  */
-static int pivot_quicksort(Graph * graph, unsigned short first, unsigned short last);
+static int pivot_quicksort(Graph * graph, unsigned int first, unsigned int last);
 
 
 //! The quick sort algorithm O(n log n).
@@ -46,7 +46,7 @@ static int pivot_quicksort(Graph * graph, unsigned short first, unsigned short l
  * @param first The index of the first Edge to consider in the list of edges.
  * @param last The index of the last Edge to consider in the list of edges.
  */
-static void quick_sort(Graph * graph, unsigned short first, unsigned short last);
+static void quick_sort(Graph * graph, unsigned int first, unsigned int last);
 
 
 //! The wrapper of the quick sort algorithm.
diff --git a/src/HybridSolver/main/data_structures/graph.c b/src/HybridSolver/main/data_structures/graph.c
index 4cbaecb..2b04b1e 100644
--- a/src/HybridSolver/main/data_structures/graph.c
+++ b/src/HybridSolver/main/data_structures/graph.c
@@ -35,7 +35,7 @@ void create_graph(Graph * graph, List *nodes_list, List *edges_list, GraphKind k
     }
     delete_list_iterator(nodes_iterator);
 
-    unsigned short numEdges = 0;
+    unsigned int numEdges = 0;
     ListIterator *edges_iterator = create_list_iterator(edges_list);
     for (size_t i = 0; i < edges_list->size ; i++) {
         //add the source vertex to the data_structures
@@ -71,7 +71,7 @@ void create_graph(Graph * graph, List *nodes_list, List *edges_list, GraphKind k
 void create_euclidean_graph(Graph * graph, List *nodes) {
     List *edges_list = new_list();
 
-    unsigned short z = 0;
+    unsigned int z = 0;
     Edge edges [MAX_EDGES_NUM];
     ListIterator *i_nodes_iterator = create_list_iterator(nodes);
     for (size_t i = 0; i < nodes->size; i++) {
@@ -113,7 +113,7 @@ void print_graph(const Graph *G) {
     printf("\nCost: %lf\n", G->cost);
     printf("\nEdges: %i\n", G->num_edges);
 
-    for (unsigned short j = 0; j < G->num_edges; j++) {
+    for (unsigned int j = 0; j < G->num_edges; j++) {
         char edge_print [32] ;
         Edge curr = G->edges[j];
         snprintf(edge_print, sizeof(edge_print), "%i <--> %i", curr.src, curr.dest);
diff --git a/src/HybridSolver/main/data_structures/graph.h b/src/HybridSolver/main/data_structures/graph.h
index c80110c..64ebbd1 100644
--- a/src/HybridSolver/main/data_structures/graph.h
+++ b/src/HybridSolver/main/data_structures/graph.h
@@ -40,10 +40,10 @@ typedef struct Node {
 typedef struct Edge {
     unsigned short src; ///< ID of the source vertex.
     unsigned short dest; ///< ID of the destination vertex.
-    unsigned short symbol; ///< Symbol of the Edge, i.e. its unique ID.
+    unsigned int symbol; ///< Symbol of the Edge, i.e. its unique ID.
     double weight; ///< Weight of the Edge, 1 if the data_structures is not weighted.
     double prob; ///< Probability of the Edge to be in an optimal tour.
-    unsigned short positionInGraph; ///< Position of the Edge in the list of Edges of the Graph.
+    unsigned int positionInGraph; ///< Position of the Edge in the list of Edges of the Graph.
 }Edge;
 
 
@@ -52,7 +52,7 @@ typedef struct Graph {
     GraphKind kind; ///< Type of the Graph.
     double cost; ///< Sum of the weights of the Edges in the Graph.
     unsigned short num_nodes; ///< Number of Nodes in the Graph.
-    unsigned short num_edges; ///< Number of Edges in the Graph.
+    unsigned int num_edges; ///< Number of Edges in the Graph.
     bool orderedEdges; ///< True if the Edges are ordered by weight, false otherwise.
     Node nodes [MAX_VERTEX_NUM]; ///< Array of Nodes.
     Edge edges [MAX_EDGES_NUM]; ///< Array of Edges.
diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 60ba12e..b687638 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -99,7 +99,7 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
     graph->kind = WEIGHTED_GRAPH;
     graph->orderedEdges = false;
     unsigned short i = 0;
-    unsigned short z = 0;
+    unsigned int z = 0;
     char *line = NULL;
     size_t len = 0;
     bool first = true;
-- 
2.43.0


From b8ba06c23e0ab32f66dc702094968339394fba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:32 +0000
Subject: [PATCH 30/30] fix: read_tsp_csv_file refuses rows of another length
 than the first line, more rows than nodes and files without nodes

---
 src/HybridSolver/main/tsp_instance_reader.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index b687638..31a8cb7 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -22,6 +22,13 @@ static void too_many_nodes(const char *filename) {
 }
 
 
+static void wrong_matrix(const char *filename) {
+    fprintf(stderr, "The adjacency matrix does not fit the number of nodes.\n");
+    printf("\nFile: %s\n", filename);
+    exit(1);
+}
+
+
 void read_tsp_lib_file(Graph *graph, char *filename) {
     FILE *fp = fopen(filename, "r");
     if (fp == NULL) {
@@ -103,12 +110,12 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
     char *line = NULL;
     size_t len = 0;
     bool first = true;
+    unsigned short node_num = 0;
     while (getline(&line, &len, fp) != -1) {
         if (first) {
             first = false;
 
             char *token = strtok(line, ";");
-            unsigned short node_num = 0;
             while (token != NULL && strcmp(token, "\n") != 0) {
                 double x = 0, y = 0;
                 int result = sscanf(token, "(%lf, %lf)", &x, &y);
@@ -127,6 +134,7 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
                 node_num++;
                 token = strtok(NULL, ";");
             }
+            graph->num_nodes = node_num;
 
             continue;
         }
@@ -174,9 +182,14 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
             token = strtok(NULL, ";");
             j++;
         }
-        graph->num_nodes++;
+        if (j != node_num || i >= node_num) {
+            wrong_matrix(filename);
+        }
         i++;
     }
+    if (node_num == 0) {
+        wrong_matrix(filename);
+    }
     free(line);
     if (fclose(fp) == EOF) {
         perror("Error while closing the file.\n");
-- 
2.43.0

