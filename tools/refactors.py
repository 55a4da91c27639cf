#!/usr/bin/env python3
"""tools/refactors.py [SET ...] [-- CHECK ...]: edits of the sources that keep the behaviour (helpers extracted, loops rewritten, statements
reordered, names changed), in a copy of /repo; every check has to stay quiet.  Works in /tmp/ref."""
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
BB = 'algorithms/branch_and_bound.c'
SETS = {}


def function(text, name):
    """Span of a C function: from its result type to the closing brace."""
    m = re.search(r'^[A-Za-z][\w \*]*[ \*]%s\([^;{]*\)\s*\{' % name, text, re.M)
    i = text.index('{', m.start())
    d, k = 0, i
    while True:
        d += {'{': 1, '}': -1}.get(text[k], 0)
        k += 1
        if not d:
            return m.start(), k


def body(f, name, new):
    """Replaces a whole C function."""
    def go(t):
        a, b = function(t, name)
        return t[:a] + new.strip() + t[b:]
    return f, go


def sub(f, old, new, count=1):
    def go(t):
        assert t.count(old) >= 1, (f, old)
        return t.replace(old, new) if count == 0 else t.replace(old, new, count)
    return f, go


def rename(f, old, new):
    return f, lambda t: re.sub(r'\b%s\b' % old, new, t)


SETS['bb1'] = [
 body(BB, 'dfs', '''
static void collect_cycle(SubProblem *subProblem, const int *parent, unsigned short last) {
    unsigned short to = last;
    do {
        unsigned short from = (unsigned short) parent[to];
        const Edge *edge = &problem->graph.edges_matrix[from][to];
        ConstrainedEdge *slot = &subProblem->cycleEdges[subProblem->num_edges_in_cycle++];
        slot->src = edge->src;
        slot->dest = edge->dest;
        to = from;
    } while (to != last);
}


void dfs(SubProblem *subProblem) {
    const MST *tree = &subProblem->oneTree;
    const unsigned short n = tree->num_nodes;
    unsigned short root = problem->graph.nodes[problem->candidateNodeId].positionInGraph;
    unsigned short stack[2 * MAX_EDGES_NUM + 2];
    size_t top = 0;
    int parent[MAX_VERTEX_NUM];
    unsigned short depth[MAX_VERTEX_NUM];
    bool seen[MAX_VERTEX_NUM];

    for (unsigned short i = 0; i < n; ++i) {
        seen[i] = false;
        depth[i] = 0;
        parent[i] = -1;
    }

    for (stack[top++] = root; top != 0 && parent[root] == -1;) {
        unsigned short at = stack[--top];
        if (seen[at]) {
            continue;
        }
        seen[at] = true;
        unsigned short k = 0;
        while (k < tree->nodes[at].num_neighbours) {
            unsigned short next = tree->nodes[at].neighbours[k++];
            unsigned short path = depth[at] + 1;
            if (!seen[next]) {
                depth[next] = path;
                parent[next] = at;
                stack[top++] = next;
            } else if (parent[next] == -1 && path > 2) {
                parent[next] = at;
                depth[next] = path;
            }
        }
    }

    if (depth[root] > 2) {
        collect_cycle(subProblem, parent, root);
    }
}
'''),
 body(BB, 'mst_to_one_tree', '''
static int cheapest(const Graph *graph, unsigned short src, const unsigned short *others, unsigned short num, int but) {
    int found = -1;
    double weight = INFINITE;
    for (unsigned short j = 0; j < num; j++) {
        const Edge *edge = &graph->edges_matrix[src][others[j]];
        if (edge->weight < weight && edge->positionInGraph != but) {
            weight = edge->weight;
            found = edge->positionInGraph;
        }
    }
    return found;
}


BBNodeType mst_to_one_tree(SubProblem *currentSubproblem, Graph *graph) {
    const Node *candidate = &graph->nodes[problem->candidateNodeId];
    const unsigned short src = candidate->positionInGraph;
    const bool any_mandatory = currentSubproblem->num_mandatory_edges > 0;
    const bool none_forbidden = currentSubproblem->num_forbidden_edges == 0;
    unsigned short others[MAX_VERTEX_NUM];
    unsigned short num_others = 0, toAdd = 0;
    int chosen[2] = {-1, -1};

    for (unsigned short i = 0; i < candidate->num_neighbours; i++) {
        unsigned short dest = candidate->neighbours[i];
        if (any_mandatory && currentSubproblem->constraints[src][dest] == MANDATORY) {
            if (toAdd == 2) {
                return CLOSED_UNFEASIBLE;
            }
            chosen[toAdd++] = graph->edges_matrix[src][dest].positionInGraph;
        } else if (none_forbidden || currentSubproblem->constraints[src][dest] == NOTHING) {
            others[num_others++] = dest;
        }
    }
    if (toAdd + num_others < 2) {
        return CLOSED_UNFEASIBLE;
    }
    while (toAdd < 2) {
        chosen[toAdd] = cheapest(graph, src, others, num_others, toAdd ? chosen[0] : -1);
        toAdd++;
    }
    for (int k = 0; k < 2; k++) {
        add_edge(&currentSubproblem->oneTree, &graph->edges[chosen[k]]);
    }
    return OPEN;
}
'''),
 body(BB, 'initialize_matrix', '''
void initialize_matrix(SubProblem *subProblem) {
    for (short i = 0; i < MAX_VERTEX_NUM; i++) {
        for (short j = 0; j < MAX_VERTEX_NUM; j++) {
            subProblem->constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
        }
    }
    subProblem->num_forbidden_edges = subProblem->num_mandatory_edges = 0;
}
'''),
 body(BB, 'max_edge_path_1Tree', '''
double max_edge_path_1Tree(SubProblem *currentSubProb, double *replacement_costs,
                          unsigned short start_node, unsigned short end_node){
    const MST *tree = &currentSubProb->oneTree;
    int parentId[MAX_VERTEX_NUM];
    bool visited[MAX_VERTEX_NUM] = {false};
    unsigned short queue[2 * MAX_VERTEX_NUM + 2];
    unsigned short first = 0, last = 0;

    for (unsigned short i = 0; i < tree->num_nodes; i++) {
        parentId[i] = -1;
    }
    queue[last++] = start_node;
    while (first < last && parentId[end_node] == -1) {
        unsigned short at = queue[first++];
        if (visited[at]) continue;
        visited[at] = true;
        for (unsigned short i = 0; i < tree->nodes[at].num_neighbours; i++) {
            unsigned short dest = tree->nodes[at].neighbours[i];
            if (dest != problem->candidateNodeId && !visited[dest]) {
                parentId[dest] = at;
                queue[last++] = dest;
            }
        }
    }

    const double outside = problem->graph.edges_matrix[start_node][end_node].weight;
    double heaviest = -1;
    unsigned short to = end_node;
    do {
        unsigned short from = parentId[to];
        short position = tree->edges_matrix[from][to];
        if (position == -1) {
            printf("ERROR: Edge not found in 1-tree\\n");
            exit(1);
        }
        if (currentSubProb->constraints[from][to] == NOTHING) {
            double weight = problem->graph.edges_matrix[from][to].weight;
            heaviest = weight > heaviest ? weight : heaviest;
            if (outside < weight + replacement_costs[position]) {
                replacement_costs[position] = outside - weight;
            }
        }
        to = from;
    } while (to != start_node);

    return heaviest == -1 ? -INFINITE : heaviest;
}
'''),
 sub(BB, '''            if(!first_iter) {
                for (unsigned short j = 0; j < problem->graph.num_edges; j++) {
                    if ((pi[used_graph->edges[j].src] +
                         pi[used_graph->edges[j].dest]) != 0) {
                        used_graph->edges[j].weight += (pi[used_graph->edges[j].src] +
                                                        pi[used_graph->edges[j].dest]);
                        used_graph->edges_matrix[used_graph->edges[j].src][used_graph->edges[j].dest].weight = used_graph->edges[j].weight;
                        used_graph->edges_matrix[used_graph->edges[j].dest][used_graph->edges[j].src].weight = used_graph->edges[j].weight;
                        used_graph->orderedEdges = false;
                    }
                }
            }
''', '''            if(!first_iter) {
                apply_multipliers(used_graph, pi);
            }
'''),
 sub(BB, '''                    double t =
                            (((double) (iter - 1)) * (((double) (2 * max_iter) - 5) / (2 * (double) (max_iter - 1))) * t_0)
                            - (((double) iter - 2) * t_0) +
                            ((t_0 * ((double) iter - 1) * ((double) iter - 2)) /
                             (2 * ((double) max_iter - 1) * ((double) max_iter - 2)));
''', '''                    double t = step_size(t_0, iter, max_iter);
'''),
 sub(BB, '''void bound(SubProblem *currentSubProb) {
''', '''static void apply_multipliers(Graph *graph, const double *pi) {
    unsigned short j = 0;
    while (j < graph->num_edges) {
        Edge *edge = &graph->edges[j++];
        double shift = pi[edge->src] + pi[edge->dest];
        if (shift == 0) {
            continue;
        }
        edge->weight += shift;
        graph->edges_matrix[edge->dest][edge->src].weight = edge->weight;
        graph->edges_matrix[edge->src][edge->dest].weight = edge->weight;
        graph->orderedEdges = false;
    }
}


static double step_size(double t_0, int iter, int max_iter) {
    double m = max_iter, i = iter;
    double first = (i - 1) * ((2 * m - 5) / (2 * (m - 1))) * t_0;
    double second = (i - 2) * t_0;
    double third = (t_0 * (i - 1) * (i - 2)) / (2 * (m - 1) * (m - 2));
    return first - second + third;
}


void bound(SubProblem *currentSubProb) {
'''),
 sub(BB, '''    } else {
        currentSubProb->type = CLOSED_BOUND;
    }
}


bool time_limit_reached''', '''    }
}


bool time_limit_reached'''),
 sub(BB, '''    if ((problem->bestSolution.value - currentSubProb->value) > EPSILON || currentSubProb->treeLevel == 1) {
''', '''    if (!((problem->bestSolution.value - currentSubProb->value) > EPSILON || currentSubProb->treeLevel == 1)) {
        currentSubProb->type = CLOSED_BOUND;
        return;
    }
    {
'''),
 body(BB, 'time_limit_reached', '''
bool time_limit_reached(void) {
    clock_t elapsed = clock() - problem->start;
    return elapsed / CLOCKS_PER_SEC > TIME_LIMIT_SECONDS;
}
'''),
]

NN = '''
static double nn_tour(SubProblem *path, unsigned short start_node, bool by_prob) {
    const Graph *g = &problem->graph;
    bool seen[MAX_VERTEX_NUM] = {false};
    unsigned short at = start_node;
    path->num_forbidden_edges = path->num_mandatory_edges = path->num_edges_in_cycle = 0;
    path->edge_to_branch = -1;
    path->timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
    create_mst(&path->oneTree, g->nodes, g->num_nodes);
    path->oneTree.isValid = true;
    path->type = by_prob ? CLOSED_NN_HYBRID : CLOSED_NN;

    for (unsigned short left = g->num_nodes; left > 0; left--) {
        int next = -1;
        if (left == 1) {
            next = is_neighbour(&g->nodes[at], start_node) ? start_node : -1;
        } else {
            double best = by_prob ? -1 : INFINITE;
            for (unsigned short i = 0; i < g->nodes[at].num_neighbours; i++) {
                unsigned short other = g->nodes[at].neighbours[i];
                if (other == at || seen[other]) {
                    continue;
                }
                const Edge *edge = &g->edges_matrix[at][other];
                if (by_prob ? edge->prob > best : edge->weight < best) {
                    best = by_prob ? edge->prob : edge->weight;
                    next = other;
                }
            }
        }
        if (next == -1) {
            path->prob = path->oneTree.prob;
            return path->value = INFINITE;
        }
        add_edge(&path->oneTree, &g->edges_matrix[at][next]);
        path->cycleEdges[path->num_edges_in_cycle].src = at;
        path->cycleEdges[path->num_edges_in_cycle].dest = next;
        path->num_edges_in_cycle++;
        seen[at] = true;
        at = next;
    }
    path->prob = path->oneTree.prob;
    return path->value = path->oneTree.cost;
}


void nearest_prob_neighbour(unsigned short start_node) {
    SubProblem by_weight, by_prob;
    SubProblem *best = &by_weight;
    nn_tour(&by_weight, start_node, false);
    if (HYBRID && nn_tour(&by_prob, start_node, true) < by_weight.value) {
        best = &by_prob;
    }
    if (best->value < problem->bestValue) {
        problem->bestSolution = *best;
        problem->bestValue = best->value;
    }
}
'''

SETS['bb2'] = [
 body(BB, 'infer_constraints', '''
static short with_constraint(const SubProblem *subProblem, short node, ConstraintType type, short *nodes) {
    short num = 0;
    for (short j = 0; j < MAX_VERTEX_NUM; j++) {
        if (subProblem->constraints[node][j] == type) {
            if (nodes != NULL) nodes[num] = j;
            num++;
        }
    }
    return num;
}


bool infer_constraints(SubProblem * subProblem){
    short i = 0;
    while (i < MAX_VERTEX_NUM) {
        short free_nodes[MAX_VERTEX_NUM];
        const short num_free = with_constraint(subProblem, i, NOTHING, free_nodes);
        const short mandatory = with_constraint(subProblem, i, MANDATORY, NULL);

        if (mandatory > 2 || num_free + mandatory < 2) {
            return false;
        }
        if (mandatory == 2) {
            for (short j = num_free - 1; j >= 0; j--) {
                short other = free_nodes[j];
                subProblem->num_forbidden_edges++;
                problem->num_fixed_edges++;
                subProblem->constraints[other][i] = FORBIDDEN;
                subProblem->constraints[i][other] = FORBIDDEN;
            }
        } else if (num_free + mandatory == 2) {
            for (short j = 0; j < num_free; j++) {
                if (!add_mandatory_edge(subProblem, i, free_nodes[j])) {
                    return false;
                }
                problem->num_fixed_edges++;
            }
        }
        i++;
    }
    return true;
}
'''),
 rename(BB, 'add_mandatory_edge', 'require_edge'), rename(BB, 'forbid_edge', 'exclude_edge'),
 body(BB, 'copy_constraints', '''
void copy_constraints(SubProblem *subProblem, const SubProblem *otherSubProblem) {
    memcpy(subProblem->constraints, otherSubProblem->constraints, sizeof(subProblem->constraints));
    unsigned short mandatory = 0, forbidden = 0;
    for (short i = 0; i < MAX_VERTEX_NUM; i++) {
        for (short j = i; j < MAX_VERTEX_NUM; j++) {
            switch (subProblem->constraints[i][j]) {
                case MANDATORY:
                    subProblem->mandatoryEdges[mandatory].src = i;
                    subProblem->mandatoryEdges[mandatory].dest = j;
                    mandatory++;
                    break;
                case FORBIDDEN:
                    forbidden++;
                    break;
                default:
                    break;
            }
        }
    }
    subProblem->num_mandatory_edges = mandatory;
    subProblem->num_forbidden_edges = forbidden;
}
'''),
 sub(BB, '#include "branch_and_bound.h"\n', '#include "branch_and_bound.h"\n#include <string.h>\n'),
 body(BB, 'branch', '''
static size_t place_of(const SubProblemsList *open, const SubProblem *child) {
    size_t position = 0;
    for (SubProblemElem *e = open->head; e != NULL; e = e->next, position++) {
        if (compare_subproblems(child, &e->subProblem)) {
            break;
        }
    }
    return position;
}


void branch(SubProblemsList *openSubProblems, SubProblem *currentSubProblem){
    const Edge *edge = &problem->graph.edges[currentSubProblem->edge_to_branch];
    const bool mandatory_first = !HYBRID || edge->prob >= PROB_BRANCH;

    if (currentSubProblem->treeLevel + 1 > problem->totTreeLevels) {
        problem->totTreeLevels++;
    }

    for (int turn = 0; turn < 2; turn++) {
        SubProblem child;
        child.id = ++problem->generatedBBNodes;
        child.fatherId = currentSubProblem->id;
        child.treeLevel = currentSubProblem->treeLevel + 1;
        child.value = currentSubProblem->value;
        child.prob = currentSubProblem->prob;
        child.type = OPEN;
        child.edge_to_branch = -1;
        child.num_edges_in_cycle = 0;
        copy_constraints(&child, currentSubProblem);

        bool possible = true;
        if ((turn == 0) == mandatory_first) {
            possible = require_edge(&child, edge->src, edge->dest);
        } else {
            exclude_edge(&child, edge->src, edge->dest);
        }
        if (!possible || !infer_constraints(&child)) {
            continue;
        }
        add_elem_SubProblemList_index(openSubProblems, &child, place_of(openSubProblems, &child));
    }
}
'''),
 body(BB, 'variable_fixing', '''
static bool touches_candidate(const Edge *edge) {
    return edge->src == problem->candidateNodeId || edge->dest == problem->candidateNodeId;
}


int variable_fixing(SubProblem *currentSubProb){
    const double cost = currentSubProb->oneTree.cost;
    const Node *node = &currentSubProb->oneTree.nodes[problem->candidateNodeId];
    int num_fixed = 0;
    double replacement_costs [MAX_VERTEX_NUM]; // for all the edges in the 1-tree except the best replacement to maintain the 1-tree
    double best_candidate_replacement = INFINITE;
    double w0 = problem->graph.edges_matrix[problem->candidateNodeId][node->neighbours[0]].weight;
    double w1 = problem->graph.edges_matrix[problem->candidateNodeId][node->neighbours[1]].weight;

    for (int i = MAX_VERTEX_NUM - 1; i >= 0; i--){
        replacement_costs[i] = INFINITE;
    }

    for (unsigned int i = 0; i < problem->graph.num_edges; i++){
        const Edge *edge = &problem->graph.edges[i];
        if (currentSubProb->constraints[edge->src][edge->dest] != NOTHING) {
            continue;
        }
        if (currentSubProb->oneTree.edges_matrix[edge->src][edge->dest] != -1) {
            continue;
        }
        if (touches_candidate(edge) && edge->weight < best_candidate_replacement) {
            best_candidate_replacement = edge->weight;
        }
        double path = touches_candidate(edge) ? (w0 > w1 ? w0 : w1)
                : max_edge_path_1Tree(currentSubProb, replacement_costs, edge->src, edge->dest);
        if (cost + edge->weight - path >= problem->bestValue) {
            currentSubProb->constraints[edge->dest][edge->src] = FORBIDDEN;
            currentSubProb->constraints[edge->src][edge->dest] = FORBIDDEN;
            currentSubProb->num_forbidden_edges++;
            num_fixed++;
        }
    }

    for (int i = 0; i < currentSubProb->oneTree.num_edges; i++){
        const Edge *edge = &currentSubProb->oneTree.edges[i];
        if (currentSubProb->constraints[edge->src][edge->dest] != NOTHING) {
            continue;
        }
        double weight = problem->graph.edges_matrix[edge->src][edge->dest].weight;
        double change = touches_candidate(edge) ? best_candidate_replacement - weight : replacement_costs[i];
        if (cost + change >= problem->bestValue && require_edge(currentSubProb, edge->src, edge->dest)) {
            num_fixed++;
        }
    }
    return num_fixed;
}
'''),
 body(BB, 'nearest_prob_neighbour', NN),
 body(BB, 'compare_subproblems', '''
bool compare_subproblems(const SubProblem *a, const SubProblem *b) {
    const double gap = b->value - a->value;
    if (gap > EPSILON) {
        return true;
    }
    return HYBRID && b->value > a->value && (a->prob - b->prob) >= BETTER_PROB;
}
'''),
 body(BB, 'find_candidate_node', '''
unsigned short find_candidate_node(void) {
    SubProblem tree[2];
    int best = 0;
    unsigned short best_candidate = 0;
    tree[best].value = 0;
    tree[best].prob = 0;

    for (unsigned short i = 0; i < problem->graph.num_nodes; i++) {
        SubProblem *current = &tree[1 - best];
        problem->candidateNodeId = i;
        current->num_forbidden_edges = current->num_mandatory_edges = 0;
        nearest_prob_neighbour(i);
        (PRIM ? constrained_prim : constrained_kruskal)(&problem->graph, current, i);
        mst_to_one_tree(current, &problem->graph);
        current->value = current->oneTree.cost;
        current->prob = current->oneTree.prob;
        if (compare_candidate_node(current, &tree[best])) {
            best_candidate = i;
            best = 1 - best;
        }
    }
    return best_candidate;
}
'''),
 body(BB, 'check_feasibility', '''
bool check_feasibility(Graph *graph) {
    for (unsigned short i = 0; i < graph->num_nodes; i++) {
        const Node *node = graph->nodes + i;
        if (node->num_neighbours >= 2) {
            continue;
        }
        printf("\\nThe graph is not feasible for the BB algorithm. Node %i has less than 2 neighbors.", node->positionInGraph);
        return false;
    }
    return true;
}
'''),
 sub(BB, '''        while (subProblems.size != 0 && !time_limit_reached()) {
            SubProblem current_sub_problem = *get_SubProblemList_elem_index(&subProblems, 0);
            delete_SubProblemList_elem_index(&subProblems, 0);
            bound(&current_sub_problem);
            if (current_sub_problem.type == OPEN && current_sub_problem.edge_to_branch != -1) {
                problem->num_fixed_edges += variable_fixing(&current_sub_problem);
                branch(&subProblems, &current_sub_problem);
            }
        }

        if (time_limit_reached()) {
            problem->interrupted = true;
        }
''', '''        for (;;) {
            if (is_SubProblemList_empty(&subProblems)) {
                break;
            }
            if (time_limit_reached()) {
                break;
            }
            SubProblem *head = get_SubProblemList_elem_index(&subProblems, 0);
            SubProblem current_sub_problem = *head;
            delete_SubProblemList_elem_index(&subProblems, 0);
            bound(&current_sub_problem);
            if (current_sub_problem.type != OPEN || current_sub_problem.edge_to_branch == -1) {
                continue;
            }
            int fixed = variable_fixing(&current_sub_problem);
            problem->num_fixed_edges += fixed;
            branch(&subProblems, &current_sub_problem);
        }
        problem->interrupted = time_limit_reached();
'''),
 body(BB, 'print_subProblem', '''
static const char *type_name(BBNodeType type) {
    switch (type) {
        case OPEN: return "OPEN";
        case CLOSED_UNFEASIBLE: return "CLOSED_UNFEASIBLE";
        case CLOSED_BOUND: return "CLOSED_BOUND";
        case CLOSED_NN: return "CLOSED_NEAREST_NEIGHBOR";
        case CLOSED_NN_HYBRID: return "CLOSED_NEAREST_NEIGHBOR_HYBRID";
        case CLOSED_1TREE: return "CLOSED_1TREE";
        default: return "CLOSED_SUBGRADIENT";
    }
}


void print_subProblem(const SubProblem *subProblem) {
    const unsigned short num = subProblem->num_edges_in_cycle;
    printf("\\nSUBPROBLEM with cost = %lf, type = %s, level of the BB tree = %i, prob_tour = %lf, BBNode number = %u and time to obtain = %lfs, edge to branch = %i\\n",
           subProblem->value, type_name(subProblem->type), subProblem->treeLevel, subProblem->prob, subProblem->id,
           subProblem->timeToReach, subProblem->edge_to_branch);
    printf("\\nCycle with %i edges:", num);

    unsigned short at = 0;
    if (num > 0) {
        const ConstrainedEdge *e = &subProblem->cycleEdges[0], *l = &subProblem->cycleEdges[num - 1];
        at = e->src == l->src || e->src == l->dest ? e->src : e->dest;
    }
    for (unsigned short i = 0; i < num; i++) {
        const ConstrainedEdge *e = &subProblem->cycleEdges[i];
        unsigned short to = e->src == at ? e->dest : e->src;
        printf("%s%i <-> %i%s", i == 0 ? " " : "  ", at, to, i == 0 || i != num - 1 ? "," : "");
        at = to;
    }
    printf("\\n%i Mandatory edges:\\n%i Forbidden edges:\\n", subProblem->num_mandatory_edges, subProblem->num_forbidden_edges);
}
'''),
]

KR, PR, FH, GR, MF, MS, DL, LF, RD = ('algorithms/kruskal.c', 'algorithms/prim.c', 'data_structures/fibonacci_heap.c', 'data_structures/graph.c', 'data_structures/mfset.c', 'data_structures/mst.c',
                                  'data_structures/b_and_b_data.c', 'data_structures/doubly_linked_list/list_functions.c', 'tsp_instance_reader.c')
SETS['lib'] = [
 body(KR, 'quick_sort', '''
static bool goes_before(const Edge *a, const Edge *b) {
    if (a->weight != b->weight) {
        return a->weight < b->weight;
    }
    return HYBRID && a->prob > b->prob;
}


static void quick_sort(Graph * graph, unsigned short first, unsigned short last) {
    for (int i = first + 1; i <= last; i++) {
        for (int j = i; j > first && goes_before(&graph->edges[j], &graph->edges[j - 1]); j--) {
            swap(graph, j, j - 1);
        }
    }
}
'''),
 body(KR, 'wrap_quick_sort', '''
void wrap_quick_sort(Graph * graph) {
    if (graph->orderedEdges) {
        return;
    }
    if (graph->num_edges > 1) {
        quick_sort(graph, 0, graph->num_edges - 1);
    }
    graph->orderedEdges = true;
}
'''),
 body(KR, 'kruskal', '''
void kruskal(Graph * graph, MST * mst) {
    Forest forest;
    create_forest(&forest, graph->nodes, graph->num_nodes);
    create_mst(mst, graph->nodes, graph->num_nodes);
    wrap_quick_sort(graph);
    int missing = graph->num_nodes - 1;

    for (unsigned short k = 0; k < graph->num_edges && missing > 0; k++) {
        const Edge *edge = &graph->edges[k];
        Set *a = find(&forest.sets[edge->src]), *b = find(&forest.sets[edge->dest]);
        if (a == b) {
            continue;
        }
        merge(a, b);
        add_edge(mst, edge);
        missing--;
    }
    mst->isValid = missing == 0;
}
'''),
 body(PR, 'prim', '''
void prim(const Graph * graph, MST * mst){
    const unsigned short n = graph->num_nodes;
    double best[MAX_VERTEX_NUM];
    int father[MAX_VERTEX_NUM];
    bool done[MAX_VERTEX_NUM];
    create_mst(mst, graph->nodes, n);
    for (unsigned short i = 0; i < n; i++) {
        best[i] = i ? DBL_MAX : 0;
        father[i] = -1;
        done[i] = false;
    }
    for (unsigned short step = 0; step < n; step++) {
        int at = -1;
        for (unsigned short i = 0; i < n; i++) {
            if (!done[i] && (at == -1 || best[i] < best[at])) at = i;
        }
        done[at] = true;
        for (unsigned short k = 0; k < graph->nodes[at].num_neighbours; k++) {
            unsigned short next = graph->nodes[at].neighbours[k];
            double weight = graph->edges_matrix[at][next].weight;
            if (!done[next] && weight < best[next]) {
                best[next] = weight;
                father[next] = at;
            }
        }
    }
    for (unsigned short i = 0; i < n; i++) {
        if (father[i] != -1) add_edge(mst, &graph->edges_matrix[i][father[i]]);
    }
    mst->isValid = mst->num_edges == n - 1;
}
'''),
 body(MF, 'find', '''
Set *find(Set *set) {
    Set *root = set;
    while (root->parentSet != NULL) {
        root = root->parentSet;
    }
    while (set != root) {
        Set *next = set->parentSet;
        set->parentSet = root;
        set = next;
    }
    return root;
}
'''),
 body(MF, 'merge', '''
void merge(Set *set1, Set *set2) {
    Set *high = find(set1), *low = find(set2);
    if (high == low) {
        return;
    }
    if (high->rango < low->rango) {
        Set *t = high;
        high = low;
        low = t;
    }
    if (high->rango == low->rango) {
        high->rango++;
    }
    low->parentSet = high;
}
'''),
 body(MS, 'add_edge', '''
static void join(MST * tree, unsigned short a, unsigned short b, unsigned short position) {
    Node *node = &tree->nodes[a];
    node->neighbours[node->num_neighbours++] = b;
    tree->edges_matrix[a][b] = (short) position;
}


void add_edge(MST * tree, const Edge * edge){
    const unsigned short position = tree->num_edges++;
    tree->edges[position] = *edge;
    tree->edges[position].positionInGraph = position;
    join(tree, edge->src, edge->dest, position);
    join(tree, edge->dest, edge->src, position);
    tree->cost += edge->weight;
    if (HYBRID) {
        tree->prob = position == 0 ? edge->prob : ((tree->prob * ((float) position)) + edge->prob) / ((float) tree->num_edges);
    }
}
'''),
 body(FH, 'link_trees', '''
static void append_child(OrdTreeNode * father, OrdTreeNode * child){
    if(father->num_children++ == 0){
        father->head_child_list = father->tail_child_list = child;
        child->left_sibling = child->right_sibling = child;
        return;
    }
    child->left_sibling = father->tail_child_list;
    child->right_sibling = father->head_child_list;
    father->tail_child_list->right_sibling = child;
    father->head_child_list->left_sibling = child;
    father->tail_child_list = child;
}


void link_trees(FibonacciHeap * heap, OrdTreeNode * child, OrdTreeNode * father){
    child->left_sibling->right_sibling = child->right_sibling;
    child->right_sibling->left_sibling = child->left_sibling;
    child->is_root = false;
    child->marked = false;
    child->parent = father;
    append_child(father, child);
    heap->num_trees--;
}
'''),
 body(FH, 'cascading_cut', '''
static void cascading_cut(FibonacciHeap * heap, OrdTreeNode * node){
    OrdTreeNode * parent;
    while ((parent = node->parent) != NULL) {
        if (!node->marked) {
            node->marked = true;
            return;
        }
        cut(heap, node, parent);
        node = parent;
    }
}
'''),
 body(FH, 'decrease_value', '''
void decrease_value(FibonacciHeap * heap, OrdTreeNode * node, double new_value){
    OrdTreeNode * parent = node->parent;
    if(new_value > node->value){
        fprintf(stderr, "Error: new value is greater than current value\\n");
        exit(EXIT_FAILURE);
    }
    node->value = new_value;
    if(parent != NULL && parent->value > new_value){
        cut(heap, node, parent);
        cascading_cut(heap, parent);
    }
    if(heap->min_root->value > new_value){
        heap->min_root = node;
    }
}
'''),
 body(GR, 'create_euclidean_graph', '''
void create_euclidean_graph(Graph * graph, List *nodes) {
    List *edges_list = new_list();
    Edge *edges = malloc(sizeof(Edge) * MAX_EDGES_NUM);
    unsigned short z = 0;
    for (DllElem *a = nodes->head; a != NULL; a = a->next) {
        const Node *p = a->value;
        for (DllElem *b = a->next; b != NULL; b = b->next) {
            const Node *q = b->value;
            double dx = fabs(p->x - q->x), dy = fabs(p->y - q->y);
            Edge *e = &edges[z++];
            e->src = p->positionInGraph;
            e->dest = q->positionInGraph;
            e->positionInGraph = z - 1;
            e->symbol = z;
            e->prob = 0;
            e->weight = (float) sqrt(pow(dx, 2) + pow(dy, 2));
            add_elem_list_bottom(edges_list, e);
        }
    }
    create_graph(graph, nodes, edges_list, WEIGHTED_GRAPH);
    free(edges);
}
'''),
 body(DL, 'add_elem_SubProblemList_index', '''
void add_elem_SubProblemList_index(SubProblemsList *list, SubProblem *element, size_t index){
    if (list == NULL || index > list->size) {
        return;
    }
    SubProblemElem *after = list->head;
    while (index-- > 0) {
        after = after->next;
    }
    SubProblemElem *before = after == NULL ? list->tail : after->prev;
    SubProblemElem *e = build_list_elem(element, after, before);
    *(before ? &before->next : &list->head) = e;
    *(after ? &after->prev : &list->tail) = e;
    list->size += 1;
}
'''),
 body(DL, 'delete_SubProblemList_elem_index', '''
void delete_SubProblemList_elem_index(SubProblemsList *list, size_t index){
    if (list == NULL || index >= list->size) {
        return;
    }
    SubProblemElem *e = list->head;
    while (index-- > 0) {
        e = e->next;
    }
    *(e->prev ? &e->prev->next : &list->head) = e->next;
    *(e->next ? &e->next->prev : &list->tail) = e->prev;
    list->size--;
    free(e);
}
'''),
 body(DL, 'delete_SubProblemList', '''
void delete_SubProblemList(SubProblemsList * list){
    if (list == NULL) {
        return;
    }
    while (list->head != NULL) {
        SubProblemElem *e = list->head;
        list->head = e->next;
        free(e);
    }
    list->tail = NULL;
    list->size = 0;
}
'''),
 sub(RD, '''                int result = sscanf(token, "(%lf, %lf)", &x, &y);
                if (result != 2) {
                    perror("Error while reading the file.\\n");
                    printf("\\nFile: %s\\n", filename);
                    exit(1);
                }
''', '''                read_pair(token, &x, &y, filename);
'''),
 sub(RD, '''                int result = sscanf(token, "(%lf, %lf)", &weight, &prob);
                if (result != 2) {
                    perror("Error while reading the file.\\n");
                    printf("\\nFile: %s\\n", filename);
                    exit(1);
                }
''', '''                read_pair(token, &weight, &prob, filename);
'''),
 sub(RD, '''                if (weight > 0) {
                    if (j > i) {
                        graph->nodes[i].neighbours[graph->nodes[i].num_neighbours] = j;
                        graph->nodes[i].num_neighbours++;
                        graph->num_edges++;
                        graph->edges[z].src = i;
                        graph->edges[z].dest = j;
                        graph->edges[z].prob = HYBRID ? prob : 0;
                        graph->edges[z].symbol = z + 1;
                        graph->edges[z].positionInGraph = z;
                        graph->edges[z].weight = weight;
                        graph->cost += graph->edges[z].weight;
                        graph->nodes[j].positionInGraph = j;
                        graph->edges_matrix[i][j] = graph->edges[z];
                        graph->edges_matrix[j][i] = graph->edges[z];
                        z++;
                    } else {
                        graph->nodes[i].neighbours[graph->nodes[i].num_neighbours] = j;
                        graph->nodes[i].num_neighbours++;
                    }
                }
''', '''                if (weight > 0) {
                    Node *node = &graph->nodes[i];
                    node->neighbours[node->num_neighbours++] = j;
                    if (j > i) {
                        Edge edge = {0};
                        edge.src = i;
                        edge.dest = j;
                        edge.weight = weight;
                        edge.prob = HYBRID ? prob : 0;
                        edge.positionInGraph = z;
                        edge.symbol = z + 1;
                        graph->edges[z++] = edge;
                        graph->edges_matrix[j][i] = graph->edges_matrix[i][j] = edge;
                        graph->nodes[j].positionInGraph = j;
                        graph->cost += weight;
                        graph->num_edges = z;
                    }
                }
'''),
 sub(RD, 'void read_tsp_lib_file(', '''static void read_pair(const char *token, double *a, double *b, const char *filename) {
    if (sscanf(token, "(%lf, %lf)", a, b) == 2) {
        return;
    }
    perror("Error while reading the file.\\n");
    printf("\\nFile: %s\\n", filename);
    exit(1);
}


void read_tsp_lib_file('''),
]

HS, MN, RE, BS, GL, GU, MU = ('HybridSolver.py', 'graph-convnet-tsp/main.py', 'graph-convnet-tsp/utils/google_tsp_reader.py', 'graph-convnet-tsp/utils/beamsearch.py',
                              'graph-convnet-tsp/models/gcn_layers.py', 'graph-convnet-tsp/utils/graph_utils.py', 'graph-convnet-tsp/utils/model_utils.py')
GM, AN, CV = 'graph-convnet-tsp/models/gcn_model.py', '../results/AdjacencyMatrix/analyzer.py', '../../CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py'


def pyfun(f, name, new):
    """Replaces a whole Python function or method (the text has the indentation of a top-level function)."""
    def go(t):
        L = t.split('\n')
        a = next(k for k, l in enumerate(L) if re.match(r'\s*def %s\(' % name, l))
        ind = len(L[a]) - len(L[a].lstrip())
        b = a + 1
        while b < len(L) and (not L[b].strip() or len(L[b]) - len(L[b].lstrip()) > ind):
            b += 1
        N = [(' ' * ind + l if l.strip() else '') for l in new.strip('\n').split('\n')]
        return '\n'.join(L[:a] + N + ['', ''] + L[b:])
    return f, go


SETS['py1'] = [
 pyfun(HS, 'adjacency_matrix', '''
def adjacency_matrix(orig_graph):
    points = np.array(orig_graph)
    size = len(points)
    distances = np.zeros((size, size))
    for row, point in enumerate(points):
        for column, other in enumerate(points):
            if column > row:
                distances[row, column] = distances[column, row] = np.linalg.norm(point - other)
    return distances
'''),
 pyfun(HS, 'create_temp_file', '''
def ensure_folder(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)


def temp_path(num_nodes):
    return os.path.join("graph-convnet-tsp", "data", "hyb_tsp", f"test_{num_nodes}_nodes_temp.txt")


def create_temp_file(num_nodes, str_grap):
    filepath = temp_path(num_nodes)
    ensure_folder(filepath)
    with open(filepath, "w") as out:
        out.write(str_grap)
        out.flush()
        os.fsync(out.fileno())
'''),
 pyfun(HS, 'get_nodes', '''
def get_nodes(graph):
    return "".join(f"\\t{i} : {x} {y}\\n" for i, (x, y) in enumerate(graph))
'''),
 pyfun(HS, 'get_instance', '''
def get_instance(instance, num_nodes):
    with open(f"graph-convnet-tsp/data/hyb_tsp/test_{num_nodes}_nodes.txt") as f:
        lines = list(f)
    if instance < 1 or instance > len(lines):
        raise Exception(f"The instance {instance} for the number of nodes {num_nodes} does not exist.")
    text = lines[instance - 1]
    values = [float(v) for v in text.partition(" output")[0].strip().split(" ")]
    return [list(pair) for pair in zip(values[::2], values[1::2])], text
'''),
 sub(HS, '''    if hyb_mode:
        if num_nodes <= 1:
            raise Exception("The number of nodes must be greater than 1.")
        elif num_nodes <= 20:
            model_size = 20
        elif num_nodes <= 50:
            model_size = 50
        else:
            model_size = 100
    else:
        model_size = num_nodes
''', '''    if hyb_mode and num_nodes <= 1:
        raise Exception("The number of nodes must be greater than 1.")
    model_size = next((m for m in (20, 50) if num_nodes <= m), 100) if hyb_mode else num_nodes
'''),
 sub(HS, '''        if not os.path.exists(os.path.dirname(absolute_input_path)):
            try:
                os.makedirs(os.path.dirname(absolute_input_path))
            except OSError as exc:  # Guard against race condition
                if exc.errno != errno.EEXIST:
                    raise

        result_mode''', '''        ensure_folder(absolute_input_path)
        result_mode'''),
 sub(HS, '''        if not os.path.exists(os.path.dirname(absolute_output_path)):
            try:
                os.makedirs(os.path.dirname(absolute_output_path))
            except OSError as exc:  # Guard against race condition
                if exc.errno != errno.EEXIST:
                    raise
''', '''        ensure_folder(absolute_output_path)
'''),
 sub(HS, '''                for k in range(len(adj_matrix)):
                    for j in range(len(adj_matrix[k])):
                        f.write(f"({adj_matrix[k][j]}, 0);")
                    f.write("\\n")
''', '''                for row in adj_matrix:
                    f.write("".join(f"({value}, 0);" for value in row) + "\\n")
'''),
 sub(HS, '''        subprocess.check_call(cmake_command)
        subprocess.check_call(make_command)
''', '''        for command in (cmake_command, make_command):
            subprocess.run(command, check=True)
'''),
 sub(HS, '''            result = subprocess.run(
                ['python3', absolute_python_path, absolute_input_path, str(num_nodes), str(model_size)],
                cwd="./graph-convnet-tsp", check=True)
            if result.returncode == 0:
                print('Neural Network completed successfully on instance ' + str(i) + ' / ' + str(end_instance))
            else:
                print('Neural Network failed on instance ' + str(i) + ' / ' + str(end_instance))
''', '''            subprocess.check_call(['python3', absolute_python_path, absolute_input_path, str(num_nodes), str(model_size)],
                                  cwd="./graph-convnet-tsp")
            print(f'Neural Network completed successfully on instance {i} / {end_instance}')
'''),
 sub(HS, '''            os.remove("graph-convnet-tsp/data/hyb_tsp/test_" + str(num_nodes) + "_nodes_temp.txt")
''', '''            os.unlink(temp_path(num_nodes))
'''),
 sub(MN, '''    if num_nodes < model_size:
        nodes_coord = nodes_coord[:num_nodes*2]
        final_arr = []
        for i in range(num_nodes):
            for j in range(num_nodes):
                final_arr.append(arr_combined[i * model_size + j])

            for j in range(num_nodes, model_size):
                # the city of which j is a copy, see add_dummy_cities
                city = (j - num_nodes) % num_nodes
                if i != city:
                    if float(arr_combined[i * model_size + j][1]) > float(final_arr[i * num_nodes + city][1]):
                        final_arr[i * num_nodes + city][1] = arr_combined[i * model_size + j][1]

        arr_combined = np.array(final_arr)
''', '''    if num_nodes < model_size:
        nodes_coord = nodes_coord[:2 * num_nodes]
        square = arr_combined.reshape(model_size, model_size, 2)
        final = square[:num_nodes, :num_nodes].copy()
        for i in range(num_nodes):
            for city in range(num_nodes):
                if city == i:
                    continue
                for copy in range(num_nodes + city, model_size, num_nodes):
                    if float(square[i, copy, 1]) > float(final[i, city, 1]):
                        final[i, city, 1] = square[i, copy, 1]
        arr_combined = final.reshape(num_nodes * num_nodes, 2)
'''),
 sub(MN, '''    with open(filepath, 'w') as f:
        f.write("%s\\n" % nodes_coord)
        edge = 0
        for item in arr_strings:
            if (edge + 1) % num_nodes == 0:
                f.write("%s\\n" % item)
            else:
                f.write("%s" % item)
            edge += 1
        f.flush()
''', '''    with open(filepath, 'w') as f:
        print(nodes_coord, file=f)
        for start in range(0, len(arr_strings), num_nodes):
            print("".join(arr_strings[start:start + num_nodes]), file=f)
        f.flush()
'''),
 sub(MN, '''    arr_strings = np.array(['({}, {});'.format(x[0], x[1]) for x in arr_combined])
''', '''    arr_strings = [f"({weight}, {prob});" for weight, prob in arr_combined]
'''),
 pyfun(MN, 'get_instance', '''
def get_instance(num_nodes):
    path = os.path.join("data", "hyb_tsp", f"test_{num_nodes}_nodes_temp.txt")
    with open(path) as f:
        text = f.readline()
    if not text:
        raise Exception(f"The current instance for the number of nodes {num_nodes} does not exist.")
    values = list(map(float, text.split(" output")[0].strip().split(" ")))
    return [values[k:k + 2] for k in range(0, len(values), 2)]
'''),
 sub(MN, '''    for i in range(num_dummy_cities):
        find = False
        x = None
        y = None
        while not find:
            values = np.random.randint(1, 9, 2)
            signs = np.random.choice([-1, 1], 2)
            x = graph[rr_index][0] + signs[0] * values[0] * 0.000000000000001
            y = graph[rr_index][1] + signs[1] * values[1] * 0.000000000000001
            if [x, y] not in graph:
                find = True

        graph.append([x, y])
        graph_str += " " + str(x) + " " + str(y)
        rr_index = (rr_index + 1) % num_nodes

    seq = np.linspace(1,model_size, model_size, dtype=int)
    seq_str = ""
    for s in seq:
        seq_str += str(s) + " "

    seq_str += "1"
    graph_str += " output " + seq_str
''', '''    taken = {tuple(city) for city in graph}
    for i in range(num_dummy_cities):
        base = graph[i % num_nodes]
        while True:
            shift = np.random.randint(1, 9, 2) * np.random.choice([-1, 1], 2) * 1e-15
            city = (float(base[0] + shift[0]), float(base[1] + shift[1]))
            if city not in taken:
                break
        taken.add(city)
        graph.append(list(city))
        graph_str += f" {city[0]} {city[1]}"

    graph_str += " output " + " ".join(map(str, range(1, model_size + 1))) + " 1"
'''),
 pyfun(MN, 'fix_instance_size', '''
def fix_instance_size(graph, num_nodes, model_size=100):
    print("Need to fix the instance size with clustering")
    cities, labels = cluster_nodes(graph, model_size)
    tour = [*range(1, model_size + 1), 1]
    create_temp_file(num_nodes, cities + " output " + " ".join(str(c) for c in tour))
    return labels
'''),
 sub(MN, '''        batch = next(dataset)

        while batch.nodes_coord.flatten().tolist() != instance:
            batch = next(dataset)
''', '''        for batch in dataset:
            if batch.nodes_coord.reshape(-1).tolist() == instance:
                break
'''),
 sub(MN, '''        y = F.softmax(y_preds, dim=3)
        # y_bins = y.argmax(dim=3)
        y_probs = y[:, :, :, 1]
''', '''        y_probs = torch.softmax(y_preds, dim=-1)[..., 1]
'''),
 sub(MN, '''        x_edges = Variable(torch.LongTensor(batch.edges).type(dtypeLong), requires_grad=False)
        x_edges_values = Variable(torch.FloatTensor(batch.edges_values).type(dtypeFloat), requires_grad=False)
''', '''        x_edges = torch.LongTensor(batch.edges).type(dtypeLong)
        x_edges_values = torch.FloatTensor(batch.edges_values).type(dtypeFloat)
'''),
]

SETS['py2'] = [
 pyfun(GU, 'tour_nodes_to_W', '''
def tour_nodes_to_W(nodes):
    order = np.array([int(node) for node in nodes])
    following = np.roll(order, -1)
    W = np.zeros((len(order), len(order)))
    W[order, following] = 1
    W[following, order] = 1
    return W
'''),
 pyfun(GU, 'tour_nodes_to_tour_len', '''
def tour_nodes_to_tour_len(nodes, W_values):
    return sum(W_values[a][b] for a, b in zip(nodes, list(nodes[1:]) + [nodes[0]]))
'''),
 pyfun(GU, 'W_to_tour_len', '''
def W_to_tour_len(W, W_values):
    return np.sum(np.where(W == 1, W_values, 0)) / 2
'''),
 pyfun(GU, 'is_valid_tour', '''
def is_valid_tour(nodes, num_nodes):
    return len(nodes) == num_nodes and set(nodes) == set(range(num_nodes))
'''),
 sub(GU, '''    tour_lens = (y.float() * x_edges_values.float()).sum(dim=1).sum(dim=1) / 2
    mean_tour_len = tour_lens.sum().to(dtype=torch.float).item() / tour_lens.numel()
''', '''    tour_lens = torch.sum(y.float() * x_edges_values.float(), dim=(1, 2)) / 2
    mean_tour_len = tour_lens.float().mean().item()
'''),
 sub(RE, '''            nodes_coord = []
            for idx in range(0, 2 * self.num_nodes, 2):
                nodes_coord.append([float(line[idx]), float(line[idx + 1])])
''', '''            flat = [float(word) for word in line[:2 * self.num_nodes]]
            nodes_coord = [flat[k:k + 2] for k in range(0, len(flat), 2)]
'''),
 sub(RE, '''            for idx in range(len(tour_nodes) - 1):
                i = tour_nodes[idx]
                j = tour_nodes[idx + 1]
                nodes_target[i] = idx  # node targets: ordering of nodes in tour
                edges_target[i][j] = 1
                edges_target[j][i] = 1
                tour_len += W_val[i][j]
            
            # Add final connection of tour in edge target
            nodes_target[j] = len(tour_nodes) - 1
            edges_target[j][tour_nodes[0]] = 1
            edges_target[tour_nodes[0]][j] = 1
            tour_len += W_val[j][tour_nodes[0]]
''', '''            for place, i in enumerate(tour_nodes):
                j = tour_nodes[(place + 1) % len(tour_nodes)]
                nodes_target[i] = place
                edges_target[i, j] = edges_target[j, i] = 1
                tour_len += W_val[i, j]
'''),
 sub(RE, '''        batch.edges = np.stack(batch_edges, axis=0)
        batch.edges_values = np.stack(batch_edges_values, axis=0)
''', '''        batch.edges, batch.edges_values = np.array(batch_edges), np.array(batch_edges_values)
'''),
 sub(RE, '''        self.filedata = shuffle(open(filepath, "r").readlines())  # Always shuffle upon reading data
''', '''        with open(filepath, "r") as data:
            self.filedata = shuffle(data.readlines())
'''),
 sub(RE, '''        for batch in range(self.max_iter):
            start_idx = batch * self.batch_size
            end_idx = (batch + 1) * self.batch_size
            yield self.process_batch(self.filedata[start_idx:end_idx])
''', '''        size = self.batch_size
        yield from (self.process_batch(self.filedata[k * size:(k + 1) * size]) for k in range(self.max_iter))
'''),
 sub(BS, '''        if random_start == True:
''', '''        if random_start:
'''),
 sub(BS, '''        if len(self.prev_Ks) > 0:
            if self.probs_type == 'raw':
                beam_lk = trans_probs * self.scores.unsqueeze(2).expand_as(trans_probs)
            elif self.probs_type == 'logits':
                beam_lk = trans_probs + self.scores.unsqueeze(2).expand_as(trans_probs)
''', '''        previous = self.scores.unsqueeze(2).expand_as(trans_probs)
        if self.prev_Ks:
            if self.probs_type == 'raw':
                beam_lk = previous * trans_probs
            elif self.probs_type == 'logits':
                beam_lk = previous + trans_probs
'''),
 sub(BS, '''                beam_lk[:, 1:] = -1e20 * torch.ones(beam_lk[:, 1:].size()).type(self.dtypeFloat)
''', '''                beam_lk[:, 1:] = -1e20
'''),
 sub(BS, '''                beam_lk[:, 1:] = torch.zeros(beam_lk[:, 1:].size()).type(self.dtypeFloat)
''', '''                beam_lk[:, 1:] = 0
'''),
 sub(GL, '''        gateVx = edge_gate * Vx  # B x V x V x H
        if self.aggregation=="mean":
            x_new = Ux + torch.sum(gateVx, dim=2) / (1e-20 + torch.sum(edge_gate, dim=2))  # B x V x H
        elif self.aggregation=="sum":
            x_new = Ux + torch.sum(gateVx, dim=2)  # B x V x H
        return x_new
''', '''        gathered = (Vx * edge_gate).sum(dim=2)
        if self.aggregation == "mean":
            gathered = gathered / (edge_gate.sum(dim=2) + 1e-20)
        return Ux + gathered
'''),
 sub(GL, '''        edge_gate = F.sigmoid(e_tmp)
''', '''        edge_gate = torch.sigmoid(e_tmp)
'''),
 sub(GL, '''        for U_i in self.U:
            Ux = U_i(Ux)  # B x H
            Ux = F.relu(Ux)  # B x H
''', '''        for U_i in self.U:
            Ux = torch.relu(U_i(Ux))
'''),
 sub(GL, '''        e_trans = e.transpose(1, 3).contiguous()  # Reshape input: (batch_size, num_nodes, num_nodes, hidden_dim)
        e_trans_bn = self.batch_norm(e_trans)
        e_bn = e_trans_bn.transpose(1, 3).contiguous()  # Reshape to original
        return e_bn
''', '''        return self.batch_norm(e.permute(0, 3, 1, 2)).permute(0, 2, 3, 1).contiguous()
'''),
 sub(GM, '''        for layer in range(self.num_layers):
            x, e = self.gcn_layers[layer](x, e)  # B x V x H, B x V x V x H
''', '''        for layer in self.gcn_layers:
            x, e = layer(x, e)
'''),
 sub(GM, '''        e = torch.cat((e_vals, e_tags), dim=3)
''', '''        e = torch.cat([e_vals, e_tags], dim=-1)
'''),
 sub(MU, '''    acc = (y == y_target).long()
    # Multipy by mask => set equality to 0 on disconnected edges
    acc = (acc * mask)
    #  Get accuracy of each y in the batch (sum of 1s in acc_edges divided by sum of 1s in edges mask)
    acc = acc.sum(dim=1).sum(dim=1).to(dtype=torch.float) / mask.sum(dim=1).sum(dim=1).to(dtype=torch.float)
    # Compute indices which are not perfect
    err_idx = (acc < 1.0)
    # Take mean over batch
    acc = acc.sum().to(dtype=torch.float).item() / acc.numel()
    # Compute error
    err = 1.0 - acc
    return err, err_idx
''', '''    right = torch.eq(y, y_target).long() * mask
    acc = right.sum(dim=(1, 2)).float() / mask.sum(dim=(1, 2)).float()
    return 1.0 - acc.mean().item(), acc < 1.0
'''),
 sub(AN, '''            for solution in hyb_solutions[key][1]:
                if solution[1] <= time:
                    best_value_one = solution[0]
                else:
                    break
            for solution in cla_solutions[key][1]:
                if solution[1] <= time:
                    best_value_two = solution[0]
                else:
                    break
''', '''            best_value_one = value_at(hyb_solutions[key][1], time)
            best_value_two = value_at(cla_solutions[key][1], time)
'''),
 sub(AN, '''def improvement_profile(''', '''def value_at(solutions, time):
    best = float('inf')
    for value, reached in solutions:
        if reached > time:
            break
        best = value
    return best


def improvement_profile('''),
 sub(AN, '''    data_frame = pd.DataFrame({'Time': times, 'Hybrid': points_one, 'Classic': points_two})
    data_frame.to_csv(profiles_path + '/cumulative_profile.csv', index=False)
''', '''    table = pd.DataFrame(list(zip(times, points_one, points_two)), columns=['Time', 'Hybrid', 'Classic'])
    table.to_csv(os.path.join(profiles_path, 'cumulative_profile.csv'), index=False)
'''),
 pyfun(AN, 'significance_test', '''
def significance_test(stats_hyb, stats_cla):
    same_ids = sorted(set(stats_hyb) & set(stats_cla))
    pairs = np.array([(stats_hyb[k], stats_cla[k]) for k in same_ids])
    values_hyb, values_cla = pairs[:, 0], pairs[:, 1]
    p_val = wilcoxon(values_hyb, values_cla)[1]
    result = {}
    for name, values in (("hyb", values_hyb), ("cla", values_cla)):
        result[name + "_mean"] = values.mean()
        result[name + "_conf_int"] = 1.96 * values.std() / np.sqrt(values.size)
    result["p_val"] = p_val
    return result
'''),
 sub(AN, '''    df.loc[len(df.index)] = [all_stats_hyb["resolved"], 0, all_stats_cla["resolved"], 0, "-"]
    df = df.rename(index={len(df.index) - 1: "Resolved Instances"})
    df.loc[len(df.index)] = [all_stats_hyb["num_closed_nn"], 0, all_stats_cla["num_closed_nn"], 0, "-"]
    df = df.rename(index={len(df.index) - 1: "Closed NN"})
''', '''    for key, name in (("resolved", "Resolved Instances"), ("num_closed_nn", "Closed NN")):
        df.loc[name] = [all_stats_hyb[key], 0, all_stats_cla[key], 0, "-"]
'''),
 sub(AN, '''    all_files = os.listdir(abs_dir)

    for file in all_files:
        if file.endswith('.txt') and not file.startswith('mean_results'):
''', '''    for file in sorted(os.listdir(abs_dir)):
        if file.endswith('.txt') and not file.startswith('mean_results'):
'''),
 sub(CV, '''            f.write('[')
            index = 0
            for element in line:
                index+=1
                if(index == len(distance_matrix)):
                    f.write(str(element))
                else:
                    f.write(str(element) + ', ')
                
            f.write(']\\n')
''', '''            f.write('[' + ', '.join(str(element) for element in line) + ']\\n')
'''),
 sub(CV, '''    for i in range(len(nodes_coord)):
        for j in range(len(nodes_coord)):
            distance_matrix[i][j] = np.sqrt((nodes_coord[i][0] - nodes_coord[j][0])**2 + (nodes_coord[i][1] - nodes_coord[j][1])**2)
''', '''    for i, (x, y) in enumerate(nodes_coord):
        for j, (u, v) in enumerate(nodes_coord):
            distance_matrix[i, j] = np.sqrt((x - u)**2 + (y - v)**2)
'''),
]

BH = 'algorithms/branch_and_bound.h'
SETS['iface'] = [       # what other files do not use becomes private, parameters become const, and a helper changes its name
 sub(BH, 'void dfs(SubProblem *subProblem);\n', ''), sub(BB, 'void dfs(', 'static void dfs('),
 sub(BH, 'bool infer_constraints(SubProblem * subProblem);\n', ''), sub(BB, 'bool infer_constraints(', 'static bool deduce_constraints('), rename(BB, 'infer_constraints', 'deduce_constraints'),
 sub(BH, 'bool check_feasibility(Graph * graph);', 'bool check_feasibility(const Graph * graph);'), sub(BB, 'bool check_feasibility(Graph *graph)', 'bool check_feasibility(const Graph *graph)'),
 sub(BB, 'double max_edge_path_1Tree(', 'static double heaviest_on_path('), rename(BB, 'max_edge_path_1Tree', 'heaviest_on_path'),
 sub(BB, 'bool compare_candidate_node(SubProblem * a, SubProblem * b)', 'static bool better_candidate(const SubProblem * a, const SubProblem * b)'), rename(BB, 'compare_candidate_node', 'better_candidate'),
 sub(BB, 'void initialize_matrix(', 'static void no_constraints('), rename(BB, 'initialize_matrix', 'no_constraints'),
 sub(BB, 'void constrained_prim(', 'static void constrained_prim('), sub(BB, 'void constrained_kruskal(', 'static void constrained_kruskal('),
 sub(BH, 'bool time_limit_reached(void);\n', ''), sub(BB, 'bool time_limit_reached(', 'static bool out_of_time('), rename(BB, 'time_limit_reached', 'out_of_time'),
 sub(FH, 'void consolidate(', 'static void consolidate('), sub(FH, 'void swap_roots(', 'static void swap_roots('), sub(FH, 'void link_trees(', 'static void link_trees('),
 sub('data_structures/b_and_b_data.h', 'bool is_SubProblemList_empty(SubProblemsList *list);', 'bool is_SubProblemList_empty(const SubProblemsList *list);'),
 sub(DL, 'bool is_SubProblemList_empty(SubProblemsList *list)', 'bool is_SubProblemList_empty(const SubProblemsList *list)'),
 sub('tsp_instance_reader.h', 'void read_tsp_csv_file(Graph * graph, char * filename);', 'void read_tsp_csv_file(Graph * graph, const char * filename);'),
 sub(RD, 'void read_tsp_csv_file(Graph *graph, char *filename)', 'void read_tsp_csv_file(Graph *graph, const char *filename)'),
]


def main():
    a = sys.argv[1:]
    checks = a[a.index('--') + 1:] if '--' in a else []
    sets = (a[:a.index('--')] if '--' in a else a) or list(SETS)
    if not checks:
        checks = sorted(set(re.findall(r"'(C\d\d)'", open(os.path.join(V, 'run.py')).read()) or ['C%02d' % k for k in range(1, 37)]))
    for s in sets:
        root = '/tmp/ref/' + s
        shutil.rmtree(root, True)
        subprocess.run(['git', 'clone', '-q', '/repo', root], check=True)
        for f, go in SETS[s]:
            p = os.path.join(root, 'src/HybridSolver/main', f)
            t = open(p).read()
            n = go(t)
            assert n != t, f
            open(p, 'w').write(n)
        print(s, subprocess.run(['git', '-C', root, 'diff', '--shortstat'], capture_output=True, text=True).stdout.strip())
        bad = 0
        for c in checks:
            t0 = time.time()
            r = subprocess.run(['python3', 'run.py', c], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=root, VERIF_SEED='1', VERIF_TIER='quick'))
            if r.returncode or 'VIOLATION' in r.stdout:
                bad += 1
                print('%s %s: exit %d, %.0f s: %s' % (s, c, r.returncode, time.time() - t0, (r.stdout + r.stderr).strip()[-700:]))
            else:
                note = [l for l in (r.stdout + r.stderr).splitlines() if 'note' in l.lower() or 'inconcl' in l.lower()]
                print('%s %s quiet, %.0f s %s' % (s, c, time.time() - t0, ' | '.join(note)[:300]))
            sys.stdout.flush()
        print(s, 'done,', bad, 'alarms')
        shutil.rmtree(root, True)


if __name__ == '__main__':
    main()
