// Sub-problems that the search itself may reach rarely: random constraint sets (around a tour, arbitrary, three mandatory edges
// at the candidate node, mandatory cycles), random incumbents and candidate nodes, given to the very functions the search
// calls.  The hooks of mon.c judge what they return; nothing is judged here.
void constrained_prim(Graph *, SubProblem *, unsigned short); void constrained_kruskal(Graph *, SubProblem *, unsigned short);
BBNodeType mst_to_one_tree(SubProblem *, Graph *); bool infer_constraints(SubProblem *); int variable_fixing(SubProblem *); void branch(SubProblemsList *, SubProblem *); void bound(SubProblem *);
static double rnd01(void) { return (rnd() & 0xffff) / 65536.0; }
static void pr_set(ConstraintType c[N][N], int a, int b, ConstraintType k) { if (a != b && c[a][b] == NOTHING && W[a][b] > 0) c[a][b] = c[b][a] = k; }
static void pr_constraints(ConstraintType c[N][N], int x) {
    unsigned char t[N]; int kind = rnd() % 10; bool have = false;
    double pm = (double[]) {0, 0.1, 0.25, 0.5, 0.8, 0.9}[rnd() % 6], pf = (double[]) {0, 0.05, 0.2, 0.5, 0.8, 0.95}[rnd() % 6];
    if (npool && rnd() % 3) { memcpy(t, pool[rnd() % npool].t, sizeof t); have = true; }
    for (int st = 0; st < 20 && !have; st++) { for (int i = 0; i < n; i++) t[i] = i; for (int i = n - 1; i > 0; i--) { int j = rnd() % (i + 1); unsigned char y = t[i]; t[i] = t[j]; t[j] = y; }
        have = tour_cost(t) < BIGW; }
    if (kind >= 8 || !have) { // anything
        pm *= 0.3; int room = n; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { double r = rnd01(); if (r < pm && room) { pr_set(c, i, j, MANDATORY); room--; } else if (r < pm + pf * 0.7) pr_set(c, i, j, FORBIDDEN); }
        return; }
    bool in[N][N]; memset(in, 0, sizeof in); for (int i = 0; i < n; i++) in[t[i]][t[(i+1)%n]] = in[t[(i+1)%n]][t[i]] = true;
    if (kind == 7) for (int k = 0, v = rnd() % n; k < 3; k++, v = (v + 1 + rnd() % (n - 1)) % n) pr_set(c, x, v, MANDATORY);
    if (kind == 6) { int a = rnd() % n, b = rnd() % n, d = rnd() % n; if (a != b && b != d && a != d) { pr_set(c, a, b, MANDATORY); pr_set(c, b, d, MANDATORY); if (rnd() & 1) pr_set(c, a, d, MANDATORY); } }
    int m = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m += c[i][j] == MANDATORY;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { if (in[i][j]) { if (rnd01() < pm && m < n - 1) { pr_set(c, i, j, MANDATORY); m++; } } else if (rnd01() < pf) pr_set(c, i, j, FORBIDDEN); }
    // as the search leaves them, in two cases of three: nothing free at a node with two mandatory edges
    if (rnd() % 3) for (int i = 0; i < n; i++) { int k = 0; for (int j = 0; j < n; j++) k += c[i][j] == MANDATORY; if (k == 2) for (int j = 0; j < n; j++) if (c[i][j] == NOTHING && j != i) c[i][j] = c[j][i] = FORBIDDEN; }
}
static void pr_lists(SubProblem *s) {
    s->num_mandatory_edges = s->num_forbidden_edges = 0;
    for (int i = 0; i < N; i++) for (int j = i; j < N; j++) if (s->constraints[i][j] == MANDATORY) { bool o = rnd() % 4 == 0; s->mandatoryEdges[s->num_mandatory_edges].src = o ? j : i; s->mandatoryEdges[s->num_mandatory_edges++].dest = o ? i : j; }
        else if (s->constraints[i][j] == FORBIDDEN) s->num_forbidden_edges++;
}
static SubProblem *pr_node(int x) {
    SubProblem *s = malloc(sizeof *s); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) s->constraints[i][j] = i == j ? FORBIDDEN : NOTHING; pr_constraints(s->constraints, x); pr_lists(s);
    s->num_edges_in_cycle = 0; s->type = OPEN; s->prob = HYBRID ? (rnd() % 9) / 20.0 : 0; s->id = 2 + rnd() % 100000; s->fatherId = 1; s->value = 0; s->treeLevel = 2 + rnd() % 8; s->edge_to_branch = -1;
    return s;
}
static double pr_incumbent(double opt) {
    switch (rnd() % 6) { case 0: return INFINITE; case 1: return opt < HUGE_VAL ? opt : INFINITE; case 2: return npool ? pool[rnd() % npool].c : INFINITE;
        case 3: return opt < HUGE_VAL ? opt + eps() * (rnd() % 8) / 2 : INFINITE; case 4: return opt < HUGE_VAL ? opt * (1 + rnd01() * 0.1) : INFINITE; default: return opt < HUGE_VAL ? opt * (1 + rnd01()) : INFINITE; }
}
static void pr_ready(double inc, int x) { P.bestValue = P.bestSolution.value = inc; P.candidateNodeId = x; P.num_fixed_edges = 0; P.exploredBBNodes = P.generatedBBNodes = 200000; P.totTreeLevels = 20; openlist = NULL; have_next = false; bounds_inst = 0; }
static void probes(int count) {
    Graph *g0 = malloc(sizeof *g0), *g1 = malloc(sizeof *g1); *g0 = P.graph;
    rs = 99; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { unsigned long long b; memcpy(&b, &W[i][j], 8); rs = rs * 31 + (unsigned) (b ^ b >> 32); }
    unsigned keep = rs; build_pool(); rs = keep; 
    for (int k = 0; k < count; k++) {
        // 1. one sub-problem through inference, bounding, fixing and branching
        int x = rnd() % n; P.graph = *g0; P.reformulationGraph = *g0; SubProblem *s = pr_node(x); C.probes++;
        double cheapest = some_tour(s->constraints); if (rnd() % 5 == 0 && cheapest < HUGE_VAL) s->value = cheapest * (0.5 + rnd01() * 0.5);
        pr_ready(pr_incumbent(cheapest), x);
        if (rnd() & 1) { SubProblem *c = malloc(sizeof *c); *c = *s; if (infer_constraints(c)) { C.probe_inferred++; if (rnd() & 1) *s = *c; } free(c); pr_ready(P.bestValue, x); }
        double inc = P.bestValue;
        bound(s);
        bool open = s->type == OPEN && s->edge_to_branch != -1;
        if (open) { C.probe_open++; variable_fixing(s); }
        SubProblemsList L; new_SubProblemList(&L);
        int others = rnd() % 7; double base = open ? s->value : (inc < INFINITE ? inc : SUMW); SubProblem *q[8];
        for (int o = 0; o < others; o++) { q[o] = pr_node(x); q[o]->value = base + (rnd() % 3 ? (int)(rnd() % 9 - 4) * eps() * 0.7 : (rnd01() - 0.5) * 0.2 * base); if (HYBRID) q[o]->prob = (open ? s->prob : 0.5) + (int)(rnd() % 9 - 4) * 0.03; 
            long pos = 0; bool put = false; for (SubProblemElem *e = L.head; e; e = e->next, pos++) if (better(q[o], &e->subProblem) != 0) { put = true; break; }
            if (put) add_elem_SubProblemList_index(&L, q[o], pos); else add_elem_SubProblemList_bottom(&L, q[o]); free(q[o]); }
        if (open) branch(&L, s);
        delete_SubProblemList(&L); free(s); openlist = NULL; have_next = false;
        // 2. a 1-tree on shifted weights
        x = rnd() % n; s = pr_node(x); pr_ready(INFINITE, x); *g1 = *g0; double mx = 0; for (int e = 0; e < g1->num_edges; e++) if (g1->edges[e].weight > mx) mx = g1->edges[e].weight;
        double pi[N], scale = mx * (double[]) {0, 0.01, 0.3, 3}[rnd() % 4]; for (int i = 0; i < n; i++) pi[i] = (rnd01() - 0.5) * scale;
        for (int e = 0; e < g1->num_edges; e++) { Edge *d = &g1->edges[e]; d->weight += pi[d->src] + pi[d->dest]; g1->edges_matrix[d->src][d->dest].weight = g1->edges_matrix[d->dest][d->src].weight = d->weight; }
        g1->orderedEdges = false; C.probe_trees++;
        if (rnd() & 1) constrained_prim(g1, s, x); else constrained_kruskal(g1, s, x);
        if (s->oneTree.isValid) mst_to_one_tree(s, g1);
        free(s);
    }
    P.graph = *g0; free(g0); free(g1);
}
