// Online monitor of the branch-and-bound, by symbol interposition: the solver is a shared library built from /repo with
// semantic interposition, this program defines the functions to observe, checks what goes in and comes out, and calls
// the real ones through dlsym(RTLD_NEXT).  Nothing in /repo is changed.
// usage: mon CAP TAGS < list-of-csv      events and verdicts on fd 3; TAGS: the verdicts wanted, comma separated ("" = all)
// Every check is one-sided: it exhibits a tour (from an exact constrained Held-Karp for n<=DPMAX, from a pool of 2-opt
// tours above) that the step under observation lost, so a violation reported is a concrete tour.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/time.h>
#include "algorithms/branch_and_bound.h"
#include "tsp_instance_reader.h"
#ifndef DPMAX
#define DPMAX 12
#endif
#define N MAX_VERTEX_NUM
#define POOL 96
static FILE *ev; static const char *cur = "?"; static Problem P; static int n; static long cap = 400;
static double W[N][N], Q[N][N], SUMW, TOL; static int incident;
static double best_known_pair[N][N];
typedef struct { unsigned char t[N]; double c; } Tour;
static Tour pool[POOL]; static int npool;
// what was observed
static struct { long inst, bounds, explored, dp, closed_bound, closed_inf, closed_sol, open, branches, children, pruned_inf, fixed, fixed_checked,
  inferred, incumbents, prim, prim_infeasible, one_tree, one_tree_inf, nn, cand, lb_checked, surv_checked, interrupted, pool_checks, leafs, hybrid_first_f, order_checked, jumps, fixing_calls, infer_calls, probes, probe_open, probe_inferred, probe_trees, announced, hist_improved, hist_quiet, hist_initial, reports, numbered, dual_bounds, dual_trees, dual_pruned, dual_ended, dual_complete, dual_edges, deduce_calls, deduce_out, deduce_in, deduce_free, deduce_doomed, deduce_degree; } C;
static long seen_prim_in_bound, bounds_inst, branches_inst, explored_inst, fixed_inst; static int maxlevel_inst;

static const char *tags = "";
static void bad(const char *prop, const char *fmt, ...) {
    if (*tags && !strstr(tags, prop)) return;
    if (incident++ > 3) return;
    va_list a; va_start(a, fmt); fprintf(ev, "BAD %s %s ", prop, cur); vfprintf(ev, fmt, a); fprintf(ev, "\n"); va_end(a); fflush(ev);
}
// the documented tolerance, written out here so that a change of the constants in the code does not change the verdict
static double eps(void) { return sqrt((double) N) * 1.27 / 1000 * (1 + 1e-6); }
#define LIKELY 0.5
#define PROB_GAP 0.05

// ---- virtual clock ------------------------------------------------------------------------------------------------
static clock_t vnow = 1000;
static long clk_calls;
static clock_t vbase; static bool jumped; static long tl_k; static double tl_T, nn_value;    // time limit runs: the clock jumps to tl_T seconds when the tl_k-th sub-problem is explored (-1: once the candidate node is chosen)
clock_t clock(void) { if (++clk_calls == 10 * cap) vnow += (clock_t) CLOCKS_PER_SEC * 100000; return vnow; }
int clock_gettime(clockid_t id, struct timespec *t) { (void) id; t->tv_sec = vnow / CLOCKS_PER_SEC; t->tv_nsec = (vnow % CLOCKS_PER_SEC) * 1000; return 0; }
time_t time(time_t *t) { time_t s = vnow / CLOCKS_PER_SEC; if (t) *t = s; return s; }
int gettimeofday(struct timeval *t, void *z) { (void) z; t->tv_sec = vnow / CLOCKS_PER_SEC; t->tv_usec = vnow % CLOCKS_PER_SEC; return 0; }

// HIST: the announcements on the standard output, read back, under a clock that moves between the sub-problems only
static int out_fd = -1; static double hist_now(void) { return (double) (vnow - vbase) / CLOCKS_PER_SEC; }
static struct { double value, time0, time1; int id, level; bool any, known; } H; static long hist_said;
#define IDS 4000
static int level_of[IDS], kids_of[IDS];
static bool near_time(double t, double a, double b) { double e = 2e-6 + 1e-6 * b; return t >= a - e && t <= b + e; }
static char *new_text(void) { static char buf[1 << 20]; fflush(stdout); off_t z = lseek(out_fd, 0, SEEK_END); if (z >= (off_t) sizeof buf) z = sizeof buf - 1; ssize_t r = z > 0 ? pread(out_fd, buf, z, 0) : 0; if (r < 0) r = 0; buf[r] = 0; if (ftruncate(out_fd, 0) == 0) lseek(out_fd, 0, SEEK_SET); return buf; }

// ---- oracle --------------------------------------------------------------------------------------------------------
static double *dpt; // [1<<(n-1)][n-1]
// cheapest tour with the constraints c (ConstraintType matrix); HUGE_VAL when there is none.
static double dp_min(ConstraintType c[N][N]) {
    int m = n - 1, mand = 0; double w[N][N]; C.dp++;
    double BIG = 4 * SUMW + 1;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        w[i][j] = (i == j || W[i][j] <= 0 || (c && c[i][j] == FORBIDDEN)) ? HUGE_VAL : W[i][j];
        if (c && i != j && c[i][j] == MANDATORY) { if (W[i][j] <= 0) return HUGE_VAL; w[i][j] = W[i][j] - BIG; if (i < j) mand++; }
    }
    if (mand > n) return HUGE_VAL;
    size_t S = (size_t)1 << m;
    for (size_t k = 0; k < S * m; k++) dpt[k] = HUGE_VAL;
    for (int i = 0; i < m; i++) dpt[((size_t)1 << i) * m + i] = w[m][i];
    for (size_t s = 1; s < S; s++) for (int i = 0; i < m; i++) {
        if (!(s >> i & 1)) continue;
        double d = dpt[s * m + i]; if (d == HUGE_VAL) continue;
        for (int j = 0; j < m; j++) if (!(s >> j & 1)) { double x = d + w[i][j]; double *t = &dpt[(s | (size_t)1 << j) * m + j]; if (x < *t) *t = x; }
    }
    double b = HUGE_VAL;
    for (int i = 0; i < m; i++) { double x = dpt[(S - 1) * m + i] + w[i][m]; if (x < b) b = x; }
    if (b == HUGE_VAL) return b;
    b += mand * BIG;
    return b < BIG / 2 ? b : HUGE_VAL;
}
#define BIGW (4 * SUMW + 1)
static double tour_cost(const unsigned char *t) { double c = 0; for (int i = 0; i < n; i++) { double w = W[t[i]][t[(i+1)%n]]; c += w > 0 ? w : BIGW; } return c; }
static unsigned rs; static unsigned rnd(void) { rs = rs * 1664525u + 1013904223u; return rs >> 8; }
static void build_pool(void) {
    npool = 0;
    for (int st = 0; st < 400 && npool < POOL; st++) {
        unsigned char t[N]; for (int i = 0; i < n; i++) t[i] = i;
        for (int i = n - 1; i > 0; i--) { int j = rnd() % (i + 1); unsigned char x = t[i]; t[i] = t[j]; t[j] = x; }
        if (st < n) { char u[N] = {0}; t[0] = st; u[st] = 1; for (int k = 1; k < n; k++) { int b = -1; double bw = HUGE_VAL; for (int j = 0; j < n; j++) if (!u[j]) { double w = W[t[k-1]][j] > 0 ? W[t[k-1]][j] : BIGW; if (w < bw) { bw = w; b = j; } } t[k] = b; u[b] = 1; } }
        for (int imp = 1; imp;) { imp = 0;
            for (int i = 0; i < n - 1; i++) for (int j = i + 2; j < n; j++) { if (!i && j == n - 1) continue;
                #define WW(a,b) (W[a][b] > 0 ? W[a][b] : BIGW)
                double d = WW(t[i],t[j]) + WW(t[i+1],t[(j+1)%n]) - WW(t[i],t[i+1]) - WW(t[j],t[(j+1)%n]);
                if (d < -1e-9 * SUMW) { for (int a = i + 1, b = j; a < b; a++, b--) { unsigned char x = t[a]; t[a] = t[b]; t[b] = x; } imp = 1; } } }
        double c = tour_cost(t); if (c > BIGW) continue;
        int dup = 0; for (int k = 0; k < npool; k++) if (fabs(pool[k].c - c) < 1e-12 * SUMW) dup = 1;
        if (dup) continue;
        memcpy(pool[npool].t, t, sizeof t); pool[npool++].c = c;
    }
}
static bool tour_ok(const Tour *T, ConstraintType c[N][N]) {
    bool in[N][N]; memset(in, 0, sizeof in);
    for (int i = 0; i < n; i++) { int a = T->t[i], b = T->t[(i+1)%n]; if (c[a][b] == FORBIDDEN) return false; in[a][b] = in[b][a] = true; }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (c[i][j] == MANDATORY && !in[i][j]) return false;
    return true;
}
static bool tour_has(const Tour *T, int a, int b) { for (int i = 0; i < n; i++) { int x = T->t[i], y = T->t[(i+1)%n]; if ((x == a && y == b) || (x == b && y == a)) return true; } return false; }
// cost of some tour within the constraints (the cheapest one when n <= DPMAX)
static double some_tour(ConstraintType c[N][N]) {
    if (n <= DPMAX) return dp_min(c);
    double b = HUGE_VAL; C.pool_checks++;
    for (int k = 0; k < npool; k++) if (pool[k].c < b && tour_ok(&pool[k], c)) b = pool[k].c;
    return b;
}
static bool budget(void) { return bounds_inst <= cap; }

// validity of a claimed solution
static bool any_mandatory; // mandatory edges no tour contains (a sub-tour, say) need not be in a new incumbent
static void check_solution(const SubProblem *s, const char *prop, const char *where, ConstraintType c[N][N]) {
    int deg[N] = {0}; int nb[N][2]; double cost = 0, pr = 0;
    if (s->num_edges_in_cycle != n) { bad(prop, "%s: solution has %d edges for %d nodes", where, s->num_edges_in_cycle, n); return; }
    for (int i = 0; i < n; i++) {
        int a = s->cycleEdges[i].src, b = s->cycleEdges[i].dest;
        if (a >= n || b >= n || a == b || W[a][b] <= 0) { bad(prop, "%s: cycle edge %d-%d does not exist", where, a, b); return; }
        if (deg[a] >= 2 || deg[b] >= 2) { bad(prop, "%s: node visited twice (%d-%d)", where, a, b); return; }
        nb[a][deg[a]++] = b; nb[b][deg[b]++] = a; cost += W[a][b]; pr += Q[a][b];
        if (c && c[a][b] == FORBIDDEN) bad(prop, "%s: solution uses the forbidden edge %d-%d", where, a, b);
    }
    int v = 0, p = -1, k = 0; do { int w = nb[v][0] == p && nb[v][1] != p ? nb[v][1] : nb[v][0]; if (k && nb[v][0] == p) w = nb[v][1]; p = v; v = w; k++; } while (v != 0 && k <= n);
    if (k != n) { bad(prop, "%s: the edges are not one cycle (sub-tour of %d)", where, k); return; }
    if (c && !any_mandatory) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (c[i][j] == MANDATORY && nb[i][0] != j && nb[i][1] != j) bad(prop, "%s: solution misses the mandatory edge %d-%d", where, i, j);
    if (fabs(cost - s->value) > TOL) bad(prop, "%s: value %.12g but the tour costs %.12g", where, s->value, cost);
    if (HYBRID && fabs(pr / n - s->prob) > 1e-5) bad(prop, "%s: prob %.12g but the tour has mean probability %.12g", where, s->prob, pr / n);
    if (!HYBRID && s->prob != 0) bad(prop, "%s: prob %.12g in classic mode", where, s->prob);
}
static void copyc(ConstraintType d[N][N], ConstraintType s[N][N]) { memcpy(d, s, sizeof(ConstraintType) * N * N); }

// ---- hooks ---------------------------------------------------------------------------------------------------------
#define REAL(name) static __typeof__(&name) real_##name; if (!real_##name) { real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name); if (!real_##name) { fprintf(ev, "NOSYM %s\n", #name); _exit(3); } }

static double ratew(int i, int j) { return P.graph.edges_matrix[i][j].weight; }
static void weights_intact(const char *where) {
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && W[i][j] > 0 && ratew(i, j) != W[i][j]) { bad("BOUND", "%s: weight of %d-%d became %.12g (was %.12g)", where, i, j, ratew(i, j), W[i][j]); return; }
}

// forced Kruskal: cheapest spanning tree without node x containing the mandatory edges; NaN when they contain a cycle, HUGE_VAL when none
static double forced_mst(double w[N][N], ConstraintType c[N][N], int x, bool *disc) {
    int r[N]; for (int i = 0; i < n; i++) r[i] = i; double cost = 0; int k = 0; *disc = false;
    #define FIND(v) ({ int _v = (v); while (r[_v] != _v) _v = r[_v] = r[r[_v]]; _v; })
    if (c) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i != x && j != x && c[i][j] == MANDATORY) {
        int a = FIND(i), b = FIND(j); if (a == b) return NAN; if (W[i][j] <= 0) return NAN; r[a] = b; cost += w[i][j]; k++; }
    while (k < n - 2) { double b = HUGE_VAL; int bi = -1, bj = -1;
        for (int i = 0; i < n; i++) if (i != x) for (int j = i + 1; j < n; j++) if (j != x && W[i][j] > 0 && !(c && c[i][j] == FORBIDDEN) && w[i][j] < b && FIND(i) != FIND(j)) { b = w[i][j]; bi = i; bj = j; }
        if (bi < 0) { *disc = true; return HUGE_VAL; }
        r[FIND(bi)] = FIND(bj); cost += b; k++; }
    return cost;
}
static void check_tree(const char *alg, Graph *g, SubProblem *s, int x) {
    static double w[N][N]; double big = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { w[i][j] = g->edges_matrix[i][j].weight; if (W[i][j] > 0 && fabs(w[i][j]) > big) big = fabs(w[i][j]); }
    double tol = 1e-9 * (1 + big) * n; bool disc; bool con = s->num_mandatory_edges || s->num_forbidden_edges;
    double ref = forced_mst(w, con ? s->constraints : NULL, x, &disc);
    C.prim++;
    if (isnan(ref)) { // mandatory edges with a sub-tour: nothing to build
        return; }
    if (disc) { C.prim_infeasible++; if (s->oneTree.isValid) bad("TREE", "%s: valid tree reported, but the graph without node %d is not connected", alg, x); return; }
    if (!s->oneTree.isValid) { bad("TREE", "%s: no tree reported, but there is one of cost %.12g", alg, ref); return; }
    if (s->oneTree.num_edges != n - 2) { bad("TREE", "%s: %d edges for %d nodes", alg, s->oneTree.num_edges, n); return; }
    int r[N]; for (int i = 0; i < n; i++) r[i] = i; double cost = 0; bool in[N][N]; memset(in, 0, sizeof in);
    for (int e = 0; e < n - 2; e++) { int a = s->oneTree.edges[e].src, b = s->oneTree.edges[e].dest;
        if (a >= n || b >= n || a == b || W[a][b] <= 0 || a == x || b == x) { bad("TREE", "%s: edge %d-%d", alg, a, b); return; }
        if (con && s->constraints[a][b] == FORBIDDEN) bad("TREE", "%s: forbidden edge %d-%d in the tree", alg, a, b);
        if (FIND(a) == FIND(b)) { bad("TREE", "%s: cycle through %d-%d", alg, a, b); return; }
        r[FIND(a)] = FIND(b); cost += w[a][b]; in[a][b] = in[b][a] = true;
        if (s->oneTree.edges_matrix[a][b] != e || s->oneTree.edges_matrix[b][a] != e) bad("TREE", "%s: edges_matrix of %d-%d", alg, a, b); }
    if (con) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i != x && j != x && s->constraints[i][j] == MANDATORY && !in[i][j]) bad("TREE", "%s: mandatory edge %d-%d not in the tree", alg, i, j);
    if (cost > ref + tol) bad("TREE", "%s: tree of cost %.12g, the cheapest costs %.12g", alg, cost, ref);
    if (fabs(cost - s->oneTree.cost) > tol) bad("TREE", "%s: cost %.12g recorded for a tree of cost %.12g", alg, s->oneTree.cost, cost);
}

// ---- DUAL: the ascent of one bound, recomputed from the 1-trees it met ------------------------------------------------
#define ITERS 3000
static struct { double cost; bool tree; int m; unsigned char a[N + 2], b[N + 2]; } *dt; static int dn; static bool dual_on;
static double dw[N][N], dpi[N], dv_old[N], dlb, dt0; static int dmax; static bool dbad;
// the weights given to the k-th 1-tree: those of the instance plus the multipliers the rule gives
static void dual_given(Graph *g) {
    if (!dual_on || dbad) return;
    if (dn >= ITERS) { dbad = true; bad("DUAL", "more than %d 1-trees for one sub-problem", ITERS); return; }
    double big = 1e-300, worst = 0; int wi = 0, wj = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (W[i][j] > 0) { double e = W[i][j] + dpi[i] + dpi[j], d = fabs(g->edges_matrix[i][j].weight - e), m = fabs(e) + fabs(dpi[i]) + fabs(dpi[j]); if (m > big) big = m; if (!(d <= worst)) { worst = d; wi = i; wj = j; } }
    if (!(worst <= 1e-7 * big)) { dbad = true; bad("DUAL", "1-tree number %d is computed with the weight %.12g for %d-%d, the rule gives %.12g", dn + 1, g->edges_matrix[wi][wj].weight, wi, wj, W[wi][wj] + dpi[wi] + dpi[wj]); }
    dt[dn].tree = false; dn++; C.dual_trees++;
}
static void dual_tree(SubProblem *s) {
    if (!dual_on || dbad || !dn || s->oneTree.num_edges > N + 1) return;
    dt[dn - 1].tree = true; dt[dn - 1].cost = s->oneTree.cost; dt[dn - 1].m = s->oneTree.num_edges;
    int deg[N] = {0}; double sp = 0;
    for (int e = 0; e < s->oneTree.num_edges; e++) { int a = s->oneTree.edges[e].src, b = s->oneTree.edges[e].dest; dt[dn - 1].a[e] = a; dt[dn - 1].b[e] = b; deg[a]++; deg[b]++; }
    for (int i = 0; i < n; i++) sp += dpi[i];
    double lb = s->oneTree.cost - 2 * sp, M = dmax, k = dn;
    if (lb > dlb || dn == 1) { dlb = lb; dt0 = lb / (2 * MAX_VERTEX_NUM); }
    double t = (k - 1) * ((2 * M - 5) / (2 * (M - 1))) * dt0 - (k - 2) * dt0 + dt0 * (k - 1) * (k - 2) / (2 * (M - 1) * (M - 2));
    for (int i = 0; i < n; i++) { double v = deg[i] - 2; if (v != 0) dpi[i] += .6 * t * v + .4 * t * dv_old[i]; dv_old[i] = v; }
}
static void dual_step(SubProblem *s, void (*real)(SubProblem *)) {
    static ConstraintType pre[N][N]; copyc(pre, s->constraints);
    if (!dt) dt = malloc(sizeof *dt * ITERS);
    double E = sqrt((double) N) * 1.27f / 1000, best0 = P.bestValue, inherited = s->value, gap = P.bestSolution.value - inherited; int level = s->treeLevel;
    dn = 0; dbad = false; dlb = dt0 = 0; memset(dpi, 0, sizeof dpi); memset(dv_old, 0, sizeof dv_old); seen_prim_in_bound = 0;
    dmax = (level == 1 ? (int) ((float) N * N / 50 + .5f + N + 15) : (int) ((float) N / 4 + 5)) + 10;
    dual_on = true; real(s); dual_on = false;
    C.dual_bounds++;
    if (level > 1 && dn && gap < E * (1 - 1e-6)) bad("DUAL", "a 1-tree is computed for a sub-problem of value %.12g, the incumbent costs %.12g (EPSILON %.6g)", inherited, best0, E);
    if ((level == 1 || gap > E * (1 + 1e-6)) && !dn) bad("DUAL", "no 1-tree is computed for a sub-problem of value %.12g at level %d, the incumbent costs %.12g (EPSILON %.6g)", inherited, level, best0, E);
    if (!dn) { C.dual_pruned++; if (s->type == OPEN) bad("DUAL", "sub-problem left open without a 1-tree"); return; }
    if (dbad) return;
    double orig[ITERS]; for (int k = 0; k < dn; k++) { orig[k] = 0; if (dt[k].tree) for (int e = 0; e < dt[k].m; e++) orig[k] += W[dt[k].a[e]][dt[k].b[e]]; }
    double tol = TOL * 1e-2;
    bool found = P.bestValue < best0, missing = !dt[dn - 1].tree, first = dt[0].tree && best0 - orig[0] <= E * (1 + 1e-6), firstsure = dt[0].tree && best0 - orig[0] < E * (1 - 1e-6);
    for (int k = 0; k + 1 < dn; k++) if (!dt[k].tree) { bad("DUAL", "the ascent goes on after 1-tree number %d, which does not exist", k + 1); return; }
    if (missing && s->type != CLOSED_UNFEASIBLE) bad("DUAL", "there is no 1-tree number %d, but the sub-problem has type %d", dn, s->type);
    if (firstsure && (dn > 1 || s->type == OPEN)) bad("DUAL", "the first 1-tree costs %.12g, the incumbent %.12g: %d 1-trees computed, type %d", orig[0], best0, dn, s->type);
    if (found || missing) { C.dual_ended++; return; }
    if (dn != dmax && !(dn == 1 && first)) { bad("DUAL", "%d 1-trees computed at level %d, %d are due", dn, level, dmax); return; }
    if (dn == 1) { C.dual_ended++; return; }
    C.dual_complete++;
    // the value kept: the largest cost of a 1-tree met, not above the best Lagrangian bound
    int at[ITERS], m = 0; double most = orig[0]; double slack = 1e-9 * fabs(dlb) + tol;
    for (int k = 0; k < dn; k++) if (orig[k] <= dlb - slack && orig[k] > most) most = orig[k];
    for (int k = 0; k < dn; k++) if (fabs(orig[k] - s->value) <= slack && (k == 0 || orig[k] <= dlb + slack)) at[m++] = k;
    if (!m || s->value < most - slack) { bad("DUAL", "value %.12g kept; the best 1-tree met costs %.12g, the best Lagrangian bound is %.12g", s->value, most, dlb); return; }
    if (s->type == OPEN && best0 - s->value < E * (1 - 1e-6)) bad("DUAL", "sub-problem of value %.12g left open, the incumbent costs %.12g", s->value, best0);
    if (s->type != OPEN && best0 - s->value > E * (1 + 1e-6)) bad("DUAL", "sub-problem of value %.12g closed (type %d), the incumbent costs %.12g", s->value, s->type, best0);
    if (s->type != OPEN || s->edge_to_branch < 0 || s->edge_to_branch >= P.graph.num_edges) return;
    if (HYBRID) { double pr = 0; for (int e = 0; e < dt[0].m; e++) pr += Q[dt[0].a[e]][dt[0].b[e]]; pr /= dt[0].m; if (fabs(pr - s->prob) > 1e-5) bad("DUAL", "probability %.9g kept, the mean of the first 1-tree is %.9g", s->prob, pr); }
    // the edge: of such a 1-tree, free, and as near as any to being in half of the last ten 1-trees
    static unsigned char f[N][N]; memset(f, 0, sizeof f);
    for (int k = dn - 10; k < dn; k++) for (int e = 0; e < dt[k].m; e++) { int a = dt[k].a[e], b = dt[k].b[e]; f[a][b]++; f[b][a]++; }
    int ea = P.graph.edges[s->edge_to_branch].src, eb = P.graph.edges[s->edge_to_branch].dest, fe = abs(f[ea][eb] - 5); bool ok = false, in = false, near = false;
    for (int q = 0; q < m && !ok; q++) { int k = at[q]; bool has = false, nearer = false, likelier = false;
        for (int e = 0; e < dt[k].m; e++) { int a = dt[k].a[e], b = dt[k].b[e]; if (pre[a][b] != NOTHING) continue;
            if ((a == ea && b == eb) || (a == eb && b == ea)) has = true;
            if (abs(f[a][b] - 5) < fe) nearer = true;
            if (HYBRID && f[a][b] == f[ea][eb] && Q[a][b] > Q[ea][eb]) likelier = true; }
        in |= has; near |= has && !nearer; ok = has && !nearer && !likelier; }
    C.dual_edges++;
    if (!in) bad("DUAL", "the edge to branch %d-%d is not a free edge of the 1-tree kept", ea, eb);
    else if (!near) bad("DUAL", "the edge to branch %d-%d is in %d of the last ten 1-trees, another one is nearer to a half", ea, eb, f[ea][eb]);
    else if (!ok) bad("DUAL", "the edge to branch %d-%d has the probability %.6g, another one as near to a half has a higher one", ea, eb, Q[ea][eb]);
}
#ifdef HOOK_constrained_prim
void constrained_prim(Graph *graph, SubProblem *s, unsigned short x) { REAL(constrained_prim); seen_prim_in_bound++; dual_given(graph); real_constrained_prim(graph, s, x); if (budget()) check_tree("constrained_prim", graph, s, x); }
#endif
#ifdef HOOK_constrained_kruskal
void constrained_kruskal(Graph *graph, SubProblem *s, unsigned short x) { REAL(constrained_kruskal); seen_prim_in_bound++; dual_given(graph); real_constrained_kruskal(graph, s, x);

    if (budget()) check_tree("constrained_kruskal", graph, s, x); }
#endif
#ifdef HOOK_mst_to_one_tree
BBNodeType mst_to_one_tree(SubProblem *s, Graph *g) {
    REAL(mst_to_one_tree); int before = s->oneTree.num_edges; double cb = s->oneTree.cost;
    BBNodeType t = real_mst_to_one_tree(s, g);
    if (t == OPEN) dual_tree(s);
    if (!budget()) return t;
    int x = P.candidateNodeId, mand = 0, avail = 0; double best[2] = {HUGE_VAL, HUGE_VAL}; double ms = 0; C.one_tree++;
    bool con = s->num_mandatory_edges || s->num_forbidden_edges; double big = 0;
    for (int j = 0; j < n; j++) if (j != x && W[x][j] > 0) { ConstraintType k = con ? s->constraints[x][j] : NOTHING; double w = g->edges_matrix[x][j].weight; if (fabs(w) > big) big = fabs(w);
        if (k == MANDATORY) { mand++; ms += w; } else if (k == NOTHING) { avail++; if (w < best[0]) { best[1] = best[0]; best[0] = w; } else if (w < best[1]) best[1] = w; } }
    double tol = 1e-9 * (1 + big);
    if (mand > 2 || mand + avail < 2) { C.one_tree_inf++; if (t != CLOSED_UNFEASIBLE) bad("TREE", "mst_to_one_tree: node %d has %d mandatory and %d free edges but the 1-tree is not unfeasible", x, mand, avail); return t; }
    if (t != OPEN) { bad("TREE", "mst_to_one_tree: node %d has %d mandatory and %d free edges but the 1-tree is closed (%d)", x, mand, avail, t); return t; }
    if (s->oneTree.num_edges != before + 2) { bad("TREE", "mst_to_one_tree added %d edges", s->oneTree.num_edges - before); return t; }
    double ref = mand == 2 ? ms : mand == 1 ? ms + best[0] : best[0] + best[1], got = 0; int gm = 0, last = -1;
    for (int e = before; e < before + 2; e++) { int a = s->oneTree.edges[e].src, b = s->oneTree.edges[e].dest; if (a != x && b != x) { bad("TREE", "mst_to_one_tree: edge %d-%d does not touch node %d", a, b, x); return t; }
        int o = a == x ? b : a; if (o == last || o >= n || W[x][o] <= 0) { bad("TREE", "mst_to_one_tree: edge %d-%d", a, b); return t; } last = o;
        if (con && s->constraints[a][b] == FORBIDDEN) bad("TREE", "mst_to_one_tree: forbidden edge %d-%d", a, b);
        if (con && s->constraints[a][b] == MANDATORY) gm++; got += g->edges_matrix[a][b].weight; }
    if (gm != mand) bad("TREE", "mst_to_one_tree: %d of %d mandatory edges of node %d", gm, mand, x);
    if (got > ref + tol) bad("TREE", "mst_to_one_tree: edges of node %d cost %.12g, the cheapest choice %.12g", x, got, ref);
    if (fabs(s->oneTree.cost - cb - got) > tol + 1e-9 * fabs(cb)) bad("TREE", "mst_to_one_tree: cost %.12g after %.12g plus edges of %.12g", s->oneTree.cost, cb, got);
    return t;
}
#endif

// greedy tour from s; sets *tie when a choice is not unique
static double greedy(int s, bool byprob, bool *tie, double *pr) {
    char u[N] = {0}; int v = s; double c = 0; *pr = 0; u[s] = 1;
    for (int k = 1; k < n; k++) { int b = -1; 
        for (int j = 0; j < n; j++) if (!u[j] && W[v][j] > 0) { if (b < 0) b = j; else { double x = byprob ? -Q[v][j] : W[v][j], y = byprob ? -Q[v][b] : W[v][b]; if (x == y) *tie = true; else if (x < y) b = j; } }
        if (b < 0) return HUGE_VAL; c += W[v][b]; *pr += Q[v][b]; u[b] = 1; v = b; }
    if (W[v][s] <= 0) return HUGE_VAL;
    *pr += Q[v][s]; *pr /= n; return c + W[v][s];
}
static double nn_expect; static bool nn_tie; static double nn_prob; static int nn_kind;
#ifdef HOOK_find_candidate_node
unsigned short find_candidate_node(void) {
    REAL(find_candidate_node);
    if (out_fd >= 0) { vnow += 7100; H.time0 = hist_now(); unsigned short x = real_find_candidate_node(); H.time1 = hist_now(); H.known = true; return x; }
    unsigned short r = real_find_candidate_node(); C.cand++;
    if (tl_k < 0) { jumped = true; vnow = vbase + (clock_t)(tl_T * CLOCKS_PER_SEC); C.jumps++; }
    if (r >= n) { bad("CAND", "candidate node %d of %d", r, n); return r; }
    double lb[N], mx = -HUGE_VAL; bool skip = false; static double w[N][N]; memcpy(w, W, sizeof w);
    for (int i = 0; i < n; i++) { bool d; double c = forced_mst(w, NULL, i, &d); if (d) { skip = true; break; }
        double b0 = HUGE_VAL, b1 = HUGE_VAL; for (int j = 0; j < n; j++) if (W[i][j] > 0) { if (W[i][j] < b0) { b1 = b0; b0 = W[i][j]; } else if (W[i][j] < b1) b1 = W[i][j]; }
        lb[i] = c + b0 + b1; if (lb[i] > mx) mx = lb[i]; }
    nn_value = P.bestValue;
    if (!skip && lb[r] < mx - eps() - TOL) bad("CAND", "candidate node %d has a 1-tree of %.12g, the best is %.12g", r, lb[r], mx);
    // the initial incumbent: the best greedy tour over all starts
    nn_expect = HUGE_VAL; nn_tie = false; nn_prob = 0; nn_kind = 0; C.nn++;
    for (int i = 0; i < n; i++) { double pr; bool t = false; double c = greedy(i, false, &t, &pr); nn_tie |= t;
        if (c < nn_expect) { nn_expect = c; nn_prob = pr; nn_kind = CLOSED_NN; }
        if (HYBRID) { t = false; c = greedy(i, true, &t, &pr); nn_tie |= t; if (c < nn_expect) { nn_expect = c; nn_prob = pr; nn_kind = CLOSED_NN_HYBRID; } } }
    if (P.bestValue < DBL_MAX) {
        check_solution(&P.bestSolution, "NN", "initial incumbent", NULL);
        if (fabs(P.bestSolution.value - P.bestValue) > TOL) bad("NN", "initial bestValue %.12g, bestSolution.value %.12g", P.bestValue, P.bestSolution.value);
        // greedy tours recomputed in the order of the tour: some start must explain every step
        int nb[N][2], dg[N] = {0}; bool okg = false; const SubProblem *s = &P.bestSolution;
        if (s->num_edges_in_cycle == n && !incident) { for (int i = 0; i < n; i++) { int a = s->cycleEdges[i].src, b = s->cycleEdges[i].dest; nb[a][dg[a]++] = b; nb[b][dg[b]++] = a; }
            for (int st = 0; st < n && !okg; st++) for (int dir = 0; dir < 2 && !okg; dir++) { int kind[2] = {1, HYBRID};
                char u[N] = {0}; int v = st, nx = nb[st][dir]; u[st] = 1; for (int k = 1; k < n; k++) {
                    for (int j = 0; j < n; j++) if (!u[j] && W[v][j] > 0) { if (W[v][j] < W[v][nx]) kind[0] = 0; if (Q[v][j] > Q[v][nx]) kind[1] = 0; }
                    u[nx] = 1; int p = v; v = nx; nx = nb[v][0] == p ? nb[v][1] : nb[v][0]; }
                if (kind[0] || kind[1]) okg = true; }
            if (!okg) bad("NN", "initial tour of cost %.12g follows the nearest (or most probable) city from no start", P.bestValue); }
        if (s->type != CLOSED_NN && !(HYBRID && s->type == CLOSED_NN_HYBRID)) bad("NN", "initial solution of type %d", s->type);
    }
    if (!nn_tie) { double got = P.bestValue < DBL_MAX ? P.bestValue : HUGE_VAL;
        if (!(got == nn_expect || fabs(got - nn_expect) <= TOL)) bad("NN", "initial tour costs %.12g, the best greedy tour over all starts %.12g", got, nn_expect); }
    return r;
}
#endif

// 1: a is explored before b, 0: it is not, -1: too close to a threshold to say
static int better(const SubProblem *a, const SubProblem *b) {
    double d = b->value - a->value, q = a->prob - b->prob;
    if (fabs(d - eps()) < 1e-5 * eps() || (HYBRID && fabs(q - PROB_GAP) < 1e-6)) return -1;
    return d > eps() || (HYBRID && d > 0 && q >= PROB_GAP); }
static ConstraintType dd_pre[N][N]; static bool dd_have, probing; static unsigned dd_id; static double dd_best;
static SubProblemsList *openlist; static bool have_next; static unsigned next_id;
static void note_next(void) { have_next = openlist && openlist->size; if (have_next) next_id = openlist->head->subProblem.id; }
static void hist_step(SubProblem *s, void (*real)(SubProblem *)) {
    vnow += 700 + 1300 * (bounds_inst % 7) + (bounds_inst % 5 == 0 ? 3 * CLOCKS_PER_SEC / 10 : 0); new_text();
    double t0 = hist_now(), best0 = P.bestValue; int id = s->id, level = s->treeLevel, bid = P.bestSolution.id, bl = P.bestSolution.treeLevel; float bt = P.bestSolution.timeToReach;
    if (id < 1 || id > (int) P.generatedBBNodes) bad("HIST", "sub-problem numbered %d of %u", id, P.generatedBBNodes);
    else if (id < IDS) { int f = s->fatherId; C.numbered++;
        if (level_of[id]) bad("HIST", "two sub-problems explored have the number %d", id);
        if (f == 0 ? level != 1 || bounds_inst != 1 : f < 0 || f >= IDS || f >= id || level_of[f] != level - 1) bad("HIST", "sub-problem %d of level %d has the father %d, of level %d", id, level, f, f > 0 && f < IDS ? level_of[f] : 0);
        if (f > 0 && f < IDS && ++kids_of[f] > 2) bad("HIST", "sub-problem %d is the father of three", f);
        level_of[id] = level; }
    seen_prim_in_bound = 0; real(s); double t1 = hist_now(); vnow += 900;
    bool improved = P.bestValue < best0; int m = 0; double v, t, last = best0;
    for (char *p = new_text(); (p = strstr(p, "Updated best value")) != NULL; p++) {
        if (sscanf(p, "Updated best value: %lf, at time: %lf", &v, &t) != 2) { bad("HIST", "announcement without a value or a time"); continue; }
        m++; hist_said++; C.announced++;
        if (v > last - 1e-9 * (last < DBL_MAX) + 1e-6) bad("HIST", "%.12g announced as an improvement of %.12g", v, last);
        if (!near_time(t, t0, t1)) bad("HIST", "improvement of %.6f s announced at %.6f s", t1, t);
        last = v; }
    if (improved && !m) bad("HIST", "the best value falls from %.12g to %.12g without an announcement", best0, P.bestValue);
    if (improved && m && fabs(last - P.bestValue) > 1e-6 + 1e-9 * fabs(P.bestValue)) bad("HIST", "%.12g announced, the best value is %.12g", last, P.bestValue);
    if (!improved && m) bad("HIST", "%.12g announced, the best value is still %.12g", last, P.bestValue);
    if (improved) { H.any = true; H.value = P.bestValue; H.time0 = t0; H.time1 = t1; H.id = id; H.level = level;
        if ((int) P.bestSolution.id != id || P.bestSolution.treeLevel != level) bad("HIST", "solution of sub-problem %d (level %d) recorded as that of sub-problem %d (level %d)", id, level, (int) P.bestSolution.id, P.bestSolution.treeLevel);
        if (!near_time(P.bestSolution.timeToReach, t0, t1)) bad("HIST", "solution of %.6f s recorded as obtained after %.6f s", t0, P.bestSolution.timeToReach);
#if defined(HOOK_constrained_prim) && defined(HOOK_constrained_kruskal)
        if (seen_prim_in_bound && (P.bestSolution.type == CLOSED_1TREE) != (seen_prim_in_bound == 1)) bad("HIST", "solution found in 1-tree number %ld of its sub-problem recorded with type %d", seen_prim_in_bound, P.bestSolution.type);
#endif
        C.hist_improved++;
    } else { C.hist_quiet++;
        if ((int) P.bestSolution.id != bid || P.bestSolution.treeLevel != bl || P.bestSolution.timeToReach != bt) bad("HIST", "the best solution changed (sub-problem %d to %d, level %d to %d) without an improvement", bid, (int) P.bestSolution.id, bl, P.bestSolution.treeLevel); }
}
static void hist_report(void) {
    double spent = hist_now(); new_text(); vnow += 5 * CLOCKS_PER_SEC; print_problem(); char *r = new_text(), *p; C.reports++;
    double el; if ((p = strstr(r, "elapsed time = ")) && sscanf(p, "elapsed time = %lf", &el) == 1) { if (!near_time(el, spent, spent)) bad("HIST", "elapsed time %.6f reported, the search took %.6f", el, spent); }
    double c, t; int level, id; char ty[64]; float pr;
    if (!(p = strstr(r, "SUBPROBLEM with cost")) || sscanf(p, "SUBPROBLEM with cost = %lf, type = %63[^,], level of the BB tree = %d, prob_tour = %f, BBNode number = %d and time to obtain = %lf", &c, ty, &level, &pr, &id, &t) != 6) return;
    if (!H.any) { if (P.bestValue == DBL_MAX) return; C.hist_initial++; if (id != 0 || level != 0) bad("HIST", "initial tour reported as the solution of sub-problem %d (level %d)", id, level);
        if (!near_time(t, H.time0, H.time1)) bad("HIST", "initial tour (%.6f to %.6f s) reported as obtained after %.6f s", H.time0, H.time1, t); if (strncmp(ty, "CLOSED_NEAREST", 14)) bad("HIST", "initial tour reported with type %s", ty); return; }
    if (fabs(c - H.value) > 1e-6 + 1e-9 * fabs(c)) bad("HIST", "cost %.12g reported, the last improvement gave %.12g", c, H.value);
    if (id != H.id || level != H.level) bad("HIST", "solution of sub-problem %d (level %d) reported as that of sub-problem %d (level %d)", H.id, H.level, id, level);
    if (!near_time(t, H.time0, H.time1)) bad("HIST", "solution of %.6f s reported as obtained after %.6f s", H.time0, t);
    if (strcmp(ty, "CLOSED_1TREE") && strcmp(ty, "CLOSED_SUBGRADIENT")) bad("HIST", "solution of the search reported with type %s", ty);
}
#ifdef HOOK_bound
void bound(SubProblem *s) {
    REAL(bound);
    if (out_fd >= 0) { bounds_inst++; C.bounds++; if (bounds_inst == 1 && !jumped) { if (!H.known) H.time1 = hist_now(); H.known = true; }
        if (bounds_inst == cap) { vnow += (clock_t) CLOCKS_PER_SEC * 100000; }
        hist_step(s, real_bound); return; }
    bounds_inst++; C.bounds++;
    if (jumped && tl_T >= 601) bad("LIMIT", "sub-problem number %ld is explored %.1f s after the start", bounds_inst, tl_T);
    if (tl_k && bounds_inst == tl_k) { jumped = true; vnow = vbase + (clock_t)(tl_T * CLOCKS_PER_SEC); C.jumps++; }
    if (tl_k) { REAL(bound); real_bound(s); return; }
#if (defined(HOOK_constrained_prim) && defined(HOOK_constrained_kruskal) && defined(HOOK_mst_to_one_tree))
    if (strstr(tags, "DUAL")) { if (bounds_inst == cap) vnow += (clock_t) CLOCKS_PER_SEC * 100000; if (bounds_inst > cap) { real_bound(s); return; } dual_step(s, real_bound); return; }
#endif
    if (have_next) { C.order_checked++; if (s->id != next_id) bad("ORDER", "sub-problem %u explored while %u heads the queue", s->id, next_id); }
    if (bounds_inst > cap) { have_next = false; openlist = NULL; if (bounds_inst > cap * 3) { vnow += (clock_t)CLOCKS_PER_SEC * 100000; } real_bound(s); return; }
    static ConstraintType pre[N][N]; copyc(pre, s->constraints); double best0 = P.bestValue; seen_prim_in_bound = 0; unsigned ex0 = P.exploredBBNodes; double val0 = s->value;
    real_bound(s);
    note_next();
    if (seen_prim_in_bound) explored_inst++;
    weights_intact("bound");
    double cheapest = some_tour(pre);
    bool improved = P.bestValue < best0;
    if (P.bestValue > best0) bad("BOUND", "bound raised the incumbent from %.12g to %.12g", best0, P.bestValue);
    if (improved) { C.incumbents++; any_mandatory = n <= DPMAX && cheapest == HUGE_VAL; check_solution(&P.bestSolution, "BOUND", "new incumbent", pre); any_mandatory = false;
        if (fabs(P.bestSolution.value - P.bestValue) > TOL) bad("BOUND", "incumbent value %.12g, bestValue %.12g", P.bestSolution.value, P.bestValue); }
    bool open = s->type == OPEN && s->edge_to_branch != -1;
    dd_have = open; if (open) { copyc(dd_pre, s->constraints); dd_id = s->id; dd_best = P.bestValue; }
    C.surv_checked++;
    if (s->type == CLOSED_BOUND) C.closed_bound++; else if (s->type == CLOSED_UNFEASIBLE) C.closed_inf++; else if (s->type == CLOSED_1TREE || s->type == CLOSED_SUBGRADIENT) C.closed_sol++; else if (open) C.open++; else C.leafs++;
    if (!open) {
        if (cheapest < P.bestValue - eps() - TOL) bad("BOUND", "sub-problem closed (type %d, edge %d) with a tour of cost %.12g inside; incumbent %.12g", s->type, s->edge_to_branch, cheapest, P.bestValue);
        if (s->type == CLOSED_UNFEASIBLE && cheapest < HUGE_VAL && cheapest < P.bestValue) bad("BOUND", "sub-problem called unfeasible holds a tour of cost %.12g; incumbent %.12g", cheapest, P.bestValue);
    } else {
        C.lb_checked++;
        if (s->value > cheapest + TOL) bad("BOUND", "lower bound %.12g above a tour of cost %.12g of the sub-problem", s->value, cheapest);
        int e = s->edge_to_branch;
        if (e < 0 || e >= P.graph.num_edges) bad("BRANCH", "edge to branch %d of %d", e, P.graph.num_edges);
        else if (pre[P.graph.edges[e].src][P.graph.edges[e].dest] != NOTHING) bad("BRANCH", "edge to branch %d is already constrained", e);
        bool d; static double w[N][N]; memcpy(w, W, sizeof w); int x = P.candidateNodeId;
        double c = forced_mst(w, pre, x, &d); 
        if (!isnan(c) && !d) { double b0 = HUGE_VAL, b1 = HUGE_VAL; int m = 0; for (int j = 0; j < n; j++) if (W[x][j] > 0) { if (pre[x][j] == MANDATORY) { m++; c += W[x][j]; } else if (pre[x][j] == NOTHING) { if (W[x][j] < b0) { b1 = b0; b0 = W[x][j]; } else if (W[x][j] < b1) b1 = W[x][j]; } }
            if (m == 0) c += b0 + b1; else if (m == 1) c += b0;
            if (m <= 2 && c < HUGE_VAL && s->value < c - TOL) bad("BOUND", "lower bound %.12g below the plain 1-tree bound %.12g", s->value, c); }
        // constraints may only be tightened, and only by edges that cannot improve
        if (memcmp(pre, s->constraints, sizeof pre)) { double after = some_tour(s->constraints); if (cheapest < P.bestValue - eps() - TOL && after > cheapest + TOL) bad("BOUND", "bound changed the constraints and lost a tour of cost %.12g", cheapest); }
    }
    (void) ex0; (void) val0;
}
#endif

static void check_mandatory_list(SubProblem *s, const char *where) {
    int m = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { if (s->constraints[i][j] != s->constraints[j][i]) bad("FIX", "%s: constraint of %d-%d not symmetric", where, i, j); if (s->constraints[i][j] == MANDATORY) m++; }
    bool in[N][N]; memset(in, 0, sizeof in); int k = 0;
    for (int i = 0; i < s->num_mandatory_edges && i < N; i++) { int a = s->mandatoryEdges[i].src, b = s->mandatoryEdges[i].dest; if (a >= n || b >= n) { bad("FIX", "%s: mandatory edge %d-%d", where, a, b); return; } if (s->constraints[a][b] == MANDATORY && !in[a][b]) { in[a][b] = in[b][a] = true; k++; } }
    if (k != m) bad("FIX", "%s: %d mandatory edges in the matrix, %d of them in the list", where, m, k);
}
// every edge newly fixed must be one that no improving tour contradicts
static long check_fixing(ConstraintType pre[N][N], SubProblem *s, const char *where, double slackbest) {
    long fixed = 0; static ConstraintType t[N][N];
    for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) if (s->constraints[i][j] != pre[i][j]) {
        fixed++; if (i >= n || j >= n) continue; if (pre[i][j] != NOTHING) { bad("FIX", "%s: constraint of %d-%d went from %d to %d", where, i, j, pre[i][j], s->constraints[i][j]); continue; }
        if (W[i][j] <= 0) continue;
        if (fixed > 40) continue;
        copyc(t, pre); t[i][j] = t[j][i] = s->constraints[i][j] == FORBIDDEN ? MANDATORY : FORBIDDEN; C.fixed_checked++;
        double c = some_tour(t);
        if (c < slackbest) bad("FIX", "%s: edge %d-%d made %s, but a tour of cost %.12g says otherwise (incumbent %.12g)", where, i, j, s->constraints[i][j] == FORBIDDEN ? "forbidden" : "mandatory", c, P.bestValue);
    }
    return fixed;
}
// ---- DEDUCE: nothing that the marginal and replacement costs or the degrees settle is left open -----------------------
static double one_tree_cost(ConstraintType c[N][N], int x) { // cheapest 1-tree at x that respects the constraints; NAN: not to be judged
    bool d; double t = forced_mst(W, c, x, &d); if (isnan(t)) return NAN; if (d) return HUGE_VAL;
    double b0 = HUGE_VAL, b1 = HUGE_VAL; int m = 0; for (int j = 0; j < n; j++) if (j != x && W[x][j] > 0) { if (c[x][j] == MANDATORY) { m++; t += W[x][j]; } else if (c[x][j] == NOTHING) { if (W[x][j] < b0) { b1 = b0; b0 = W[x][j]; } else if (W[x][j] < b1) b1 = W[x][j]; } }
    if (m > 2) return NAN; if (m == 0) t += b0 + b1; else if (m == 1) t += b0; return t;
}
static bool joins_forced(ConstraintType c[N][N], int x, int a, int b) { // are a and b joined by mandatory edges away from x?
    int r[N]; for (int i = 0; i < n; i++) r[i] = i;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i != x && j != x && c[i][j] == MANDATORY) r[FIND(i)] = FIND(j);
    return FIND(a) == FIND(b);
}
static void judge_fixing(ConstraintType pre[N][N], SubProblem *s) {
    if (!strstr(tags, "DEDUCE")) return;
    int x = P.candidateNodeId; double B = P.bestValue; if (B >= BIGW || B >= INFINITE) return;
    static ConstraintType t[N][N]; copyc(t, pre); double c0 = one_tree_cost(t, x); if (isnan(c0) || c0 >= B - TOL) return;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (pre[i][j] == MANDATORY && W[i][j] <= 0) return;
    int mx = 0; for (int j = 0; j < n; j++) mx += pre[x][j] == MANDATORY; if (mx > 2) return;
    C.deduce_calls++;
    int full = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) full += s->constraints[i][j] == MANDATORY;
    // the edges at the candidate node in a cheapest 1-tree: the larger of the two is what an edge there replaces
    double top = 0; { double b0 = HUGE_VAL, b1 = HUGE_VAL, m1 = 0; for (int j = 0; j < n; j++) if (j != x && W[x][j] > 0) { if (pre[x][j] == MANDATORY) { if (W[x][j] > m1) m1 = W[x][j]; } else if (pre[x][j] == NOTHING) { if (W[x][j] < b0) { b1 = b0; b0 = W[x][j]; } else if (W[x][j] < b1) b1 = W[x][j]; } }
        top = mx == 0 ? b1 : mx == 1 ? (b0 > m1 ? b0 : m1) : m1; }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        if (pre[i][j] != NOTHING || W[i][j] <= 0) continue;
        bool at = i == x || j == x; double with, without;
        if (at) with = mx == 2 ? c0 + W[i][j] - top : fmax(c0, c0 + W[i][j] - top);
        else if (joins_forced(pre, x, i, j)) with = HUGE_VAL;
        else { t[i][j] = t[j][i] = MANDATORY; with = one_tree_cost(t, x); t[i][j] = t[j][i] = NOTHING; }
        t[i][j] = t[j][i] = FORBIDDEN; without = one_tree_cost(t, x); t[i][j] = t[j][i] = NOTHING;
        if (isnan(with) || isnan(without)) continue;
        bool must_out = with >= B + TOL, must_in = without >= B + TOL; if (must_out && must_in) continue;
        if (must_out) { C.deduce_out++; if (s->constraints[i][j] == NOTHING) bad("DEDUCE", "every 1-tree with edge %d-%d costs %.12g or more, the incumbent costs %.12g, and the edge is not forbidden%s", i, j, with, B, at ? " (at the candidate node)" : ""); }
        else if (must_in) { C.deduce_in++; if (s->constraints[i][j] == NOTHING && full < n) bad("DEDUCE", "every 1-tree without edge %d-%d costs %.12g or more, the incumbent costs %.12g, and the edge is not mandatory%s", i, j, without, B, at ? " (at the candidate node)" : ""); }
        else C.deduce_free++;
    }
}
// kept: the constraints of the sub-problem that was kept, or NULL when it was rejected
static void judge_inference(ConstraintType pre[N][N], ConstraintType (*kept)[N], const char *what) {
    if (!strstr(tags, "DEDUCE")) return;
    for (int i = 0; i < n; i++) {
        int m = 0, f = 0; for (int j = 0; j < N; j++) { m += pre[i][j] == MANDATORY; f += pre[i][j] == NOTHING; }
        if (m > 2 || m + f < 2) { C.deduce_doomed++; if (kept) bad("DEDUCE", "%s kept although city %d has %d mandatory and %d free edges", what, i, m, f); return; }
    }
    if (kept) for (int i = 0; i < n; i++) {
        int m = 0, f = 0, left = 0; for (int j = 0; j < N; j++) { m += pre[i][j] == MANDATORY; f += pre[i][j] == NOTHING; left += j < n && kept[i][j] == NOTHING; }
        if (f && (m == 2 || m + f == 2)) { C.deduce_degree++; if (left) bad("DEDUCE", "%s: city %d had %d mandatory and %d free edges, and %d are left free", what, i, m, f, left); }
        int m2 = 0; for (int j = 0; j < N; j++) m2 += kept[i][j] == MANDATORY;
        if (f && m < 2 && m + f == 2 && m2 < 2) bad("DEDUCE", "%s: city %d had %d mandatory and %d free edges and ends with %d mandatory ones", what, i, m, f, m2);
    }
}
#ifdef HOOK_variable_fixing
int variable_fixing(SubProblem *s) {
    REAL(variable_fixing); static ConstraintType pre[N][N]; 
    copyc(pre, s->constraints); int r = real_variable_fixing(s); fixed_inst += r; C.fixed += r; C.fixing_calls++;
    if (!budget()) return r;
    long k = check_fixing(pre, s, "variable_fixing", P.bestValue - eps() - TOL);
    if (k != r) bad("STAT", "variable_fixing reports %d fixed edges and fixed %ld", r, k);
    check_mandatory_list(s, "variable_fixing");
    if (probing) judge_fixing(pre, s);
    return r;
}
#endif
#ifdef HOOK_infer_constraints
bool infer_constraints(SubProblem *s) {
    REAL(infer_constraints); static ConstraintType pre[N][N]; copyc(pre, s->constraints); unsigned f0 = P.num_fixed_edges;
    bool r = real_infer_constraints(s); C.infer_calls++; fixed_inst += P.num_fixed_edges - f0;
    if (!budget()) return r;
    judge_inference(pre, r ? s->constraints : NULL, "sub-problem");
    if (!r) { C.pruned_inf++; double c = some_tour(pre); if (c < HUGE_VAL) bad("FIX", "infer_constraints rejects a sub-problem that holds a tour of cost %.12g", c); }
    else { long k = check_fixing(pre, s, "infer_constraints", HUGE_VAL); C.inferred += k; if (k != (long)(P.num_fixed_edges - f0)) bad("STAT", "infer_constraints counts %ld fixed edges and fixed %ld", (long)(P.num_fixed_edges - f0), k); check_mandatory_list(s, "infer_constraints"); }
    return r;
}
#endif
#ifdef HOOK_branch
void branch(SubProblemsList *open, SubProblem *s) {
    REAL(branch); branches_inst++; C.branches++;
    if (!budget()) { real_branch(open, s); openlist = NULL; have_next = false; return; }
    static ConstraintType par[N][N]; copyc(par, s->constraints); size_t n0 = open->size; 
    SubProblemElem **old = malloc(sizeof(*old) * (n0 + 1)); size_t k = 0; for (SubProblemElem *e = open->head; e && k < n0; e = e->next) old[k++] = e;
    if (s->treeLevel + 1 > maxlevel_inst) maxlevel_inst = s->treeLevel + 1;
    int eb = s->edge_to_branch; int a = -1, b = -1; if (eb >= 0 && eb < P.graph.num_edges) { a = P.graph.edges[eb].src; b = P.graph.edges[eb].dest; }
    double cheapest = some_tour(par);
    if (!probing && dd_have && dd_id == s->id && dd_best == P.bestValue) judge_fixing(dd_pre, s);
    dd_have = false; double val0 = s->value, prob0 = s->prob;
    real_branch(open, s);
    openlist = open; note_next();
    // the list afterwards: the old elements in the old order, and at most two new ones
    size_t i = 0, fresh = 0; SubProblemElem *ch[3] = {0}; size_t pos[3] = {0}, q = 0; SubProblemElem *prev = NULL;
    for (SubProblemElem *e = open->head; e; prev = e, e = e->next, q++) {
        if (e->prev != prev) bad("LIST", "open list: prev pointer broken at %zu", q);
        if (i < k && old[i] == e) i++; else { if (fresh < 3) { ch[fresh] = e; pos[fresh] = q; } fresh++; } if (q > n0 + 3) break; }
    if (open->tail != prev) bad("LIST", "open list: tail pointer broken");
    if (i != k || q != open->size || fresh > 2) bad("BRANCH", "open list: %zu of %zu sub-problems kept, %zu new, size %zu", i, k, fresh, open->size);
    else {
        C.children += fresh; double bc = HUGE_VAL; int m = 0, f = 0; SubProblemElem *cm = NULL, *cf = NULL;
        for (size_t c = 0; c < fresh; c++) { SubProblem *x = &ch[c]->subProblem; double t = some_tour(x->constraints); if (t < bc) bc = t;
            if (a >= 0) { if (x->constraints[a][b] == MANDATORY) { m++; cm = ch[c]; } else if (x->constraints[a][b] == FORBIDDEN) { f++; cf = ch[c]; } else bad("BRANCH", "child without a constraint on the branching edge %d-%d", a, b); }
            if (x->treeLevel != s->treeLevel + 1 || x->fatherId != s->id) bad("BRANCH", "child of node %u (level %d) has father %u and level %d", s->id, s->treeLevel, x->fatherId, x->treeLevel);
            if (x->type != OPEN || x->num_edges_in_cycle) bad("BRANCH", "child type %d", x->type);
            if (fabs(x->value - val0) > 1e-9 * (1 + fabs(val0)) || fabs(x->prob - prob0) > 1e-9) bad("ORDER", "child of value %.12g prob %.9g of a sub-problem of value %.12g prob %.9g", x->value, x->prob, val0, prob0);
            if (a >= 0 && x->constraints[a][b] != NOTHING) { ConstraintType k = par[a][b]; par[a][b] = par[b][a] = x->constraints[a][b]; judge_inference(par, x->constraints, "child"); par[a][b] = par[b][a] = k; }
            for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (!((u == a && v == b) || (u == b && v == a)) && par[u][v] != NOTHING && x->constraints[u][v] != par[u][v]) { bad("BRANCH", "child drops the constraint of %d-%d", u, v); u = n; break; }
        }
        if (m > 1 || f > 1) bad("BRANCH", "both children have the same constraint on %d-%d", a, b);
        if (fresh == 2 && cm && cf) { // classic: mandatory child generated first; hybrid: the likely child first
            bool mand_first = cm->subProblem.id < cf->subProblem.id; bool want = HYBRID ? Q[a][b] >= 0.5 : true; if (!mand_first) C.hybrid_first_f++;
            if (mand_first != want) bad("ORDER", "edge %d-%d of probability %.12g: %s child generated first", a, b, Q[a][b], mand_first ? "mandatory" : "forbidden");
            // equal values: FIFO, so the first generated is also explored first
            bool before = false; for (SubProblemElem *e = open->head; e; e = e->next) { if (e == cm) { before = true; break; } if (e == cf) break; }
            if (before != want) bad("ORDER", "edge %d-%d of probability %.12g: %s child queued first", a, b, Q[a][b], before ? "mandatory" : "forbidden");
        }
        if (fresh == 2 && ch[0]->subProblem.id == ch[1]->subProblem.id) bad("BRANCH", "two sub-problems with id %u", ch[0]->subProblem.id);
        if (cheapest < P.bestValue - eps() - TOL && bc > cheapest + TOL) bad("BRANCH", "branching on %d-%d loses the tour of cost %.12g (incumbent %.12g, children %.12g)", a, b, cheapest, P.bestValue, bc);
        // queue discipline: a sub-problem is queued before the first one it beats
        for (size_t c = 0; c < fresh; c++) { SubProblemElem *e; size_t j = 0; for (e = open->head; e && e != ch[c]; e = e->next, j++) { bool sib = false; for (size_t z = 0; z < fresh; z++) if (z != c && ch[z] == e) sib = true; if (!sib && better(&ch[c]->subProblem, &e->subProblem) == 1) { bad("ORDER", "sub-problem of value %.12g prob %.6g queued after one of value %.12g prob %.6g", ch[c]->subProblem.value, ch[c]->subProblem.prob, e->subProblem.value, e->subProblem.prob); break; } }
            SubProblemElem *nx = ch[c]->next; while (nx && (nx == ch[0] || nx == ch[1])) nx = nx->next;
            if (nx && better(&ch[c]->subProblem, &nx->subProblem) == 0) bad("ORDER", "sub-problem of value %.12g prob %.6g queued before one of value %.12g prob %.6g that it does not beat", ch[c]->subProblem.value, ch[c]->subProblem.prob, nx->subProblem.value, nx->subProblem.prob); }
    }
    free(old);
}
#endif

#ifdef PROBE
#include "probe.h"
#endif

int main(int argc, char **argv) {
    ev = getenv("MON_EV") ? fopen(getenv("MON_EV"), "w") : fdopen(3, "w"); if (!ev) return 9; char path[4096]; if (argc > 1) cap = atol(argv[1]);
    if (argc > 2) tags = argv[2];
    if (strstr(tags, "HIST")) { char tmp[] = "/tmp/mon_out_XXXXXX"; out_fd = mkstemp(tmp); unlink(tmp); fflush(stdout); dup2(out_fd, 1); close(out_fd); out_fd = 1; }
    if (argc > 4) { tl_k = atol(argv[3]); tl_T = atof(argv[4]); vbase = argc > 5 ? atol(argv[5]) : 1000; } else vbase = 1000;
    long cap0 = cap;
    while (fgets(path, sizeof path, stdin)) {
        path[strcspn(path, "\n")] = 0; if (!*path) continue; cur = path; incident = 0; fprintf(ev, "START %s\n", path); fflush(ev);
        memset(&P, 0, sizeof P); n = 0; vnow = vbase; clk_calls = 0; jumped = false; nn_value = DBL_MAX; bounds_inst = branches_inst = explored_inst = fixed_inst = 0; maxlevel_inst = 1; rs = 12345; openlist = NULL; have_next = false; cap = cap0;
        read_tsp_csv_file(&P.graph, path);
        n = P.graph.num_nodes; if (n > N || n < 3) { fprintf(ev, "SKIP %s\n", path); continue; }
        memset(W, 0, sizeof W); memset(Q, 0, sizeof Q); SUMW = 0; double mxw = 0;
        for (int e = 0; e < P.graph.num_edges; e++) { Edge *d = &P.graph.edges[e]; W[d->src][d->dest] = W[d->dest][d->src] = d->weight; Q[d->src][d->dest] = Q[d->dest][d->src] = d->prob; if (d->weight > mxw) mxw = d->weight; }
        SUMW = mxw * n; TOL = 1e-7 * (SUMW > 1 ? SUMW : 1) ; if (TOL < 1e-9) TOL = 1e-9;
        if (n <= DPMAX) { free(dpt); dpt = malloc(sizeof(double) * ((size_t)1 << (n - 1)) * (n - 1)); } else build_pool();
        double opt = n <= DPMAX ? dp_min(NULL) : npool ? 0 : HUGE_VAL; if (n > DPMAX) { opt = HUGE_VAL; for (int k = 0; k < npool; k++) if (pool[k].c < opt) opt = pool[k].c; }
        memset(&H, 0, sizeof H); memset(level_of, 0, sizeof level_of); memset(kids_of, 0, sizeof kids_of);
        branch_and_bound(&P);
        if (out_fd >= 0) { hist_report(); fprintf(ev, "DONE %s n=%d best=%.12g opt=0 int=%d bounds=%ld sig=%u.%u.%u.%u\n", path, n, P.bestValue, P.interrupted, bounds_inst, P.generatedBBNodes, P.exploredBBNodes, P.totTreeLevels, P.num_fixed_edges); fflush(ev); C.inst++; continue; }
        if (tl_k && clk_calls < 10 * cap) {
            bool late = jumped && tl_T >= 601;
            if (late && !P.interrupted) bad("LIMIT", "stopped %.1f s after the start, but the run is not reported as interrupted", tl_T);
            if (P.interrupted && !(jumped && tl_T >= 600)) bad("LIMIT", "reported as interrupted after %.1f s", jumped ? tl_T : 0.);
            if (nn_value < DBL_MAX && !(P.bestValue <= nn_value + TOL)) bad("LIMIT", "tour of cost %.12g, the search began with one of %.12g", P.bestValue, nn_value);
        }
        if (!P.generatedBBNodes && !P.bestSolution.num_edges_in_cycle) P.bestValue = DBL_MAX; // refused: no search, no tour
        C.inst++; bool inter = P.interrupted; C.interrupted += inter;
        if (P.bestValue < DBL_MAX) check_solution(&P.bestSolution, "TOUR", "final", NULL);
        if (P.bestValue < DBL_MAX && n <= DPMAX && P.bestValue < opt - TOL) bad("TOUR", "cost %.12g below the optimum %.12g", P.bestValue, opt);
        if (!inter) { if (opt < HUGE_VAL && !(P.bestValue <= opt + eps() + TOL)) bad("OPT", "cost %.12g, a tour of cost %.12g exists (EPSILON %.6g)", P.bestValue, opt, eps());
            if (n <= DPMAX && opt == HUGE_VAL && P.bestValue < DBL_MAX) bad("OPT", "cost %.12g on a graph without tours", P.bestValue); }
        weights_intact("end");
#if defined(HOOK_branch) && defined(HOOK_bound)
        if (!tl_k && bounds_inst <= cap && C.bounds && bounds_inst) {
            if (P.generatedBBNodes != 1 + 2 * branches_inst) bad("STAT", "%u generated nodes after %ld branchings", P.generatedBBNodes, branches_inst);
            if (P.totTreeLevels != maxlevel_inst) bad("STAT", "%d levels reported, deepest node generated at level %d", P.totTreeLevels, maxlevel_inst);
#if defined(HOOK_constrained_prim) && defined(HOOK_constrained_kruskal)
            if (P.exploredBBNodes != explored_inst) bad("STAT", "%u explored nodes reported, 1-trees computed for %ld", P.exploredBBNodes, explored_inst);
#endif
            if (P.exploredBBNodes > P.generatedBBNodes) bad("STAT", "%u explored of %u generated", P.exploredBBNodes, P.generatedBBNodes);
        }
#if defined(HOOK_variable_fixing) && defined(HOOK_infer_constraints)
        if (!tl_k && C.fixing_calls && C.infer_calls && P.num_fixed_edges != fixed_inst) bad("STAT", "%u fixed edges reported, %ld fixed", P.num_fixed_edges, fixed_inst);
#endif
#endif
        fprintf(ev, "DONE %s n=%d best=%.12g opt=%.12g int=%d bounds=%ld sig=%u.%u.%u.%u\n", path, n, P.bestValue, opt, inter, bounds_inst, P.generatedBBNodes, P.exploredBBNodes, P.totTreeLevels, P.num_fixed_edges); fflush(ev);
#ifdef PROBE
        if (getenv("MON_PROBE") && atoi(getenv("MON_PROBE")) && !tl_k && n <= DPMAX && (C.bounds || P.generatedBBNodes)) { probing = true; probes(atoi(getenv("MON_PROBE"))); probing = false; }
#endif
    }
    #define S(f) fprintf(ev, "COUNT %s %ld\n", #f, C.f);
    S(inst) S(bounds) S(dp) S(closed_bound) S(closed_inf) S(closed_sol) S(open) S(leafs) S(branches) S(children) S(pruned_inf) S(fixed) S(fixed_checked) S(inferred) S(incumbents) S(prim) S(prim_infeasible) S(one_tree) S(one_tree_inf) S(nn) S(cand) S(lb_checked) S(surv_checked) S(interrupted) S(pool_checks) S(hybrid_first_f) S(order_checked) S(jumps) S(probes) S(probe_open) S(probe_inferred) S(probe_trees) S(announced) S(hist_improved) S(hist_quiet) S(hist_initial) S(reports) S(numbered) S(dual_bounds) S(dual_trees) S(dual_pruned) S(dual_ended) S(dual_complete) S(dual_edges) S(deduce_calls) S(deduce_out) S(deduce_in) S(deduce_free) S(deduce_doomed) S(deduce_degree)
    fprintf(ev, "END\n"); fclose(ev); return 0;
}
