// Model-based workloads on the data structures and algorithms of the library, through their headers only.
// usage: api WHAT SEED CASES    WHAT: heap mfset list splist mst sort graph
// Prints CASE lines as it goes, BAD lines for deviations from the model, COUNT lines at the end.  Built with ASan and UBSan.
#include <stdarg.h>
#include <stdint.h>
#include "algorithms/branch_and_bound.h"
#include "algorithms/kruskal.h"
#include "algorithms/prim.h"
#include "data_structures/doubly_linked_list/list_functions.h"
#include "data_structures/doubly_linked_list/list_iterator.h"
#include "data_structures/fibonacci_heap.h"
#define N MAX_VERTEX_NUM
static uint64_t rs; static long casen, ops, bads, distinct, ties, extra; static const char *what;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 11; }
static int R(int k) { return (int)(rnd() % (unsigned)k); }
static double U(void) { return (double) rnd() / (double)(1ull << 53); }
static void bad(const char *fmt, ...) {
    if (++bads > 40) return;
    va_list a; va_start(a, fmt); printf("BAD %s_%ld ", what, casen); vprintf(fmt, a); printf("\n"); va_end(a); fflush(stdout);
}

// ---- Fibonacci heap ------------------------------------------------------------------------------------------------
#define HK 4096
static OrdTreeNode *hn[HK]; static double hv[HK]; static bool hin[HK]; static int hsize;
static FibonacciHeap heap;
static double hmin(void) { double m = INFINITY; for (int i = 0; i < HK; i++) if (hin[i] && hv[i] < m) m = hv[i]; return m; }
static void h_insert(int k, double v) { if (!hn[k]) hn[k] = malloc(sizeof(OrdTreeNode)); memset(hn[k], 0xA5, sizeof(OrdTreeNode)); hv[k] = v; hin[k] = true; hsize++; create_insert_node(&heap, hn[k], k, v); ops++; }
static void h_decrease(int k, double v) { hv[k] = v; decrease_value(&heap, hn[k], v); ops++; }
static int h_extract(double m) {
    int k = extract_min(&heap); ops++;
    if (!hsize) { if (k != -1) bad("extract_min on an empty heap returns %d", k); return -1; }
    if (k < 0 || k >= HK || !hin[k]) { bad("extract_min returns %d, which is not in the heap of %d nodes", k, hsize); return -2; }
    if (hv[k] != m) { bad("extract_min returns key %d of value %.17g, the minimum is %.17g (%d nodes)", k, hv[k], m, hsize); return -2; }
    hin[k] = false; hsize--; free(hn[k]); hn[k] = NULL;      // a stale link to it is a use after free
    if (heap.num_nodes != hsize) { bad("%d nodes counted, %d are in the heap", heap.num_nodes, hsize); return -2; }
    return k;
}
static void h_reset(void) { for (int i = 0; i < HK; i++) { free(hn[i]); hn[i] = NULL; hin[i] = false; } hsize = 0; create_fibonacci_heap(&heap); }
static double hvalue(int mode) { switch (mode) { case 0: return U() * 100 - 50; case 1: return R(4); case 2: return R(2) ? DBL_MAX : U(); case 3: return -R(1000); case 4: return R(9) ? (double) R(50) : -1e300 * U(); default: return (double) FLT_MAX / (1 + R(2)); } }
static void heap_random(void) {
    h_reset(); int K = R(4) ? 3 + R(60) : 3 + R(1500), mode = R(6), steps = K * (2 + R(6)), wi = 1 + R(6), wd = R(8), we = 1 + R(5); uint64_t sig = 0;
    for (int s = 0; s < steps; s++) {
        int o = R(wi + wd + we);
        if (o < wi) { int k = R(K); if (!hin[k]) h_insert(k, hvalue(mode)); }
        else if (o < wi + wd) { int k = R(K); if (hin[k]) { double v = hv[k]; int h = R(6); if (h == 0) v = v; else if (h == 1) { double m = hmin(); if (m < v) v = m; } else if (h == 2) v = v - 1e9 * U(); else { double x = hvalue(mode); if (x < v) v = x; } h_decrease(k, v); } }
        else { int k = h_extract(hmin()); if (k == -2) return; sig = sig * 31 + (unsigned) k; }
        if (hsize && heap.min_root == NULL) { bad("no minimum in a heap of %d nodes", hsize); return; }
        if (hsize && heap.min_root->value != hmin()) { bad("minimum %.17g in the heap, should be %.17g", heap.min_root->value, hmin()); return; }
    }
    while (hsize) { if (h_extract(hmin()) == -2) return; }
    h_extract(0); distinct++;
    h_insert(0, 1); h_insert(1, 0); if (h_extract(0) != 1 || h_extract(1) != 0) bad("heap unusable once emptied");
}
static void heap_prim(void) {   // the way Prim uses it: everything at a large value, then many decreases between extractions
    h_reset(); int K = 2 + R(600); for (int i = 0; i < K; i++) h_insert(i, i ? DBL_MAX : 0);
    int dense = 1 + R(20);
    while (hsize) { if (h_extract(hmin()) == -2) return; for (int q = 0; q < dense && hsize; q++) { int k = R(K); if (hin[k]) { double v = R(3) ? U() : (double) R(5); if (v < hv[k]) h_decrease(k, v); } } }
    distinct++;
}
// Trees with as few nodes as the marking rule allows for their degree: binomial trees cut down by decreases.  After each
// extraction the biggest tree loses, in every subtree, one child per node from the leaves up, while staying the minimum.
static int subtree(OrdTreeNode *v, OrdTreeNode **out, int max) { int k = 0; if (k < max) out[k++] = v; OrdTreeNode *c = v->head_child_list; for (int i = 0; i < v->num_children; i++, c = c->right_sibling) k += subtree(c, out + k, max - k); return k; }
static void heap_degree(void) {
    h_reset(); int d = 2 + (int)(casen % 9), next = 0; static OrdTreeNode *all[HK]; double low = -1;
    // a tree of degree d: insert 2^d + 1 nodes and extract the minimum
    h_insert(next++, -1e6); for (int i = 0; i < 1 << d; i++) h_insert(next++, i);
    if (h_extract(-1e6) == -2) return;
    OrdTreeNode *root = heap.min_root; if (!root) { bad("no minimum"); return; }
    // thin: for every child subtree, cut the deepest chains (each non-root node may lose one child)
    for (int round = 0; round < d; round++) {
        int k = subtree(root, all, HK), cutn = 0; static OrdTreeNode *victim[HK];
        for (int i = 0; i < k; i++) { OrdTreeNode *v = all[i]; if (v == root || v->marked || !v->num_children || v->parent == NULL) continue; 
            OrdTreeNode *c = v->head_child_list, *big = c; for (int j = 0; j < v->num_children; j++, c = c->right_sibling) if (c->num_children > big->num_children) big = c; victim[cutn++] = big; }
        for (int i = 0; i < cutn; i++) { OrdTreeNode *v = victim[i]; if (v->parent && v->parent != root && !v->parent->marked) h_decrease(v->key, low -= 1); }
        // what was cut goes away: it is smaller than everything else
        for (;;) { double m = hmin(); if (m >= 0 || !hsize) break; if (h_extract(m) == -2) return; }
        if (!hsize) return;
        root = heap.min_root; extra = root->num_children > extra ? root->num_children : extra;
    }
    // and everything must still come out in order
    while (hsize) if (h_extract(hmin()) == -2) return;
    distinct++;
}
// The family for which the size of a tree is smallest for its degree (Fibonacci numbers): T(k) is built from two T(k-1)
// roots linked, then the grandchild of highest degree is cut out of the new child.
static void heap_fib(void) {
    h_reset(); int want = 3 + (int)(casen % 8), next = 0; double low = -10;
    int goal = want + R(2), guard = 0; int K = 1 << (goal < 11 ? goal : 11); (void) K;
    for (int i = 0; i < (1 << goal) && i < HK - 64; i++) h_insert(next++, 1000 + i);
    h_insert(next++, low); if (h_extract(low) == -2) return;
    static OrdTreeNode *all[HK];
    while (guard++ < 4000) {    // cut leaves-most unmarked positions until nothing can be cut without cascading to the root
        OrdTreeNode *root = heap.min_root; int k = subtree(root, all, HK); OrdTreeNode *pick = NULL; int pd = -1;
        for (int i = 1; i < k; i++) { OrdTreeNode *v = all[i], *p = v->parent; if (!p || p == root || p->marked) continue; if (v->num_children > pd) { pd = v->num_children; pick = v; } }
        if (!pick) break;
        h_decrease(pick->key, low -= 1);
        int kk = subtree(hn[pick->key], all, HK); int keys[HK]; for (int i = 0; i < kk; i++) keys[i] = all[i]->key;
        for (int i = 0; i < kk; i++) if (hin[keys[i]] && hv[keys[i]] >= 0) h_decrease(keys[i], low -= 1);
        // remove the whole cut subtree, so that the number of nodes shrinks while the degree of the root stays
        for (;;) { double m = hmin(); if (m >= 0 || !hsize) break; if (h_extract(m) == -2) return; }
        if (!hsize || !heap.min_root) break;
        if (heap.min_root->num_children > extra) extra = heap.min_root->num_children;
    }
    while (hsize) if (h_extract(hmin()) == -2) return;
    distinct++;
}
// A binomial tree loses its deepest nodes one by one, and with them all that falls off it, down to the grandchildren of its
// root: only cuts that cascade all the way keep the degree of the root in proportion to what is left of the tree.
static void heap_chop(void) {
    h_reset(); int d = 3 + (int)(casen / 5 % 8), next = 0; double low = -1; static OrdTreeNode *all[HK]; static char main_tree[HK];
    h_insert(next++, -1e6); for (int i = 0; i < 1 << d; i++) h_insert(next++, R(2) ? i : R(50));
    if (h_extract(-1e6) == -2) return;
    while (heap.min_root && hsize > 1) {
        OrdTreeNode *root = heap.min_root, *pick = NULL; int depth = 1, k = subtree(root, all, HK);
        for (int i = 1; i < k; i++) { int e = 0; for (OrdTreeNode *v = all[i]->parent; v; v = v->parent) e++;
            if ((e >= 3 || (e == 2 && !all[i]->parent->marked)) && (e > depth || (e == depth && R(2)))) { depth = e; pick = all[i]; } }
        if (!pick) break;
        h_decrease(pick->key, low -= 1);
        memset(main_tree, 0, sizeof main_tree); k = subtree(root, all, HK); for (int i = 0; i < k; i++) main_tree[all[i]->key] = 1;
        for (int i = 0; i < next; i++) if (hin[i] && !main_tree[i] && hv[i] >= 0) h_decrease(i, low -= 1);
        while (hsize && hmin() < 0) if (h_extract(hmin()) == -2) return;
        if (heap.min_root && heap.min_root->num_children > extra) extra = heap.min_root->num_children;
    }
    while (hsize) if (h_extract(hmin()) == -2) return;
    distinct++;
}
static void t_heap(void) { switch (casen % 5) { case 0: heap_random(); break; case 1: heap_prim(); break; case 2: heap_degree(); break; case 3: heap_chop(); break; default: heap_fib(); } h_reset(); }

// ---- disjoint sets -------------------------------------------------------------------------------------------------
static void t_mfset(void) {
    static Node nodes[N]; Forest *f = malloc(sizeof(Forest)); memset(f, 0x5A, sizeof *f); int n = 1 + R(N), skip = -1, lab[N];
    for (int i = 0; i < n; i++) { nodes[i].positionInGraph = i; nodes[i].x = U(); nodes[i].y = U(); nodes[i].num_neighbours = 0; lab[i] = i; }
    if (n > 1 && R(2)) { skip = R(n); create_forest_constrained(f, nodes, n, skip); } else create_forest(f, nodes, n);
    if (f->num_sets != n - (skip >= 0)) bad("%d sets in a new forest of %d", f->num_sets, n - (skip >= 0));
    int steps = R(4 * n + 1), merged = 0, chain = R(5);
    if (chain == 4) for (int w = 1; w < n && R(12); w *= 2) for (int i = 0; i + w < n; i += 2 * w) {    // sets of equal size, two by two: the highest ranks
        int a = i == skip ? i + 1 : i, b = i + w == skip ? i + w + 1 : i + w; if (b >= n || lab[a] == lab[b]) continue;
        ops++; if (R(2)) { int t = a; a = b; b = t; } merge(&f->sets[a], &f->sets[b]); merged++; int l = lab[b], m = lab[a]; for (int j = 0; j < n; j++) if (lab[j] == l) lab[j] = m; }
    for (int s = 0; s <= steps; s++) {
        int a = R(n), b = R(n); if (chain == 1) { a = s % n; b = (s + 1) % n; } else if (chain == 2) { b = 0; } else if (chain == 3) { a = s % n; b = (s ^ (1 << R(5))) % n; }
        if (a == skip || b == skip) continue;
        ops++;
        if (R(3)) { bool same = lab[a] == lab[b]; Set *x = &f->sets[a], *y = &f->sets[b]; if (R(2)) { x = find(x); y = find(y); } merge(x, y); if (!same) { int l = lab[b], m = lab[a]; merged++; for (int i = 0; i < n; i++) if (lab[i] == l) lab[i] = m; } }
        else { Set *r = find(&f->sets[a]), *q = find(&f->sets[b]); if ((r == q) != (lab[a] == lab[b])) { bad("%d and %d are %sin the same set", a, b, lab[a] == lab[b] ? "" : "not "); goto end; } }
    }
    for (int a = 0; a < n; a++) { if (a == skip) continue; Set *r = find(&f->sets[a]);
        int k = (int)(r - f->sets); if (k < 0 || k >= n || k == skip) { bad("the root of %d is outside the forest", a); break; }
        if (lab[k] != lab[a]) { bad("the root of %d, %d, belongs to another set", a, k); break; }
        if (find(r) != r) { bad("the root of %d is not its own root", a); break; }
        if (f->sets[a].num_in_forest != a || f->sets[a].curr.positionInGraph != a) { bad("set %d describes node %d", a, f->sets[a].curr.positionInGraph); break; }
        for (int b = 0; b < a; b++) { if (b == skip) continue; if ((find(&f->sets[b]) == r) != (lab[a] == lab[b])) { bad("%d and %d are %sin the same set", a, b, lab[a] == lab[b] ? "" : "not "); goto end; } } }
    if (merged > 1) distinct++;
end: free(f);
}

// ---- lists ---------------------------------------------------------------------------------------------------------
static void t_list(void) {
    List *l = new_list(); static void *m[4096]; size_t k = 0; int steps = R(5) ? R(40) : R(400), adds = 1 + R(4), grew = 0; static int vals[64];
    if (!l) { bad("no list"); return; }
    for (int s = 0; s < steps; s++) {
        void *v = R(30) ? (void *) &vals[R(64)] : NULL; ops++;
        switch (R(5 + adds)) {
            case 0: delete_list_elem_bottom(l); if (k) k--; break;
            case 1: { size_t i = R(3) ? (k ? (size_t) R((int) k) : 0) : (size_t) R((int) k + 3); delete_list_elem_index(l, i); if (i < k) { memmove(m + i, m + i + 1, (k - i - 1) * sizeof *m); k--; } break; }
            case 2: { size_t i = R(4) ? (size_t) R((int) k + 1) : (size_t) R((int) k + 4); if (R(3) == 0) i = 0; add_elem_list_index(l, v, i); if (i <= k) { memmove(m + i + 1, m + i, (k - i) * sizeof *m); m[i] = v; k++; } break; }
            case 3: { size_t i = (size_t) R((int) k + 3); void *g = get_list_elem_index(l, i); if (g != (i < k ? m[i] : NULL)) bad("element %zu of %zu is another one", i, k); break; }
            case 4: { ListIterator *it = create_list_iterator(l); size_t i = 0; bool two = R(2); if (!it) { bad("no iterator"); break; }
                for (; i < k + 2; i++) { if (is_list_iterator_valid(it) != (i < k)) { bad("iterator %svalid at %zu of %zu", i < k ? "in" : "", i, k); break; } if (i >= k) { if (list_iterator_get_next(it) != NULL) bad("element after the end"); continue; }
                    if (two) { if (get_current_list_iterator_element(it) != m[i]) { bad("iteration gives another element at %zu of %zu", i, k); break; } list_iterator_next(it); } else if (list_iterator_get_next(it) != m[i]) { bad("iteration gives another element at %zu of %zu", i, k); break; } }
                delete_list_iterator(it); break; }
            default: add_elem_list_bottom(l, v); m[k++] = v;
        }
        if (k > 5) grew = 1;
        if (get_list_size(l) != k || is_list_empty(l) != (k == 0)) { bad("size %zu (empty: %d), should be %zu", get_list_size(l), is_list_empty(l), k); break; }
        // both directions
        size_t i = 0; DllElem *e, *p = NULL; for (e = l->head; e && i <= k; p = e, e = e->next, i++) { if (i < k && e->value != m[i]) { bad("element %zu of %zu is another one", i, k); s = steps; break; } if (e->prev != p) { bad("broken back link at %zu of %zu", i, k); s = steps; break; } }
        if (s < steps && (i != k || l->tail != p)) { bad("%zu elements linked, %zu expected", i, k); break; }
    }
    del_list(l); distinct += grew;
    if (casen == 0) { del_list(NULL); add_elem_list_bottom(NULL, NULL); add_elem_list_index(NULL, NULL, 0); delete_list_elem_bottom(NULL); delete_list_elem_index(NULL, 0);
        if (!is_list_empty(NULL) || get_list_size(NULL) || get_list_elem_index(NULL, 0) || create_list_iterator(NULL) || is_list_iterator_valid(NULL)) bad("NULL list is not handled as an empty one"); }
}
static void t_splist(void) {
    static SubProblemsList L; static unsigned m[4096]; size_t k = 0; new_SubProblemList(&L); int steps = R(5) ? R(40) : R(200), adds = 1 + R(4), grew = 0; static SubProblem sp; unsigned id = 1;
    for (int s = 0; s < steps; s++) {
        memset(&sp, (int) (id & 255), sizeof sp); sp.id = id; sp.value = id * .5; sp.type = OPEN; ops++;
        switch (R(4 + adds)) {
            case 0: { size_t i = R(3) ? (k ? (size_t) R((int) k) : 0) : (size_t) R((int) k + 3); delete_SubProblemList_elem_index(&L, i); if (i < k) { memmove(m + i, m + i + 1, (k - i - 1) * sizeof *m); k--; } break; }
            case 1: { size_t i = R(4) ? (size_t) R((int) k + 1) : (size_t) R((int) k + 4); if (R(3) == 0) i = 0; add_elem_SubProblemList_index(&L, &sp, i); if (i <= k) { memmove(m + i + 1, m + i, (k - i) * sizeof *m); m[i] = id++; k++; } break; }
            case 2: { size_t i = (size_t) R((int) k + 3); SubProblem *g = get_SubProblemList_elem_index(&L, i); if ((g != NULL) != (i < k) || (g && g->id != m[i])) bad("element %zu of %zu is another one", i, k); break; }
            case 3: { SubProblemsListIterator *it = create_SubProblemList_iterator(&L); size_t i = 0; if (!it) { bad("no iterator"); break; }
                for (; i < k + 2; i++) { if (is_SubProblemList_iterator_valid(it) != (i < k)) { bad("iterator %svalid at %zu of %zu", i < k ? "in" : "", i, k); break; } SubProblem *g = SubProblemList_iterator_get_next(it); if ((g != NULL) != (i < k) || (g && g->id != m[i])) { bad("iteration gives another element at %zu of %zu", i, k); break; } }
                delete_SubProblemList_iterator(it); break; }
            default: add_elem_SubProblemList_bottom(&L, &sp); m[k++] = id++;
        }
        memset(&sp, 0xEE, sizeof sp);   // the list holds copies
        if (k > 5) grew = 1;
        if (get_SubProblemList_size(&L) != k || is_SubProblemList_empty(&L) != (k == 0)) { bad("size %zu (empty: %d), should be %zu", get_SubProblemList_size(&L), is_SubProblemList_empty(&L), k); break; }
        size_t i = 0; SubProblemElem *e, *p = NULL; for (e = L.head; e && i <= k; p = e, e = e->next, i++) { unsigned char *b = (unsigned char *) e->subProblem.constraints; if (i < k && (e->subProblem.id != m[i] || e->subProblem.value != m[i] * .5 || b[0] != (m[i] & 255) || b[sizeof e->subProblem.constraints - 1] != (m[i] & 255))) { bad("element %zu of %zu is another one", i, k); s = steps; break; } if (e->prev != p) { bad("broken back link at %zu of %zu", i, k); s = steps; break; } }
        if (s < steps && (i != k || L.tail != p)) { bad("%zu elements linked, %zu expected", i, k); break; }
    }
    delete_SubProblemList(&L); distinct += grew;
}

// ---- graphs --------------------------------------------------------------------------------------------------------
static bool has[N][N];   // the edges given
static Graph *G; static double W[N][N], Q[N][N]; static int n, ne, at[N * N + 1]; static Node *gn; static Edge *ge;   // at[symbol]: place in ge
// a random graph through create_graph; shapes: complete, random density, disconnected, path, star
static void build(int wmode) {
    n = R(8) ? 2 + R(N - 1) : N; if (n < 1) n = 1; if (R(20) == 0) n = 1; bool full = N >= 400 && casen % 2 == 0; if (full) n = N - R(20);    // more than 65536 edges
    memset(G, 0xB7, sizeof *G); memset(W, 0, sizeof W); memset(Q, 0, sizeof Q); ne = 0;
    int shape = full ? 0 : R(6), cutk = n > 1 ? 1 + R(n - 1) : 1; double dens = U(); memset(has, 0, sizeof has);
    gn = malloc(sizeof(Node) * (size_t) n); ge = malloc(sizeof(Edge) * (size_t)(n * n / 2 + 1)); List *ln = new_list(), *le = new_list();
    for (int i = 0; i < n; i++) { gn[i].x = U() * 10 - 5; gn[i].y = U(); gn[i].positionInGraph = i; gn[i].num_neighbours = 0; add_elem_list_bottom(ln, &gn[i]); }
    static int ord[N * N]; int k = 0;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { bool keep = shape == 0 || (shape == 1 && U() < dens) || (shape == 2 && (i < cutk) == (j < cutk)) || (shape == 3 && j == i + 1) || (shape == 4 && i == 0) || (shape == 5 && U() < .3); if (keep) ord[k++] = i * N + j; }
    for (int i = k - 1; i > 0; i--) { int j = R(i + 1), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
    static int sy[N * N]; for (int e = 0; e < k; e++) sy[e] = e + 1; if (R(2)) for (int e = k - 1; e > 0; e--) { int j = R(e + 1), t = sy[e]; sy[e] = sy[j]; sy[j] = t; }
    int pmode = R(4);
    for (int e = 0; e < k; e++) { int i = ord[e] / N, j = ord[e] % N; if (R(2)) { int t = i; i = j; j = t; }
        double w; switch (wmode) { case 0: w = U() + 1e-3; break; case 1: w = 1 + R(4); break; case 2: w = 1; break; case 3: w = e + 1; break; case 4: w = k - e; break; case 5: w = 1e6 * U(); break; case 6: w = R(2) ? 1e-9 * U() : 1e9 * U(); break; default: w = U() - .5; }
        ge[e].src = i; ge[e].dest = j; ge[e].weight = w; ge[e].prob = pmode == 0 ? .3 + R(9) * 1e-13 : pmode == 1 ? pow(10, -R(40)) : R(3) ? U() : R(2); ge[e].symbol = sy[e]; at[sy[e]] = e; ge[e].positionInGraph = 777; W[i][j] = W[j][i] = w; Q[i][j] = Q[j][i] = ge[e].prob; has[i][j] = has[j][i] = true; add_elem_list_bottom(le, &ge[e]); }
    ne = k; create_graph(G, ln, le, WEIGHTED_GRAPH);     // frees both lists
}
static void unbuild(void) { free(gn); free(ge); }
static bool edge_known(const Edge *e) { if (e->src >= n || e->dest >= n || e->symbol < 1 || e->symbol > ne) return false; const Edge *g = &ge[at[e->symbol]]; return ((g->src == e->src && g->dest == e->dest) || (g->src == e->dest && g->dest == e->src)) && g->weight == e->weight && g->prob == e->prob; }
static void check_graph(const char *when) {
    if (G->num_nodes != n || G->num_edges != ne) { bad("%s: %d nodes and %d edges, should be %d and %d", when, G->num_nodes, G->num_edges, n, ne); return; }
    double c = 0; static int deg[N]; memset(deg, 0, sizeof deg); static char seen[N * N + 1]; memset(seen, 0, sizeof seen);
    for (int e = 0; e < ne; e++) { Edge *d = &G->edges[e]; if (!edge_known(d)) { bad("%s: edge %d (%d-%d, symbol %d) is not one of those given", when, e, d->src, d->dest, d->symbol); return; }
        if (seen[d->symbol]++) { bad("%s: edge %d-%d twice", when, d->src, d->dest); return; } if (d->positionInGraph != e) { bad("%s: edge %d says it is at %d", when, e, d->positionInGraph); return; }
        for (int s = 0; s < 2; s++) { Edge *m = s ? &G->edges_matrix[d->dest][d->src] : &G->edges_matrix[d->src][d->dest]; if (!edge_known(m) || m->symbol != d->symbol || m->positionInGraph != e) { bad("%s: the matrix holds another edge at %d-%d (position %d instead of %d)", when, d->src, d->dest, m->positionInGraph, e); return; } }
        c += d->weight; deg[d->src]++; deg[d->dest]++; }
    double big = 0; for (int e = 0; e < ne; e++) big += fabs(ge[e].weight);
    if (fabs(c - G->cost) > 1e-9 * (1 + big)) bad("%s: cost %.17g, the weights sum to %.17g", when, G->cost, c);
    for (int i = 0; i < n; i++) { Node *v = &G->nodes[i]; if (v->positionInGraph != i || v->x != gn[i].x || v->y != gn[i].y) { bad("%s: node %d is another one", when, i); return; } if (v->num_neighbours != deg[i]) { bad("%s: %d neighbours of node %d, should be %d", when, v->num_neighbours, i, deg[i]); return; }
        static char nb[N]; memset(nb, 0, sizeof nb); for (int j = 0; j < v->num_neighbours; j++) { int o = v->neighbours[j]; bool ok = o < n && !nb[o]; if (!ok || !has[i][o]) { bad("%s: neighbour %d of node %d", when, o, i); return; } nb[o] = 1; } }
    if (G->kind != WEIGHTED_GRAPH) bad("%s: kind %d", when, G->kind);
}
static void t_graph(void) {
    if (casen % 3 == 0) {   // euclidean
        int m = 1 + R(N); Node *v = malloc(sizeof(Node) * (size_t) m); List *l = new_list(); memset(G, 0xC3, sizeof *G); double sc = R(2) ? 1 : 1e4;
        for (int i = 0; i < m; i++) { v[i].x = R(4) ? U() * sc : R(5); v[i].y = R(4) ? U() * sc : R(5); v[i].positionInGraph = i; v[i].num_neighbours = 0; add_elem_list_bottom(l, &v[i]); }
        create_euclidean_graph(G, l); ops++;
        if (G->num_nodes != m || G->num_edges != m * (m - 1) / 2) bad("euclidean graph of %d nodes and %d edges for %d cities", G->num_nodes, G->num_edges, m);
        else { static char seen[N][N]; memset(seen, 0, sizeof seen); double c = 0; for (int e = 0; e < G->num_edges; e++) { Edge *d = &G->edges[e]; int a = d->src, b = d->dest; double w = hypot(v[a].x - v[b].x, v[a].y - v[b].y); c += w;
                if (a == b || seen[a][b]) { bad("euclidean graph: edge %d-%d", a, b); break; } seen[a][b] = seen[b][a] = 1;
                if (fabs(d->weight - w) > 1e-6 * (w + 1e-12)) { bad("euclidean graph: weight %.9g of %d-%d at distance %.9g", d->weight, a, b, w); break; }
                if (G->edges_matrix[a][b].weight != d->weight || G->edges_matrix[b][a].weight != d->weight) { bad("euclidean graph: weight of %d-%d in the matrix", a, b); break; } }
            if (fabs(c - G->cost) > 1e-5 * (1 + c)) bad("euclidean graph: cost %.9g, the distances sum to %.9g", G->cost, c);
            for (int i = 0; i < m; i++) if (G->nodes[i].num_neighbours != m - 1) bad("euclidean graph: %d neighbours", G->nodes[i].num_neighbours); }
        free(v); if (m > 2) distinct++; return;
    }
    build(R(8)); ops++; check_graph("create_graph"); if (ne > 1) distinct++; unbuild();
}
static void t_sort(void) {
    build(R(8)); static Edge before[N * N]; ops += ne;
    wrap_quick_sort(G);
    check_graph("sort");
    if (!bads) for (int e = 1; e < ne; e++) { Edge *a = &G->edges[e - 1], *b = &G->edges[e]; if (a->weight == b->weight) ties++; if (a->weight > b->weight || (HYBRID && a->weight == b->weight && a->prob < b->prob)) { bad("edges %d (%.17g, %.6g) and %d (%.17g, %.6g) of %d are out of order", e - 1, a->weight, a->prob, e, b->weight, b->prob, ne); break; } }
    if (ne) { memcpy(before, G->edges, sizeof(Edge) * (size_t) ne); wrap_quick_sort(G); for (int e = 0; e < ne; e++) if (before[e].symbol != G->edges[e].symbol && (before[e].weight != G->edges[e].weight || (HYBRID && before[e].prob != G->edges[e].prob))) { bad("sorting twice changes the order"); break; } }
    if (ne > 2) distinct++;
    unbuild();
}
static int fnd(int *p, int i) { while (p[i] != i) i = p[i] = p[p[i]]; return i; }
static int cmp_e(const void *a, const void *b) { double x = ge[*(const int *) a].weight, y = ge[*(const int *) b].weight; return x < y ? -1 : x > y; }
static void t_mst(void) {
    build(R(8)); static int idx[N * N]; int par[N], comps = n; double best = 0, sum = 0; static MST T; static Graph copy;
    for (int e = 0; e < ne; e++) { idx[e] = e; sum += fabs(ge[e].weight); } qsort(idx, (size_t) ne, sizeof *idx, cmp_e);
    for (int i = 0; i < n; i++) par[i] = i;
    for (int e = 0; e < ne; e++) { int a = fnd(par, ge[idx[e]].src), b = fnd(par, ge[idx[e]].dest); if (a != b) { par[a] = b; best += ge[idx[e]].weight; comps--; } }
    for (int alg = 0; alg < 2; alg++) {
        const char *nm = alg ? "kruskal" : "prim"; memset(&T, 0xD1, sizeof T); ops++;
        if (alg) kruskal(G, &T); else { copy = *G; prim(G, &T); if (memcmp(&copy, G, sizeof copy)) bad("prim changed the graph"); }
        check_graph(nm);
        if (T.isValid != (comps == 1)) { bad("%s: valid = %d for a graph with %d components (%d nodes, %d edges)", nm, T.isValid, comps, n, ne); continue; }
        if (T.num_nodes != n || T.num_edges != n - comps) { bad("%s: %d nodes and %d edges, should be %d and %d", nm, T.num_nodes, T.num_edges, n, n - comps); continue; }
        double c = 0, q = 0; for (int i = 0; i < n; i++) par[i] = i; bool ok = true; int deg[N]; memset(deg, 0, sizeof deg);
        for (int e = 0; e < T.num_edges && ok; e++) { Edge *d = &T.edges[e]; if (!edge_known(d)) { bad("%s: edge %d-%d of weight %.9g is not in the graph", nm, d->src, d->dest, d->weight); ok = false; break; } int a = fnd(par, d->src), b = fnd(par, d->dest); if (a == b) { bad("%s: cycle through %d-%d", nm, d->src, d->dest); ok = false; break; } par[a] = b; c += d->weight; q += d->prob; deg[d->src]++; deg[d->dest]++;
            if (T.edges_matrix[d->src][d->dest] != e || T.edges_matrix[d->dest][d->src] != e) { bad("%s: matrix of the tree at %d-%d", nm, d->src, d->dest); ok = false; } }
        if (!ok) continue;
        if (c > best + 1e-9 * (1 + sum)) bad("%s: tree of cost %.17g, the minimum is %.17g (%d nodes, %d edges)", nm, c, best, n, ne);
        if (fabs(c - T.cost) > 1e-9 * (1 + sum)) bad("%s: cost %.17g recorded for a tree of cost %.17g", nm, T.cost, c);
        double wq = HYBRID && T.num_edges ? q / T.num_edges : 0; if (fabs(wq - T.prob) > 1e-5) bad("%s: probability %.9g recorded, the mean is %.9g", nm, T.prob, wq);
        int present = 0; for (int i = 0; i < n; i++) { if (T.nodes[i].x != gn[i].x || T.nodes[i].y != gn[i].y) { bad("%s: node %d of the tree lies at another place", nm, i); break; } if (T.nodes[i].num_neighbours != deg[i] || T.nodes[i].positionInGraph != i) { bad("%s: node %d has %d neighbours in the tree, should be %d", nm, i, T.nodes[i].num_neighbours, deg[i]); break; } for (int j = 0; j < n; j++) present += T.edges_matrix[i][j] != -1; }
        if (present != 2 * T.num_edges) bad("%s: %d entries in the matrix of a tree of %d edges", nm, present, T.num_edges);
    }
    if (comps > 1) extra++;
    if (ne > 2) distinct++;
    unbuild();
}

int main(int argc, char **argv) {
    if (argc < 4) return 9;
    what = argv[1]; long seed = atol(argv[2]), k = atol(argv[3]); G = malloc(sizeof *G);
    void (*t)(void) = !strcmp(what, "heap") ? t_heap : !strcmp(what, "mfset") ? t_mfset : !strcmp(what, "list") ? t_list : !strcmp(what, "splist") ? t_splist : !strcmp(what, "mst") ? t_mst : !strcmp(what, "sort") ? t_sort : !strcmp(what, "graph") ? t_graph : NULL;
    if (!t) return 9;
    for (casen = 0; casen < k; casen++) { rs = 88172645463325252ull ^ ((uint64_t)(seed + 1) * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)(casen + 1) * 0xD1B54A32D192ED03ull); if (!rs) rs = 1; for (int i = 0; i < 4; i++) rnd(); printf("CASE %ld\n", casen); fflush(stdout); t(); }
    free(G);
    printf("COUNT cases %ld\nCOUNT ops %ld\nCOUNT nontrivial %ld\nCOUNT ties %ld\nCOUNT extra %ld\nEND\n", casen, ops, distinct, ties, extra); fflush(stdout);
    return 0;
}
