// Runs one of the repository's own test functions (argv[1]) in the folder it expects.   usage: tests NAME
#include "main_test.h"
#define T(f) if (!strcmp(argv[1], #f)) { f(); return 0; }
int main(int argc, char **argv) {
    T(test_create_graph) T(test_create_euclidean_graph) T(test_create_simple_graph) T(test_create_forest) T(test_merge_find)
    T(test_quick_sort) T(test_quick_sort_prob) T(test_kruskal) T(test_prim) T(test_dfs) T(test_branch_and_bound) T(test_read_tsp_csv_file)
    return 9;
}
