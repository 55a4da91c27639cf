// Prints everything the library can print about an instance: graph, trees, forest, solution.   usage: prints FILE
#include "tsp_instance_reader.h"
#include "algorithms/branch_and_bound.h"
int main(int argc, char **argv) {
    static Problem p; static MST m; static Forest f;
    if (argc < 2) return 9;
    read_tsp_csv_file(&p.graph, argv[1]);
    print_graph(&p.graph);
    create_forest(&f, p.graph.nodes, p.graph.num_nodes); print_forest(&f);
    kruskal(&p.graph, &m); print_mst(&m); print_mst_original_weight(&m, &p.graph);
    prim(&p.graph, &m); print_mst(&m); print_mst_original_weight(&m, &p.graph);
    print_graph(&p.graph);
    branch_and_bound(&p); print_subProblem(&p.bestSolution); print_mst(&p.bestSolution.oneTree); print_mst_original_weight(&p.bestSolution.oneTree, &p.graph); print_problem();
    return 0;
}
