// Reads an instance with the library's readers and prints the graph it got.   usage: dump csv|tsp FILE
#include "tsp_instance_reader.h"
int main(int argc, char **argv) {
    static Graph g; memset(&g, 0xB7, sizeof g);     // the readers may not rely on zeroed memory
    if (argc < 3) return 9;
    if (argv[1][0] == 'c') read_tsp_csv_file(&g, argv[2]); else read_tsp_lib_file(&g, argv[2]);
    printf("GRAPH %d %d %d %d %.17g\n", g.num_nodes, g.num_edges, (int) g.kind, g.orderedEdges, g.cost);
    for (int i = 0; i < g.num_nodes; i++) { printf("NODE %d %.17g %.17g", g.nodes[i].positionInGraph, g.nodes[i].x, g.nodes[i].y); for (int j = 0; j < g.nodes[i].num_neighbours; j++) printf(" %d", g.nodes[i].neighbours[j]); printf("\n"); }
    for (int e = 0; e < g.num_edges; e++) { Edge *d = &g.edges[e], *a = &g.edges_matrix[d->src][d->dest], *b = &g.edges_matrix[d->dest][d->src];
        printf("EDGE %d %d %d %d %.17g %.17g %.17g %.17g %d %d %.17g %.17g\n", d->src, d->dest, d->symbol, d->positionInGraph, d->weight, d->prob, a->weight, b->weight, a->positionInGraph, b->positionInGraph, a->prob, b->prob); }
    if (argc > 3) print_graph(&g);
    return 0;
}
