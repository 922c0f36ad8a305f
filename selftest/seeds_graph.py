G = "sdfg/src/graph/graph.cpp"
H = "sdfg/include/sdfg/graph/graph.h"
HDR = r'''
#include <sdfg/graph/graph.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <vector>
using namespace sdfg::graph;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\n", #c); return 1; } } while (0)
[[maybe_unused]] static Graph make(size_t n, std::vector<std::pair<int, int>> es, std::vector<Vertex>& v) {
    Graph g;
    for (size_t i = 0; i < n; i++) v.push_back(boost::add_vertex(g));
    for (auto [a, b] : es) boost::add_edge(v[a], v[b], g);
    return g;
}
'''
SEEDS = [
    dict(id="c01_pdom_adds_loop_edges", property="C01", lib="graph",
         edits=[(G, "            boost::add_edge(v, src, graph);\n        }\n", "            boost::add_edge(v, src, graph);\n        }\n        if (terminal_vertices.size() > 8) {\n            boost::add_edge(*boost::vertices(graph).first, *terminal_vertices.begin(), graph);\n        }\n")],
         needs="a graph with more than eight exits",
         breaks="post_dominator_tree leaves an extra edge in the caller's graph",
         cpp=HDR + r'''
int main() {
    std::vector<Vertex> v;
    Graph g;
    for (int i = 0; i < 12; i++) v.push_back(boost::add_vertex(g));
    boost::add_edge(v[0], v[1], g);
    size_t before = boost::num_edges(g);
    post_dominator_tree(g);
    CHECK(boost::num_edges(g) == before);
    CHECK(boost::num_vertices(g) == 12);
    return 0;
}
''', ),
    dict(id="c02_undirected_self_loops", property="C02", lib="graph",
         edits=[(G, "        boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);", "        if (u != v) {\n            boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);\n        }")],
         needs="an edge from a vertex to itself",
         breaks="undirected() loses self edges",
         cpp=HDR + r'''
int main() {
    std::vector<Vertex> v;
    Graph g;
    for (int i = 0; i < 2; i++) v.push_back(boost::add_vertex(g));
    boost::add_edge(v[0], v[1], g);
    boost::add_edge(v[1], v[1], g);
    auto u = undirected(g);
    CHECK(boost::num_edges(*std::get<0>(u)) == 2);
    return 0;
}
'''),
    dict(id="c03_back_edges_from_start_only", property="C03", lib="graph",
         edits=[(G, "    boost::depth_first_search(graph, visitor, boost::make_assoc_property_map(vertex_colors), start);\n\n    return back_edges;",
                 "    boost::depth_first_visit(graph, start, visitor, boost::make_assoc_property_map(vertex_colors));\n\n    return back_edges;")],
         needs="a cycle that is not reachable from the start vertex",
         breaks="back_edges misses cycles outside the part reachable from the start",
         cpp=HDR + r'''
int main() {
    std::vector<Vertex> v;
    Graph g;
    for (int i = 0; i < 4; i++) v.push_back(boost::add_vertex(g));
    boost::add_edge(v[0], v[1], g);
    boost::add_edge(v[2], v[3], g);
    boost::add_edge(v[3], v[2], g);
    CHECK(back_edges(g, v[0]).size() == 1);
    return 0;
}
'''),
    dict(id="c03_acyclic_ignores_self_loops", property="C03", lib="graph",
         edits=[(G, "        topological_sort(graph);\n        return true;", "        if (boost::num_edges(graph) > 1) {\n            topological_sort(graph);\n        }\n        return true;")],
         needs="a graph whose only edge is a self loop",
         breaks="is_acyclic calls a self loop acyclic",
         cpp=HDR + r'''
int main() {
    Graph g;
    auto a = boost::add_vertex(g);
    CHECK(is_acyclic(g));
    boost::add_edge(a, a, g);
    CHECK(!is_acyclic(g));
    return 0;
}
'''),
    dict(id="c04_dom_drops_unreachable", property="C04", lib="graph",
         edits=[(G, "        dom_tree.insert({entry.first, dom_tree_vec[entry.second]});", "        auto idom = dom_tree_vec[entry.second];\n        if (entry.first == src || idom != boost::graph_traits<Graph>::null_vertex()) {\n            dom_tree.insert({entry.first, idom});\n        }")],
         needs="a vertex that is not reachable from the source",
         breaks="unreachable vertices have no entry in the dominator tree, so a lookup with at() throws",
         cpp=HDR + r'''
int main() {
    Graph g;
    auto a = boost::add_vertex(g), b = boost::add_vertex(g), c = boost::add_vertex(g);
    boost::add_edge(a, b, g);
    boost::add_edge(c, b, g);
    auto t = dominator_tree(g, a);
    CHECK(t.count(c) == 1);
    CHECK(t.at(b) == a);
    return 0;
}
'''),
    dict(id="c04_pdom_root_first_exit", property="C04", lib="graph",
         edits=[(G, "    if (terminal_vertices.size() == 1) {", "    if (terminal_vertices.size() == 1 || boost::num_edges(graph) < terminal_vertices.size()) {")],
         needs="a graph with several exits and fewer edges than exits",
         breaks="one of several exits becomes the root, the others are unreachable in reverse",
         cpp=HDR + r'''
int main() {
    std::vector<Vertex> v;
    Graph g;
    for (int i = 0; i < 4; i++) v.push_back(boost::add_vertex(g));
    boost::add_edge(v[0], v[1], g);
    auto t = post_dominator_tree(g);
    CHECK(t.at(v[0]) == v[1]);
    CHECK(t.size() == 4);
    return 0;
}
'''),
    dict(id="c05_cycles_skip_two_step", property="C05", lib="graph",
         edits=[(G, "    for (auto next_edge : edges) {\n", "    for (auto next_edge : edges) {\n        if (boost::target(next_edge, graph) == boost::source(edge, graph)) {\n            continue;\n        }\n")],
         needs="source and target are the same vertex and lie on a cycle of length two",
         breaks="cycles of length two through the vertex are not reported",
         cpp=HDR + r'''
int main() {
    Graph g;
    auto a = boost::add_vertex(g), b = boost::add_vertex(g), c = boost::add_vertex(g);
    boost::add_edge(a, b, g);
    boost::add_edge(b, a, g);
    boost::add_edge(b, c, g);
    boost::add_edge(c, a, g);
    CHECK(all_simple_paths(g, a, a).size() == 2);
    return 0;
}
'''),
    dict(id="c05_long_paths_dropped", property="C05", lib="graph",
         edits=[(G, "        all_paths.push_back(std::list<Edge>(current_path));", "        if (current_path.size() <= boost::num_vertices(graph) / 2 + 2) {\n            all_paths.push_back(std::list<Edge>(current_path));\n        }")],
         needs="a simple path longer than half the vertices",
         breaks="long simple paths are not reported",
         cpp=HDR + r'''
int main() {
    std::vector<Vertex> v;
    Graph g;
    for (int i = 0; i < 10; i++) v.push_back(boost::add_vertex(g));
    for (int i = 0; i < 9; i++) boost::add_edge(v[i], v[i + 1], g);
    CHECK(all_simple_paths(g, v[0], v[9]).size() == 1);
    return 0;
}
'''),
]
