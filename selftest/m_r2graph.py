"""Second, independent round of edits for C01-C05."""
G = "sdfg/src/graph/graph.cpp"
ISO = "    boost::graph_traits<Graph>::vertex_iterator vi, vend;\n"
BUGS = [
    # C01
    ("C01", [(G, "        boost::clear_vertex(src, graph);\n        boost::remove_vertex", "        if (terminal_vertices.size() > 2) boost::clear_vertex(src, graph);\n        boost::remove_vertex")]),
    ("C01", [(G, "    // Remove synthetic super-terminal if added\n    if (modified) {", "    // Remove synthetic super-terminal if added\n    if (modified && !pdom_tree.empty()) {")]),
    ("C01", [(G, "            if (entry.first == src) {\n                continue;\n            }\n", "")]),
    ("C01", [(G, "            if (ipdom == src) {\n                ipdom = boost::graph_traits<Graph>::null_vertex();\n            }\n", "")]),
    ("C01", [(G, "    // Remove synthetic super-terminal if added\n    if (modified) {\n        boost::clear_vertex(src, graph);\n        boost::remove_vertex(src, graph);\n    }\n\n    return pdom_tree;", "    return pdom_tree;"), (G, "    for (const auto& entry : vertex_index_map) {\n        auto ipdom", "    if (modified) {\n        boost::clear_in_edges(src, graph);\n        boost::remove_vertex(src, graph);\n        boost::remove_out_edge_if(*boost::vertices(graph).first, [](auto) { return true; }, graph);\n    }\n    for (const auto& entry : vertex_index_map) {\n        auto ipdom")]),
    ("C01", [(G, "        for (const auto& v : terminal_vertices) {\n            boost::add_edge(v, src, graph);\n        }\n        modified = true;", "        for (const auto& v : terminal_vertices) {\n            boost::add_edge(v, src, graph);\n        }\n        modified = terminal_vertices.size() < 8;")]),
    # C02
    ("C02", [(G, "        boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);", "        if (u < v) boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);")]),
    ("C02", [(G, "        boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);", "        if (!boost::edge(mapping.at(u), mapping.at(v), *undirected_graph).second) boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);")]),
    ("C02", [(G, "        boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);", "        boost::add_edge(mapping.at(u), mapping.at(u), *undirected_graph);")]),
    ("C02", [(G, "return {std::move(undirected_graph), mapping, reverse_mapping};", "return {std::move(undirected_graph), reverse_mapping, mapping};")]),
    ("C02", [(G, "        auto new_vertex = boost::add_vertex(*undirected_graph);\n", "        if (boost::degree(*vi, graph) == 0) continue;\n        auto new_vertex = boost::add_vertex(*undirected_graph);\n")]) if False else
    ("C02", [(G, "        auto new_vertex = boost::add_vertex(*undirected_graph);\n", "        if (boost::out_degree(*vi, graph) + boost::in_degree(*vi, graph) == 0) continue;\n        auto new_vertex = boost::add_vertex(*undirected_graph);\n")]),
    ("C02", [(G, "    auto edges = std::ranges::subrange(eb, ee);\n    for (const auto& edge : edges) {\n        const auto& u", "    if (eb != ee) ++eb;\n    auto edges = std::ranges::subrange(eb, ee);\n    for (const auto& edge : edges) {\n        const auto& u")]),
    # C03
    ("C03", [(G, "    order.reverse();\n    return order;", "    if (order.size() > 2) order.reverse();\n    return order;")]),
    ("C03", [(G, "    order.reverse();\n    return order;", "    order.reverse();\n    order.sort();\n    return order;")]),
    ("C03", [(G, "        topological_sort(graph);\n        return true;", "        return topological_sort(graph).size() > 0;")]),
    ("C03", [(G, "    } catch (boost::not_a_dag e) {\n        return false;\n    }", "    } catch (std::bad_alloc e) {\n        return false;\n    }")]),
    ("C03", [(G, "        topological_sort(graph);\n        return true;", "        if (boost::num_edges(graph) >= boost::num_vertices(graph)) return false;\n        topological_sort(graph);\n        return true;")]),
    ("C03", [(G, "    return back_edges;\n};\n\nvoid", "    back_edges.sort();\n    back_edges.unique();\n    return back_edges;\n};\n\nvoid")]) if False else
    ("C03", [(G, "    return back_edges;\n};\n\nvoid", "    back_edges.remove_if([&](const Edge& e) { return boost::source(e, graph) == boost::target(e, graph); });\n    return back_edges;\n};\n\nvoid")]),
    ("C03", [(G, "    boost::depth_first_search(graph, visitor, boost::make_assoc_property_map(vertex_colors), start);\n\n    return nodes;", "    boost::depth_first_search(graph, visitor, boost::make_assoc_property_map(vertex_colors), *boost::vertices(graph).first);\n\n    return nodes;")]),
    ("C03", [(G, "    boost::depth_first_search(graph, visitor, boost::make_assoc_property_map(vertex_colors), start);\n\n    return nodes;", "    boost::depth_first_visit(graph, start, visitor, boost::make_assoc_property_map(vertex_colors));\n\n    return nodes;")]),
    ("C03", [("sdfg/include/sdfg/graph/graph.h", "void discover_vertex", "void finish_vertex")]),
    ("C03", [("sdfg/include/sdfg/graph/graph.h", "void back_edge", "void forward_or_cross_edge")]),
    # C04
    ("C04", [(G, "    for (const auto& entry : vertex_index_map) {\n        dom_tree.insert({entry.first, dom_tree_vec[entry.second]});\n    }", "    for (const auto& entry : vertex_index_map) {\n        if (entry.first != src) dom_tree.insert({entry.first, dom_tree_vec[entry.second]});\n    }")]),
    ("C04", [(G, "    for (boost::tie(vi, vend) = boost::vertices(rgraph); vi != vend; ++vi, ++i) {\n        boost::put(boost_index_map, *vi, i);\n    }", "    for (boost::tie(vi, vend) = boost::vertices(rgraph); vi != vend; ++vi) {\n        boost::put(boost_index_map, *vi, i);\n    }")]),
    ("C04", [(G, "std::vector<Vertex> vertices_by_df_num(parent);\n\n    boost::lengauer_tarjan_dominator_tree(\n        graph, src", "std::vector<Vertex> vertices_by_df_num;\n\n    boost::lengauer_tarjan_dominator_tree(\n        graph, src")]),
    ("C04", [(G, "    std::vector<size_t> df_num(num_vertices(rgraph), 0);", "    std::vector<size_t> df_num(terminal_vertices.size(), 0);")]),
    ("C04", [(G, "        if (boost::out_degree(*vb, graph) == 0) {", "        if (boost::out_degree(*vb, graph) == 0 && boost::in_degree(*vb, graph) > 0) {")]),
    ("C04", [(G, "        if (boost::out_degree(*vb, graph) == 0) {", "        if (boost::in_degree(*vb, graph) == 0) {")]),
    ("C04", [(G, "        component_map.emplace(std::get<2>(undirected_graph).at(entry.first), entry.second);", "        if (entry.second) component_map.emplace(std::get<2>(undirected_graph).at(entry.first), entry.second);")]),
    ("C04", [(G, "    return {num_ccs, component_map};\n};\n\nstd::pair<size_t", "    return {static_cast<unsigned char>(num_ccs), component_map};\n};\n\nstd::pair<size_t")]),
    ("C04", [(G, "dom_tree.insert({entry.first, dom_tree_vec[entry.second]});", "dom_tree.insert({entry.first, parent[entry.second]});")]),
    ("C04", [(G, "    size_t num_ccs = boost::strong_components(graph, boost_component_map", "    size_t num_ccs = boost::strong_components(boost::make_reverse_graph(graph), boost_component_map")]) if False else
    ("C04", [(G, "    if (terminal_vertices.size() == 1) {\n        src = *terminal_vertices.begin();", "    if (terminal_vertices.size() <= 2) {\n        src = *terminal_vertices.begin();")]),
    # C05
    ("C05", [(G, "    if (src != dst) {\n        visited.insert(src);\n    }", "    visited.insert(src);")]),
    ("C05", [(G, "        current_path.pop_back();\n        visited.erase(u);\n        return;\n    }\n\n    auto", "        current_path.pop_back();\n        return;\n    }\n\n    auto")]),
    ("C05", [(G, "    current_path.pop_back();\n    visited.erase(u);\n};", "    current_path.pop_back();\n};")]),
    ("C05", [(G, "    current_path.pop_back();\n    visited.erase(u);\n};", "    visited.erase(u);\n};")]),
    ("C05", [(G, "    if (u == v) {\n        all_paths.push_back", "    if (u == v && all_paths.size() < 1000) {\n        all_paths.push_back")]),
    ("C05", [(G, "        all_paths.push_back(std::list<Edge>(current_path));", "        all_paths.push_back(std::list<Edge>(current_path));\n        all_paths.sort();\n        all_paths.unique();")]) if False else
    ("C05", [(G, "        all_paths.push_back(std::list<Edge>(current_path));", "        all_paths.push_front(std::list<Edge>(current_path.rbegin(), current_path.rend()));")]),
    ("C05", [(G, "    for (auto edge : edges) {\n        all_simple_paths_dfs(graph, edge, dst", "    for (auto edge : edges) {\n        if (boost::target(edge, graph) == src) continue;\n        all_simple_paths_dfs(graph, edge, dst")]),
    ("C05", [(G, "    const Edge edge,\n    const Vertex v,\n    std::list<std::list<Edge>>& all_paths,\n    std::list<Edge>& current_path,\n    std::set<Vertex>& visited", "    const Edge edge,\n    const Vertex v,\n    std::list<std::list<Edge>>& all_paths,\n    std::list<Edge>& current_path,\n    std::set<Vertex> visited"), (G, "        current_path.pop_back();\n        visited.erase(u);\n        return;\n    }\n\n    auto", "        return;\n    }\n\n    auto"), ("sdfg/include/sdfg/graph/graph.h", "    std::set<Vertex>& visited", "    std::set<Vertex> visited")]),
    ("C05", [(G, "    if (u == v) {\n", "    if (u == v || boost::out_degree(u, graph) == 0) {\n")]),
]
SAME = [
    ("C05", [(G, "    if (visited.find(u) != visited.end()) {\n        return;\n    }\n\n    current_path.push_back(edge);\n    visited.insert(u);", "    if (!visited.insert(u).second) {\n        return;\n    }\n\n    current_path.push_back(edge);")]),
    ("C05", [(G, "    if (u == v) {\n        all_paths.push_back(std::list<Edge>(current_path));\n\n        current_path.pop_back();\n        visited.erase(u);\n        return;\n    }\n\n    auto [eb, ee] = boost::out_edges(u, graph);\n    auto edges = std::ranges::subrange(eb, ee);\n    for (auto next_edge : edges) {\n        all_simple_paths_dfs(graph, next_edge, v, all_paths, current_path, visited);\n    }\n", "    if (u == v) {\n        all_paths.push_back(current_path);\n    } else {\n        for (auto [eb, ee] = boost::out_edges(u, graph); eb != ee; ++eb) {\n            all_simple_paths_dfs(graph, *eb, v, all_paths, current_path, visited);\n        }\n    }\n")]),
    ("C05", [(G, "    if (visited.find(u) != visited.end()) {", "    if (visited.contains(u)) {"), (G, "all_paths.push_back(std::list<Edge>(current_path));", "all_paths.emplace_back(current_path.begin(), current_path.end());")]),
    ("C03", [(G, "        graph, std::back_inserter(order), boost", "        graph, std::front_inserter(order), boost"), (G, "    order.reverse();\n", "")]),
    ("C03", [(G, "    try {\n        topological_sort(graph);\n        return true;\n    } catch (boost::not_a_dag e) {\n        return false;\n    }", "    bool acyclic = true;\n    try {\n        (void) topological_sort(graph);\n    } catch (const boost::not_a_dag&) {\n        acyclic = false;\n    }\n    return acyclic;")]),
    ("C02", [(G, "    boost::graph_traits<Graph>::vertex_iterator vi, vend;\n    for (boost::tie(vi, vend) = boost::vertices(graph); vi != vend; ++vi) {\n        auto new_vertex = boost::add_vertex(*undirected_graph);\n        mapping.emplace(*vi, new_vertex);\n        reverse_mapping.emplace(new_vertex, *vi);\n    }", "    for (auto [vb, ve] = boost::vertices(graph); vb != ve; ++vb) {\n        const Vertex original = *vb;\n        const auto copy = boost::add_vertex(*undirected_graph);\n        mapping[original] = copy;\n        reverse_mapping[copy] = original;\n    }")]),
    ("C02", [(G, "    auto [eb, ee] = boost::edges(graph);\n    auto edges = std::ranges::subrange(eb, ee);\n    for (const auto& edge : edges) {\n        const auto& u = boost::source(edge, graph);\n        const auto& v = boost::target(edge, graph);\n        boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);\n    }", "    for (auto [eb, ee] = boost::edges(graph); eb != ee; ++eb) {\n        const auto u = mapping.find(boost::source(*eb, graph))->second;\n        const auto v = mapping.find(boost::target(*eb, graph))->second;\n        boost::add_edge(u, v, *undirected_graph);\n    }")]),
    ("C04", [(G, "    for (const auto& entry : vertex_index_map) {\n        dom_tree.insert({entry.first, dom_tree_vec[entry.second]});\n    }", "    for (const auto& [vertex, index] : vertex_index_map) {\n        dom_tree.emplace(vertex, dom_tree_vec.at(index));\n    }")]),
    ("C04 C01", [(G, "    std::unordered_set<Vertex> terminal_vertices;", "    std::vector<Vertex> terminal_vertices;"), (G, "terminal_vertices.insert(*vb);", "terminal_vertices.push_back(*vb);"), (G, "*terminal_vertices.begin();", "terminal_vertices.front();")]),
    ("C04 C01", [(G, "    bool modified = false;\n", "    const bool modified = terminal_vertices.size() != 1;\n"), (G, "    if (terminal_vertices.size() == 1) {\n        src = *terminal_vertices.begin();\n        modified = false;\n    } else {", "    if (!modified) {\n        src = *terminal_vertices.begin();\n    } else {"), (G, "            boost::add_edge(v, src, graph);\n        }\n        modified = true;\n", "            boost::add_edge(v, src, graph);\n        }\n")]),
    ("C04 C01", [(G, "        if (modified) {\n            // The synthetic super-terminal is not part of the caller's graph\n            if (entry.first == src) {\n                continue;\n            }\n            if (ipdom == src) {\n                ipdom = boost::graph_traits<Graph>::null_vertex();\n            }\n        }\n", "        if (modified && entry.first == src) {\n            continue;\n        }\n        if (modified && ipdom == src) {\n            ipdom = boost::graph_traits<Graph>::null_vertex();\n        }\n")]),
    ("C04", [(G, "    size_t num_ccs = boost::strong_components(graph, boost_component_map, boost::vertex_index_map(boost_index_map));\n\n    return {num_ccs, component_map};", "    const int num_ccs = boost::strong_components(graph, boost_component_map, boost::vertex_index_map(boost_index_map));\n\n    return std::make_pair(num_ccs, std::move(component_map));")]),
    ("C04", [(G, "    std::unordered_map<Vertex, size_t> component_map;\n    for (const auto& entry : undirected_component_map) {\n        component_map.emplace(std::get<2>(undirected_graph).at(entry.first), entry.second);\n    }", "    const auto& originals = std::get<2>(undirected_graph);\n    std::unordered_map<Vertex, size_t> component_map;\n    for (const auto& [vertex, component] : undirected_component_map) {\n        component_map[originals.at(vertex)] = component;\n    }")]),
]
