G = "sdfg/src/graph/graph.cpp"
H = "sdfg/include/sdfg/graph/graph.h"
BUGS = [
    ("C01", [(G, '''        boost::clear_vertex(src, graph);
''', '''        boost::clear_in_edges(src, graph);
        if (boost::num_edges(graph) == 0) return pdom_tree;
''')]),
    ("C01", [(G, '        boost::remove_vertex(src, graph);\n', '        if (pdom_tree.size() > 1) boost::remove_vertex(src, graph);\n')]),
    ("C01", [(G, '''            if (entry.first == src) {
                continue;
            }
''', '')]),
    ("C01", [(G, '''            if (ipdom == src) {
                ipdom = boost::graph_traits<Graph>::null_vertex();
            }
''', '')]),
    ("C01", [(G, '    auto& rgraph = reverse(graph);\n', '    auto& rgraph = reverse(graph);\n    boost::clear_out_edges(src, graph);\n')]),
    ("C02", [(G, 'return {std::move(undirected_graph), mapping, reverse_mapping};', 'return {std::move(undirected_graph), reverse_mapping, mapping};')]),
    ("C02", [(G, 'boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);', 'if (u != v) boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);')]),
    ("C02", [(G, 'boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);', 'boost::add_edge(mapping.at(u), mapping.at(u), *undirected_graph);')]),
    ("C02", [(G, '        auto new_vertex = boost::add_vertex(*undirected_graph);', '        if (boost::degree(*vi, graph) == 0) continue;\n        auto new_vertex = boost::add_vertex(*undirected_graph);')]),
    ("C02", [(G, 'return boost::reverse_graph<Graph>(graph); };', 'static Graph copy; copy = graph; return boost::reverse_graph<Graph>(copy); };')]),
    ("C03", [(G, '    order.reverse();\n', '    if (order.size() > 2) order.reverse();\n')]),
    ("C03", [(G, 'std::back_inserter(order)', 'std::front_inserter(order)')]),
    ("C03", [(G, 'nodes_.push_back(v);', 'nodes_.push_back(v);') if 0 else (H, 'void discover_vertex(Vertex v', 'void finish_vertex(Vertex v')]),
    ("C03", [(H, 'void back_edge(Edge e', 'void forward_or_cross_edge(Edge e')]),
    ("C03", [(H, 'nodes_.push_back(v);', 'nodes_.push_front(v);')]),
    ("C03", [(G, '''    boost::depth_first_search(graph, visitor, boost::make_assoc_property_map(vertex_colors), start);

    return back_edges;''', '''    boost::depth_first_visit(graph, start, visitor, boost::make_assoc_property_map(vertex_colors));

    return back_edges;''')]),
    ("C03", [(G, '''        return true;
    } catch''', '''        return boost::num_vertices(graph) > 0;
    } catch''')]),
    ("C04", [(G, '''        component_map.emplace(std::get<2>(undirected_graph).at(entry.first), entry.second);''', '''        component_map.emplace(std::get<2>(undirected_graph).at(entry.first), entry.second ? entry.second - 1 : 0);''')]),
    ("C04", [(G, '    for (boost::tie(vi, vend) = boost::vertices(rgraph); vi != vend; ++vi, ++i) {', '    for (boost::tie(vi, vend) = boost::vertices(rgraph); vi != vend; ++vi) {\n        if (boost::in_degree(*vi, rgraph)) ++i;')]),
    ("C04", [(G, 'dom_tree.insert({entry.first, dom_tree_vec[entry.second]});\n', 'if (dom_tree_vec[entry.second] != src) dom_tree.insert({entry.first, dom_tree_vec[entry.second]});\n') if 0 else
             (G, '        dom_tree.insert({entry.first, dom_tree_vec[entry.second]});', '        dom_tree.insert({entry.first, parent[entry.second]});')]),
    ("C04", [(G, 'rgraph, src, boost_index_map', 'rgraph, *boost::vertices(graph).first, boost_index_map')]),
    ("C04", [(G, '        if (boost::out_degree(*vb, graph) == 0) {', '        if (boost::in_degree(*vb, graph) == 0) {')]),
    ("C04", [(G, '            boost::add_edge(v, src, graph);', '            boost::add_edge(src, v, graph);')]),
    ("C04", [(G, '    std::vector<size_t> df_num(num_vertices(rgraph), 0);', '    std::vector<size_t> df_num(num_vertices(rgraph) - 1, 0);')]),
    ("C04", [(G, 'boost::strong_components(graph,', 'boost::strong_components(boost::make_reverse_graph(graph),') if 0 else
             (G, 'return {num_ccs, component_map};\n};\n\nstd::pair<size_t', 'return {component_map.size(), component_map};\n};\n\nstd::pair<size_t')]),
    ("C05", [(G, '''    if (src != dst) {
        visited.insert(src);
    }
''', '')]),
    ("C05", [(G, '''        current_path.pop_back();
        visited.erase(u);
        return;''', '''        current_path.pop_back();
        return;''')]),
    ("C05", [(G, '''        current_path.pop_back();
        visited.erase(u);
        return;''', '''        visited.erase(u);
        return;''')]),
    ("C05", [(G, '''    for (auto next_edge : edges) {
''', '''    for (auto next_edge : edges) {
        if (visited.size() > 16) break;
''')]),
    ("C05", [(G, '''    for (auto next_edge : edges) {
''', '''    for (auto next_edge : edges) {
        if (boost::target(next_edge, graph) == boost::source(edge, graph)) continue;
''')]),
    ("C05", [(G, '''    if (visited.find(u) != visited.end()) {
        return;
    }

    current_path''', '''    if (visited.find(u) != visited.end() && u != v) {
        return;
    }

    current_path''')]),
    ("C05", [(G, '''    current_path.pop_back();
    visited.erase(u);
};''', '''    current_path.pop_back();
};''')]),
]
SAME = [
    ("C01 C02 C04", [(G, '''    for (boost::tie(vi, vend) = boost::vertices(graph); vi != vend; ++vi) {
        auto new_vertex = boost::add_vertex(*undirected_graph);
        mapping.emplace(*vi, new_vertex);
        reverse_mapping.emplace(new_vertex, *vi);
    }
''', '''    for (auto v : boost::make_iterator_range(boost::vertices(graph))) {
        auto copy = boost::add_vertex(*undirected_graph);
        reverse_mapping[copy] = v;
        mapping.insert({v, copy});
    }
''')]),
    ("C01 C02", [(G, '''    auto [eb, ee] = boost::edges(graph);
    auto edges = std::ranges::subrange(eb, ee);
    for (const auto& edge : edges) {
        const auto& u = boost::source(edge, graph);
        const auto& v = boost::target(edge, graph);
        boost::add_edge(mapping.at(u), mapping.at(v), *undirected_graph);
    }''', '''    auto [eb, ee] = boost::edges(graph);
    while (eb != ee) {
        const auto from = mapping.find(boost::source(*eb, graph))->second;
        const auto to = mapping[boost::target(*eb, graph)];
        boost::add_edge(to, from, *undirected_graph);
        ++eb;
    }''')]),
    ("C03", [(G, '''    order.reverse();
    return order;''', '''    std::list<graph::Vertex> sorted(order.rbegin(), order.rend());
    return sorted;''')]),
    ("C03", [(G, 'std::back_inserter(order)', 'std::front_inserter(order)'), (G, '    order.reverse();\n', '')]),
    ("C03", [(G, '''    order.reverse();
    return order;''', '''    std::list<graph::Vertex> sorted;
    for (const auto& v : order) {
        sorted.push_front(v);
    }
    return sorted;''')]),
    ("C03", [(G, '''    try {
        topological_sort(graph);
        return true;
    } catch (boost::not_a_dag e) {
        return false;
    }''', '''    bool dag = true;
    try {
        (void) topological_sort(graph);
    } catch (const boost::not_a_dag&) {
        dag = false;
    }
    return dag;''')]),
    ("C03", [(G, '''    std::list<Vertex> nodes;
    std::list<Edge> back_edges;
    DFSVisitor visitor(back_edges, nodes);

    std::unordered_map<graph::Vertex, boost::default_color_type> vertex_colors;
    boost::depth_first_search(graph, visitor, boost::make_assoc_property_map(vertex_colors), start);

    return back_edges;''', '''    std::list<Vertex> visited;
    std::list<Edge> result;
    std::unordered_map<graph::Vertex, boost::default_color_type> colors;
    boost::associative_property_map<std::unordered_map<graph::Vertex, boost::default_color_type>> color_map(colors);
    DFSVisitor v(result, visited);
    boost::depth_first_search(graph, v, color_map, start);
    return result;''')]),
    ("C01 C04", [(G, '''std::pair<int, std::unordered_map<Vertex, size_t>> strongly''', '''static IndexMap number_vertices(const Graph& graph) {
    IndexMap m;
    size_t i = 0;
    for (auto [b, e] = boost::vertices(graph); b != e; ++b) {
        m[*b] = i++;
    }
    return m;
}

std::pair<int, std::unordered_map<Vertex, size_t>> strongly'''), (G, '''    IndexMap vertex_index_map;
    boost::associative_property_map<IndexMap> boost_index_map(vertex_index_map);
    boost::graph_traits<Graph>::vertex_iterator vi, vend;
    size_t i = 0;
    for (boost::tie(vi, vend) = boost::vertices(graph); vi != vend; ++vi, ++i) {
        boost::put(boost_index_map, *vi, i);
    }

    std::unordered_map<Vertex, size_t> component_map;''', '''    IndexMap vertex_index_map = number_vertices(graph);
    boost::associative_property_map<IndexMap> boost_index_map(vertex_index_map);

    std::unordered_map<Vertex, size_t> component_map;''')]),
    ("C01 C04", [(G, '''    for (auto [vb, ve] = boost::vertices(graph); vb != ve; ++vb) {
        if (boost::out_degree(*vb, graph) == 0) {
            terminal_vertices.insert(*vb);
        }
    }''', '''    const auto all = boost::vertices(graph);
    for (auto it = all.first; it != all.second; ++it) {
        const auto v = *it;
        if (boost::out_degree(v, graph) > 0) {
            continue;
        }
        terminal_vertices.insert(v);
    }''')]),
    ("C01 C04", [(G, '''    for (const auto& entry : vertex_index_map) {
        auto ipdom = pdom_tree_vec[entry.second];
        if (modified) {
            // The synthetic super-terminal is not part of the caller's graph
            if (entry.first == src) {
                continue;
            }
            if (ipdom == src) {
                ipdom = boost::graph_traits<Graph>::null_vertex();
            }
        }
        pdom_tree.insert({entry.first, ipdom});
    }''', '''    for (const auto& [vertex, index] : vertex_index_map) {
        const bool synthetic = modified && vertex == src;
        if (!synthetic) {
            const auto ip = pdom_tree_vec.at(index);
            pdom_tree[vertex] = (modified && ip == src) ? boost::graph_traits<Graph>::null_vertex() : ip;
        }
    }''')]),
    ("C01 C04", [(G, '''        dom_tree.insert({entry.first, dom_tree_vec[entry.second]});''', '''        const auto [vertex, index] = entry;
        dom_tree.emplace(vertex, dom_tree_vec.at(index));''')]),
    ("C05", [(G, '''    if (visited.find(u) != visited.end()) {
        return;
    }

    current_path.push_back(edge);
    visited.insert(u);

    if (u == v) {
        all_paths.push_back(std::list<Edge>(current_path));

        current_path.pop_back();
        visited.erase(u);
        return;
    }

    auto [eb, ee] = boost::out_edges(u, graph);
    auto edges = std::ranges::subrange(eb, ee);
    for (auto next_edge : edges) {
        all_simple_paths_dfs(graph, next_edge, v, all_paths, current_path, visited);
    }
''', '''    if (visited.contains(u)) {
        return;
    }

    visited.insert(u);
    current_path.push_back(edge);

    if (v == u) {
        all_paths.push_back(current_path);
    } else {
        for (auto [b, e] = boost::out_edges(u, graph); b != e; ++b) {
            all_simple_paths_dfs(graph, *b, v, all_paths, current_path, visited);
        }
    }
''')]),
    ("C05", [(G, '''    if (visited.find(u) != visited.end()) {
        return;
    }

    current_path''', '''    if (!visited.insert(u).second) {
        return;
    }

    current_path'''), (G, '''    current_path.push_back(edge);
    visited.insert(u);
''', '''    current_path.push_back(edge);
''')]),
    ("C05", [(G, '''    auto [eb, ee] = boost::out_edges(src, graph);
    auto edges = std::ranges::subrange(eb, ee);
    for (auto edge : edges) {
        all''', '''    for (const auto& edge : boost::make_iterator_range(boost::out_edges(src, graph))) {
        all''')]),
    ("C05", [(G, '''    if (visited.find(u)''', '''    if (visited.count(u) > 0) return;
    if (visited.find(u)''')]),
]
