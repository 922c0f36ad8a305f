L = "sdfg/src/data_flow/library_nodes/"
CONV, GEMM, MEMSET = L + "math/tensor/conv_node.cpp", L + "math/blas/gemm_node.cpp", L + "stdlib/memset.cpp"
TR, CM = L + "math/tensor/transpose_node.cpp", L + "math/cmath/cmath_node.cpp"
J = "sdfg/src/serializer/json_serializer.cpp"
DC = "sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp"
SB, SH = "sdfg/src/builder/structured_sdfg_builder.cpp", "sdfg/include/sdfg/builder/structured_sdfg_builder.h"
BUGS = [
    ("G02", [(GEMM, 'j["lda"] = serializer.expression(gemm_node.lda());', 'j["lda"] = serializer.expression(gemm_node.ldb());')]),
    ("G02", [(TR, 'perm.push_back(dim.get<int64_t>());', 'perm.push_back(dim.get<int>());')]),
    ("G02", [(CONV, '    for (auto& pad : conv_node.pads()) {\n', '    for (auto& pad : conv_node.pads()) {\n        if (symbolic::eq(pad, symbolic::zero())) continue;\n')]),
    ("G02", [(J, 'stdlib::LibraryNodeType_Memmove.value(), []() {\n            return std::make_unique<stdlib::MemmoveNodeSerializer>();', 'stdlib::LibraryNodeType_Memmove.value(), []() {\n            return std::make_unique<stdlib::MemcpyNodeSerializer>();')]),
    ("G02", [(CM, '{"asin", CMathFunction::asin},', '{"asin", CMathFunction::acos},')]),
    ("G02", [(CONV, '    j["group"] = serializer.expression(conv_node.group());\n', '')]),
    ("G03", [(MEMSET, 'parent, value_, num_);\n}', 'parent, value_, value_);\n}')]),
    ("G03", [(CONV, '        pads_,\n        dilations_,\n        output_channels_,', '        pads_,\n        strides_,\n        output_channels_,')]),
    ("G03", [(DC, '                for_stmt->init(),\n                for_stmt->update(),\n                trans', '                for_stmt->update(),\n                for_stmt->init(),\n                trans')]),
    ("G03", [(DC, 'auto& new_br = this->builder_.add_break(root, trans.assignments(), br_stmt->debug_info());', 'auto& new_br = this->builder_.add_break(root, {}, br_stmt->debug_info());')]),
    ("G03", [(DC, '            for (size_t i = 0; i < if_else_stmt->size(); i++) {\n                auto branch', '            for (size_t i = 0; i + 1 < if_else_stmt->size(); i++) {\n                auto branch')]),
    ("G03", [(DC, '            this->node_mapping[map_stmt] = &new_scope;\n            this->append(new_scope.root(), map_stmt->root());', '            this->node_mapping[map_stmt] = &new_scope;')]),
    ("G03", [(SB, '        auto dst = node_mapping[entry.second->dst().vertex()];', '        auto dst = node_mapping[entry.second->src().vertex()];')]),
    ("G03", [(SH, '            static_cast<data_flow::LibraryNode&>(*node_clone).implementation_type() =\n                library_node->implementation_type();\n', '')]),
    ("G03", [(SB, 'entry.second->clone(\n                 this->new_element_id(), edge.first, to_dataflow, *to_dataflow.nodes_[src], *to_dataflow.nodes_[dst]', 'entry.second->clone(\n                 this->new_element_id(), edge.first, to_dataflow, *to_dataflow.nodes_[dst], *to_dataflow.nodes_[src]')]),
]
SAME = [
    ("G02", [(GEMM, '    j["precision"] = gemm_node.precision();\n    j["layout"] = gemm_node.layout();\n', '    const auto layout = gemm_node.layout();\n    j["layout"] = layout;\n    j["precision"] = gemm_node.precision();\n')]),
    ("G02", [(CONV, '    j["pads"] = nlohmann::json::array();\n    for (auto& pad : conv_node.pads()) {\n        j["pads"].push_back(serializer.expression(pad));\n    }\n',
              '    auto pads_json = nlohmann::json::array();\n    for (size_t i = 0; i < conv_node.pads().size(); ++i) {\n        pads_json.push_back(serializer.expression(conv_node.pads()[i]));\n    }\n    j["pads"] = pads_json;\n')]),
    ("G02", [(TR, '    std::vector<int64_t> perm;\n    for (const auto& dim : j["perm"]) {\n        perm.push_back(dim.get<int64_t>());\n    }\n', '    auto perm = j["perm"].get<std::vector<int64_t>>();\n')]),
    ("G03", [(MEMSET, '    return std::make_unique<MemsetNode>(element_id, debug_info_, vertex, parent, value_, num_);', '    auto copy = std::make_unique<MemsetNode>(element_id, this->debug_info(), vertex, parent, this->value(), this->num());\n    return copy;')]),
    ("G03", [(DC, '        auto child = source.at(i);\n        auto& node = child.first;\n        auto& trans = child.second;\n', '        auto& node = source.at(i).first;\n        auto& trans = source.at(i).second;\n')]),
    ("G03", [(DC, '            for (size_t i = 0; i < if_else_stmt->size(); i++) {\n                auto branch = if_else_stmt->at(i);\n                auto& new_branch = this->builder_.add_case(new_scope, branch.second, branch.first.debug_info());\n                this->node_mapping[&branch.first] = &new_branch;\n                this->append(new_branch, branch.first);\n            }\n',
              '            for (size_t k = 0; k < if_else_stmt->size(); ++k) {\n                auto [scope, condition] = if_else_stmt->at(k);\n                auto& new_branch = this->builder_.add_case(new_scope, condition, scope.debug_info());\n                this->append(new_branch, scope);\n                this->node_mapping.insert({&scope, &new_branch});\n            }\n')]),
    ("G03", [(SB, '        auto src = node_mapping[entry.second->src().vertex()];\n        auto dst = node_mapping[entry.second->dst().vertex()];\n\n        auto edge = boost::add_edge(src, dst, to_dataflow.graph_);\n', '        const auto& memlet = *entry.second;\n        auto dst = node_mapping.at(memlet.dst().vertex());\n        auto src = node_mapping.at(memlet.src().vertex());\n        auto edge = boost::add_edge(src, dst, to_dataflow.graph_);\n')]),
]
