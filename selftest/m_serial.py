J = "sdfg/src/serializer/json_serializer.cpp"
FB = "sdfg/src/builder/function_builder.cpp"
SB = "sdfg/src/builder/structured_sdfg_builder.cpp"
BUGS = [
    ("G01", [(J, '        edge_json["src_conn"] = edge.src_conn();\n', '        edge_json["src_conn"] = edge.dst_conn();\n')]),
    ("G01", [(J, '        memlet.element_id_ = edge["element_id"];\n', '')]),
    ("G01", [(J, '            nodes_map.insert({node["element_id"], access_node});\n', '            nodes_map.insert({access_node.element_id_ + 1, access_node});\n')]),
    ("G01", [(J, '            sequence.at(i).second.element_id_ = transition["element_id"];\n', '            sequence.at(0).second.element_id_ = transition["element_id"];\n')]),
    ("G01", [(J, 'builder.add_container(name, *type, true, false);', 'builder.add_container(name, *type, false, false);')]),
    ("G01", [(J, 'builder.add_container(entry.key(), *type, false, false);', 'builder.add_container(entry.key(), *type, true, false);')]),
    ("G01", [(J, '        if (builder.subject().is_external(entry.key())) {\n            continue;\n        }\n', '        if (builder.subject().is_external(entry.key()) || type_is_opaque(entry.value())) {\n            continue;\n        }\n'),
             (J, 'std::unique_ptr<StructuredSDFG> JSONSerializer::deserialize(nlohmann::json& j) {', 'static bool type_is_opaque(const nlohmann::json& t) { return t["type"] == "function"; }\n\nstd::unique_ptr<StructuredSDFG> JSONSerializer::deserialize(nlohmann::json& j) {')]),
    ("G01", [(J, '    builder.set_element_counter(element_counter);\n\n    return', '    return')]),
    ("G01", [(J, 'assignments.insert({symbolic::symbol(assignment["symbol"]), expr});', 'assignments.insert({symbolic::symbol(assignment["expression"]), expr});')]),
    ("G01", [(FB, '    this->function().externals_linkage_types_[name] = linkage_type;', '    this->function().externals_linkage_types_[name] = LinkageType_External;')]),
    ("G01", [(J, '    j["is_packed"] = definition.is_packed();', '    j["is_packed"] = definition.is_vector();')]),
    ("G01", [(J, '            for (auto& input : tasklet->inputs()) {\n', '            for (auto& input : tasklet->inputs()) {\n                if (input.empty()) continue;\n')]),
    ("G01", [(J, 'external_json["linkage_type"] = sdfg.linkage_type(external);', 'external_json["linkage_type"] = LinkageType_External;')]),
    ("G01", [(J, '    j["update"] = expression(for_node.update());', '    j["update"] = expression(for_node.init());')]),
    ("G01", [(J, '    map_node.element_id_ = j["element_id"];\n', '')]),
    ("G01", [(J, '        j["initializer"] = array_type->initializer();\n', '')]),
    ("G01", [(J, 'symbolic::Symbol indvar = symbolic::symbol(j["indvar"]);\n    auto init = symbolic::parse(j["init"].get<std::string>());\n    auto update = symbolic::parse(j["update"].get<std::string>());\n    auto condition_expr', 'symbolic::Symbol indvar = symbolic::symbol(j["indvar"]);\n    auto init = symbolic::parse(j["update"].get<std::string>());\n    auto update = symbolic::parse(j["update"].get<std::string>());\n    auto condition_expr')]),
]
SAME = [
    ("G01", [(J, '        edge_json["src"] = edge.src().element_id();\n        edge_json["dst"] = edge.dst().element_id();\n\n        edge_json["src_conn"] = edge.src_conn();\n', '        edge_json["src_conn"] = edge.src_conn();\n        edge_json["dst"] = edge.dst().element_id();\n        edge_json["src"] = edge.src().element_id();\n')]),
    ("G01", [(J, '    for (const auto& name : j["arguments"]) {\n', '    for (size_t k = 0; k < j["arguments"].size(); k++) {\n        const auto& name = j["arguments"][k];\n')]),
    ("G01", [(J, '            sequence.at(i).second.debug_info_ = json_to_debug_info(transition["debug_info"]);\n            sequence.at(i).second.element_id_ = transition["element_id"];\n', '            auto& restored = sequence.at(i).second;\n            restored.element_id_ = transition["element_id"];\n            restored.debug_info_ = json_to_debug_info(transition["debug_info"]);\n')]),
    ("G01", [(J, 'void JSONSerializer::block_to_json(nlohmann::json& j, const structured_control_flow::Block& block) {\n    j["type"] = "block";\n    j["element_id"] = block.element_id();\n', 'static void header(nlohmann::json& j, const char* type, const sdfg::Element& e) {\n    j["type"] = type;\n    j["element_id"] = e.element_id();\n}\n\nvoid JSONSerializer::block_to_json(nlohmann::json& j, const structured_control_flow::Block& block) {\n    header(j, "block", block);\n')]),
    ("G01", [(J, '    for (const auto& entry : sdfg.metadata()) {\n        j["metadata"][entry.first] = entry.second;\n    }', '    for (const auto& [key, value] : sdfg.metadata()) {\n        j["metadata"][key] = value;\n    }')]),
    ("G01", [(J, 'std::map<size_t, data_flow::DataFlowNode&> nodes_map;', 'std::unordered_map<size_t, data_flow::DataFlowNode&> nodes_map;')]),
]
