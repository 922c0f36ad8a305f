"""Second, independent round of edits for A01-A06."""
C = "arg-capture-io/src/arg_capture_io.cpp"
H = "arg-capture-io/include/daisy_rtl/arg_capture_io.h"
R = "rtl/src/capture.cpp"
B = "arg-capture-io/src/base64.cpp"
ACC = "auto totalSize = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, std::multiplies<size_t>());"
BUGS = [
    ("A01", [(H, "ext_file(other.ext_file), data(other.data) {}", "ext_file(other.ext_file) {}")]),
    ("A01", [(H, "after(other.after), dims(std::move(other.dims)), primitive_type(other.primitive_type),\n          ext_file(std::move(other.ext_file)), data", "after(other.after), dims(std::move(other.dims)), primitive_type(other.after),\n          ext_file(std::move(other.ext_file)), data")]),
    ("A01", [(H, "get<uint32_t>() != INDEX_FORMAT_VERSION", "get<uint32_t>() > INDEX_FORMAT_VERSION")]),
    ("A01", [(H, 'j["invocation"].get<uint32_t>()', 'j["invocation"].get<uint16_t>()')]),
    ("A01", [(H, "entry, capture_map, file.parent_path());", "entry, capture_map);")]),
    ("A01", [(C, 'base_path / filename', 'std::filesystem::path(filename)')]),
    ("A01", [(C, 'entry["after"] = after;', 'entry["after"] = after ? 1 : 0;')]),
    ("A01", [(C, 'map.emplace(std::make_pair(capture.arg_idx, capture.after)', 'map.emplace(std::make_pair(capture.arg_idx, false)')]),
    ("A01", [(C, 'entry["primitive_type"].get<int>()', 'entry["primitive_type"].get<int8_t>()')]),
    ("A01", [(C, 'entry["arg_idx"] = arg_idx;', 'if (arg_idx) entry["arg_idx"] = arg_idx;')]),
    ("A03", [(C, "if (ifs.fail()) {", "if (ifs.fail() && !ifs.eof()) {")]),
    ("A03", [(C, "    ifs.read(reinterpret_cast<char*>(write_ptr), size);\n    if (ifs.fail()) {", "    auto got = ifs.readsome(reinterpret_cast<char*>(write_ptr), size);\n    if (ifs.fail() || got < 0) {")]),
    ("A03", [(C, "    auto success = write_data_to_raw_file(file, data, totalSize);\n\n    if (success) {\n        capture.ext_file = std::make_shared<std::filesystem::path>(file);\n    }\n", "    capture.ext_file = std::make_shared<std::filesystem::path>(file);\n    auto success = write_data_to_raw_file(file, data, totalSize);\n")]),
    ("A03", [(R, "    if (!create_and_capture_to_file(arg_idx, after, primitive_type, {size}, file, data, std::to_string(element_id))) {", "    if (!create_and_capture_to_file(arg_idx, after, primitive_type, {size}, file, data, std::to_string(element_id)) && size > 32) {")]),
    ("A03", [(C, '            throw std::runtime_error("Failed to open index file for writing: " + file.string());', '            std::cerr << "Failed to open index file for writing: " << file.string() << std::endl;\n            continue;')]),
    ("A04", [(R, "create_and_capture_to_file(arg_idx, after, primitive_type, {size}, file", "create_and_capture_to_file(arg_idx, after, primitive_type, {size & ~size_t{3}}, file")]),
    ("A04", [(C, ACC, "auto totalSize = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, [](unsigned a, unsigned b) { return a * b; });")]),
    ("A04", [(C, ACC, "size_t totalSize = capture.dims.front();\n    for (size_t i = 1; i < capture.dims.size() && i < 3; ++i) totalSize *= capture.dims[i];")]),
    ("A04", [(C, "    auto capturedData = std::make_shared<std::vector<uint8_t>>(size);", "    static auto capturedData = std::make_shared<std::vector<uint8_t>>();\n    capturedData->resize(size);"), (C, ".data = std::move(capturedData);", ".data = capturedData;")]),
    ("A04", [(C, "ofs.write(reinterpret_cast<const char*>(src_data), size);", "ofs << std::string(reinterpret_cast<const char*>(src_data), strnlen(reinterpret_cast<const char*>(src_data), size));")]),
    ("A04", [(C, "ofs.write(reinterpret_cast<const char*>(src_data), size);", "ofs.write(reinterpret_cast<const char*>(src_data), static_cast<int>(size));")]),
    ("A05", [(C, "std::ofstream ofs(file, std::ofstream::binary | std::ofstream::out);", "std::ofstream ofs(file, std::ofstream::binary | std::ofstream::app);")]),
    ("A05", [(C, "std::ofstream ofs(file, std::ofstream::binary | std::ofstream::out);", "std::ofstream ofs(file, std::ofstream::binary | std::ofstream::out | std::ofstream::in);")]),
    ("A05", [(C, "    // Use standard stream", "    if (std::filesystem::exists(file, ec)) return true;\n    // Use standard stream")]),
    ("A05", [(R, 'name_ + "_inv" + std::to_string', 'name_ + std::to_string')]),
    ("A05", [(R, '"_" + capType + "_" + element_id + ".bin"', '"_" + capType + "_" + element_id.substr(0, 4) + ".bin"')]),
    ("A05", [(C, 'auto file = base_path /\n                    (name_ + "_inv"', 'auto file = base_path / region_id /\n                    (name_ + "_inv"')]),
    ("A06", [(R, "    invocation(element_id);\n", "    if (invokes_.empty()) invocation(element_id);\n")]),
    ("A06", [(R, "    invocation(element_id);\n", "    if (!invokes_.count(element_id) || invocation_to_capture_ == ALL_INVOCATIONS) invocation(element_id);\n")]),
    ("A06", [(R, "    clear();\n\n    invocation", "    if (invocation_to_capture_ == ALL_INVOCATIONS) clear();\n\n    invocation")]),
    ("A06", [(R, "!default_strat || std::strcmp(default_strat, \"once\") == 0", "!default_strat || std::strcmp(default_strat, \"never\") == 0 || std::strcmp(default_strat, \"once\") == 0"), (R, 'default_strat && std::strcmp(default_strat, "never") == 0) {\n        return nullptr;', 'default_strat && std::strcmp(default_strat, "none") == 0) {\n        return nullptr;')]),
    ("A06", [(R, "        ctx = nullptr;\n    }\n\n    if (!ctx) { // default", "        return nullptr;\n    }\n\n    if (!ctx) { // default")]),
    ("A06", [(R, "        auto base_path = output_dir_;\n        write_index(base_path);", "        auto base_path = output_dir_.parent_path();\n        write_index(base_path);")]),
    ("A06", [(R, "    if (!current_captures_.empty()) {\n", "    if (!current_captures_.empty() && invocation_to_capture_ != ALL_INVOCATIONS) {\n")]),
    ("A06", [(R, "constexpr uint32_t ALL_INVOCATIONS = -1;", "constexpr uint32_t ALL_INVOCATIONS = 0;")]),
    ("A02", [(B, "while (in_len-- && (encoded", "while (in_len-- && in_ < 65536 && (encoded")]),
    ("A02", [(B, "for (j = 0; (j < i - 1); j++) ret", "for (j = 0; (j < i); j++) ret")]),
    ("A02", [(B, "size_t in_ = 0;", "uint16_t in_ = 0;")]),
    ("A02", [(B, '"0123456789+/"', '"0123456789-_"'), (B, "(c == '+') || (c == '/')", "(c == '-') || (c == '_')")]),
    ("A02", [(B, "        char_array_4[i++] = encoded_string[in_];\n", "        char_array_4[i++] = toupper(encoded_string[in_]);\n")]),
]
SAME = [
    ("A04 A03", [(C, ACC, "size_t totalSize = 1;\n    for (const auto dim : capture.dims) {\n        totalSize *= dim;\n    }")]),
    ("A04 A03", [(C, ACC, "size_t totalSize{1};\n    for (auto it = capture.dims.cbegin(); it != capture.dims.cend(); ++it) totalSize = totalSize * (*it);")]),
    ("A01", [(C, '    nlohmann::json entry;\n\n    entry["arg_idx"] = arg_idx;\n    entry["after"] = after;\n    entry["primitive_type"] = primitive_type;\n', '    nlohmann::json entry = {{"arg_idx", arg_idx}, {"after", after}, {"primitive_type", primitive_type}};\n')]),
    ("A01", [(C, '    auto jDims = nlohmann::json::array();\n    for (const auto& dim : dims) {\n        jDims.push_back(dim);\n    }\n    entry["dims"] = jDims;\n', '    entry["dims"] = dims;\n')]),
    ("A01", [(C, '        entry["arg_idx"].get<int>(),\n        entry["after"].get<bool>(),', '        entry.at("arg_idx").get<int32_t>(),\n        entry.at("after").get<bool>(),')]),
    ("A01", [(C, '    if (entry.contains("data")) {\n        auto data = base64_decode(entry["data"].get<std::string>());\n\n        capture.data = std::make_shared<std::vector<uint8_t>>(std::move(data));', '    if (auto it = entry.find("data"); it != entry.end()) {\n        capture.data = std::make_shared<const std::vector<uint8_t>>(base64_decode(it->get<std::string>()));')]),
    ("A01 A03", [(C, "        ofs << j;\n", "        ofs << j.dump();\n")]),
    ("A01 A03", [(C, "        ofs << j;\n", "        const std::string text = j.dump();\n        ofs.write(text.data(), static_cast<std::streamsize>(text.size()));\n")]),
    ("A05 A06", [(R, '    std::string capType = after ? "out" : "in";\n    return output_dir_ / (name_ + "_inv" + std::to_string(invokes_.at(element_id)) + "_arg" + std::to_string(arg_idx) +\n                          "_" + capType + "_" + element_id + ".bin");',
                  '    std::string file = name_;\n    file += "_inv" + std::to_string(get_current_invocation(element_id));\n    file += "_arg" + std::to_string(arg_idx);\n    file += after ? "_out_" : "_in_";\n    file += element_id + ".bin";\n    return output_dir_ / file;')]),
    ("A06", [(R, "    auto specific_invocation_only = this->invocation_to_capture_;\n    return (specific_invocation_only == ALL_INVOCATIONS) || (invokes_.at(element_id) == specific_invocation_only);", "    if (invocation_to_capture_ == ALL_INVOCATIONS) {\n        return true;\n    }\n    return get_current_invocation(element_id) == invocation_to_capture_;")]),
    ("A06", [(C, "    invokes_[element_id] = (invokes_.count(element_id) > 0) ? invokes_[element_id] + 1 : 0;\n", "    auto [it, inserted] = invokes_.try_emplace(element_id, 0);\n    if (!inserted) {\n        ++it->second;\n    }\n")]),
    ("A06", [(C, "    invokes_[element_id] = (invokes_.count(element_id) > 0) ? invokes_[element_id] + 1 : 0;\n", "    if (auto it = invokes_.find(element_id); it != invokes_.end()) {\n        it->second++;\n    } else {\n        invokes_.emplace(element_id, 0u);\n    }\n")]),
    ("A03", [(C, "    ifs.read(reinterpret_cast<char*>(write_ptr), size);\n    if (ifs.fail()) {", "    if (!ifs.read(static_cast<char*>(write_ptr), static_cast<std::streamsize>(size))) {")]),
    ("A03 A04", [(C, "    // Check for write errors using stream state + errno\n    if (ofs.bad()) {", "    const bool broken = ofs.bad();\n    if (broken) {")]),
    ("A03 A04", [(C, "    auto success = write_data_to_raw_file(file, data, totalSize);\n\n    if (success) {\n        capture.ext_file = std::make_shared<std::filesystem::path>(file);\n    }\n\n    return success;", "    if (!write_data_to_raw_file(file, data, totalSize)) {\n        return false;\n    }\n    capture.ext_file = std::make_shared<const std::filesystem::path>(std::move(file));\n    return true;")]),
    ("A05 A04 A01", [(C, "    current_captures_[element_id].erase(key);\n    auto it = current_captures_[element_id].emplace(key, ArgCapture(arg_idx, after, primitive_type, dims));\n\n    DEBUG_PRINTLN", "    auto& captures = current_captures_[element_id];\n    captures.erase(key);\n    auto it = captures.emplace(key, ArgCapture(arg_idx, after, primitive_type, dims));\n\n    DEBUG_PRINTLN")]),
    ("A06", [(R, '    std::filesystem::path base_dir_path = "arg_captures";\n    if (getenv("__DAISY_CAPTURE_BASE_DIR")) {\n        base_dir_path = getenv("__DAISY_CAPTURE_BASE_DIR");\n    } else if (base_dir) {\n        base_dir_path = base_dir;\n    }', '    std::filesystem::path base_dir_path;\n    if (const char* dir = std::getenv("__DAISY_CAPTURE_BASE_DIR")) {\n        base_dir_path = dir;\n    } else {\n        base_dir_path = base_dir ? base_dir : "arg_captures";\n    }')]),
    ("A06", [(R, '''    if (default_strat && std::strcmp(default_strat, "all") == 0) {
        ctx = new DaisyRtlCapture(name, base_dir_path, ALL_INVOCATIONS);
    } else if (default_strat && std::strcmp(default_strat, "never") == 0) {
        return nullptr;
    } else if (!default_strat || std::strcmp(default_strat, "once") == 0) {
        ctx = nullptr;
    } else {
        fprintf(stderr, "Unknown capture strategy: '%s' for ctx '%s'\\n", default_strat, name);
        ctx = nullptr;
    }

    if (!ctx) { // default
        ctx = new DaisyRtlCapture(name, base_dir_path, 0);
    }
''', '''    const std::string strategy = default_strat ? default_strat : "once";
    if (strategy == "never") {
        return nullptr;
    }
    if (strategy == "all") {
        ctx = new DaisyRtlCapture(name, base_dir_path);
    } else {
        if (strategy != "once") {
            fprintf(stderr, "Unknown capture strategy: '%s' for ctx '%s'\\n", default_strat, name);
        }
        ctx = new DaisyRtlCapture(name, base_dir_path, 0);
    }
''')]),
    ("A02", [(B, "size_t in_len = encoded_string.size();\n", ""), (B, "while (in_len-- && (encoded_string[in_] != '=') && is_base64(encoded_string[in_])) {\n        char_array_4[i++] = encoded_string[in_];\n        in_++;", "for (; in_ < encoded_string.size(); ++in_) {\n        const unsigned char c = encoded_string[in_];\n        if (c == '=' || !is_base64(c)) break;\n        char_array_4[i++] = c;")]),
    ("A02", [(B, "    std::string ret;\n", "    std::string ret;\n    ret.reserve((in_len + 2) / 3 * 4);\n")]),
    ("A02", [(B, "            char_array_3[0] = (char_array_4[0] << 2) + ((char_array_4[1] & 0x30) >> 4);\n            char_array_3[1]", "            char_array_3[0] = (char_array_4[0] << 2) | (char_array_4[1] >> 4);\n            char_array_3[1]")]),
]
