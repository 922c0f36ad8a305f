IO = "arg-capture-io/src/arg_capture_io.cpp"
IOH = "arg-capture-io/include/daisy_rtl/arg_capture_io.h"
CP = "rtl/src/capture.cpp"
B64 = "arg-capture-io/src/base64.cpp"
W = '''    // Perform write
    ofs.write(reinterpret_cast<const char*>(src_data), size);
'''
BUGS = [
    ("A01", [(IO, 'entry["after"].get<bool>(),', 'entry["arg_idx"].get<bool>(),')]),
    ("A01", [(IO, 'entry["dims"].get<std::vector<size_t>>()', 'entry["dims"].get<std::vector<uint32_t>>() | std::views::all'.replace(" | std::views::all", "")),
             (IO, 'ArgCapture capture(\n', 'auto nd = entry["dims"].get<std::vector<int>>(); ArgCapture capture(\n'),
             (IO, 'entry["dims"].get<std::vector<uint32_t>>()', 'std::vector<size_t>(nd.begin(), nd.end())')]),
    ("A01", [(IO, 'for (const auto& dim : dims) {\n        jDims.push_back(dim);\n    }', 'for (size_t d = dims.size(); d-- > 0;) {\n        jDims.push_back(dims[d]);\n    }')]),
    ("A01", [(IO, 'for (const auto& dim : dims) {\n', 'for (const auto& dim : dims) {\n if (dim == 1 && dims.size() > 2) continue;\n')]),
    ("A01", [(IO, 'if (data) {\n        std::string', 'if (data && data->size() > 0 && !ext_file) {\n        std::string')]),
    ("A01", [(IO, 'j["invocation"] = invokes_.at(region_id);', 'j["invocation"] = captures.size();')]),
    ("A01", [(IO, 'std::make_pair(capture.arg_idx, capture.after), std::move', 'std::make_pair(capture.arg_idx, true), std::move')]),
    ("A01", [(IO, 'entry["ext_file"] = ext_file->filename();', 'entry["ext_file"] = ext_file->stem();')]),
    ("A01", [(IO, 'entry["primitive_type"] = primitive_type;', 'entry["primitive_type"] = static_cast<uint8_t>(primitive_type) & 0xf;')]),
    ("A01", [(IO, 'j["element_id"] = region_id;', 'j["element_id"] = name_;')]),
    ("A01", [(IO, 'for (const auto& [key, capture] : captures) {\n', 'for (const auto& [key, capture] : captures) {\n            if (key.second && captures.size() > 8) continue;\n')]),
    ("A02", [(B64, '(char_array_4[2] & 0x3) << 6) + char_array_4[3];\n\n            for (i', '(char_array_4[2] & 0x1) << 6) + char_array_4[3];\n\n            for (i')]),
    ("A02", [(B64, 'for (j = 0; (j < i - 1); j++) ret', 'for (j = 0; (j < i - 1) && char_array_3[j]; j++) ret')]),
    ("A02", [(B64, "return (isalnum(c) || (c == '+') || (c == '/'));", "return (isalnum(c) || (c == '+') || (c == '-'));")]),
    ("A02", [(B64, 'for (j = i; j < 3; j++) char_array_3[j]', 'for (j = i + 1; j < 3; j++) char_array_3[j]')]),
    ("A02", [(B64, 'while ((i++ < 3)) ret', 'while ((++i < 3)) ret')]),
    ("A02", [(B64, 'size_t in_len) {', 'size_t in_len_) {\n    unsigned in_len = in_len_;')]),
    ("A03", [(IO, '    ofs.close();\n\n    if (ofs.fail()) {', '    ofs.close();\n\n    if (!ofs.is_open() && ofs.eof()) {')]),
    ("A03", [(IO, '    auto success = write_data_to_raw_file(file, data, totalSize);\n\n    if (success) {', '    auto success = write_data_to_raw_file(file, data, totalSize);\n\n    if (success || totalSize == 0) {')]),
    ("A03", [(IO, '    ofs.close();\n\n    if (ofs.fail()) {\n        std::cerr', '    if (ofs.fail()) {\n        std::cerr'), (IO, ' closed");', ' closed");\n ofs.close();')]),
    ("A03", [(IO, '    if (ofs.fail()) {\n            throw', '    if (ofs.bad() && ofs.eof()) {\n            throw') if False else (IO, '        ofs.close();\n        if (ofs.fail()) {', '        ofs.close();\n        if (ofs.eof()) {')]),
    ("A03", [(IO, 'if (ifs.fail()) {', 'if (ifs.bad()) {')]),
    ("A03", [(IO, 'if (size > 0 && src_data == nullptr) {', 'if (size > 8 && src_data == nullptr) {')]),
    ("A03", [(CP, 'arg_idx, after, primitive_type, {size, num_x, num_y, num_z}, file, data, std::to_string(element_id)\n        )) {', 'arg_idx, after, primitive_type, {size, num_x, num_y, num_z}, file, data, std::to_string(element_id)\n        ) && num_x > 1) {')]),
    ("A04", [(CP, '{size, num_rows, num_cols}, file', '{size, num_rows, num_rows}, file')]),
    ("A04", [(CP, '{size, num_x, num_y, num_z}', '{size, num_z, num_y, num_x}')]),
    ("A04", [(CP, '->capture_3d(arg_idx, data, size, primitive_type, num_x, num_y, num_z, after', '->capture_3d(arg_idx, data, size, primitive_type, num_x, num_z, num_y, after')]),
    ("A04", [(IO, 'auto totalSize = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, std::multiplies<size_t>());', 'auto totalSize = std::accumulate(capture.dims.begin(), capture.dims.end(), 1, std::multiplies<>());')]),
    ("A04", [(IO, 'auto totalSize = std::accumulate(capture.dims.begin(), capture.dims.end(),', 'auto totalSize = std::accumulate(capture.dims.begin(), capture.dims.begin() + std::min<size_t>(3, capture.dims.size()),')]),
    ("A04", [(IO, 'std::memcpy(capturedData.get()->data(), data, size);', 'std::memcpy(capturedData.get()->data(), data, size & ~size_t{1});')]),
    ("A04", [(IO, '    current_captures_[element_id].erase(key);\n    auto it = current_captures_[element_id].emplace(key, ArgCapture(arg_idx, after, primitive_type, dims));\n\n    DEBUG', '    auto it = current_captures_[element_id].emplace(key, ArgCapture(arg_idx, after, primitive_type, dims));\n\n    DEBUG')]),
    ("A05", [(IO, '    current_captures_[element_id].erase(key);\n    auto it = current_captures_[element_id].emplace(key, ArgCapture(arg_idx, after, primitive_type, dims));\n\n    DEBUG', '    auto it = current_captures_[element_id].emplace(key, ArgCapture(arg_idx, after, primitive_type, dims));\n\n    DEBUG')]),
    ("A05", [(CP, '"_" + capType + "_" + element_id + ".bin"', '"_" + capType + ".bin"')]),
    ("A05", [(CP, 'std::string capType = after ? "out" : "in";', 'std::string capType = after && arg_idx < 16 ? "out" : "in";')]),
    ("A05", [(CP, '_inv" + std::to_string(invokes_.at(element_id)) +', '_inv" + std::to_string(invokes_.at(element_id) % 100) +')]),
    ("A05", [(CP, '"_arg" + std::to_string(arg_idx) +', '"_arg" + std::to_string(arg_idx & 0xff) +')]),
    ("A05", [(IO, '"_inv" + std::to_string(invokes_.at(region_id)) + "_" + region_id +', '"_" + region_id +')]),
    ("A06", [(CP, '    clear();\n\n    invocation', '    invocation')]),
    ("A06", [(CP, 'strcmp(default_strat, "all") == 0', 'strncmp(default_strat, "all", 1) == 0')]),
    ("A06", [(CP, '(invokes_.at(element_id) == specific_invocation_only)', '(invokes_.at(element_id) <= specific_invocation_only + 1)')]),
    ("A06", [(CP, '''    if (getenv("__DAISY_CAPTURE_BASE_DIR")) {
        base_dir_path = getenv("__DAISY_CAPTURE_BASE_DIR");
    } else if (base_dir) {
        base_dir_path = base_dir;
    }''', '''    if (base_dir) {
        base_dir_path = base_dir;
    } else if (getenv("__DAISY_CAPTURE_BASE_DIR")) {
        base_dir_path = getenv("__DAISY_CAPTURE_BASE_DIR");
    }''')]),
    ("A06", [(IO, 'invokes_[element_id] = (invokes_.count(element_id) > 0) ? invokes_[element_id] + 1 : 0;', 'invokes_[element_id] = invokes_[element_id] + 1;')]),
    ("A06", [(IO, 'void ArgCaptureIO::clear() { current_captures_.clear(); }', 'void ArgCaptureIO::clear() { current_captures_.clear(); invokes_.clear(); }')]),
    ("A06", [(CP, 'ctx = new DaisyRtlCapture(name, base_dir_path, 0);', 'ctx = new DaisyRtlCapture(name, base_dir_path, 1);')]),
    ("A06", [(CP, '    if (!current_captures_.empty()) {', '    if (current_captures_.size() > 1) {')]),
]
ALL = "A01 A02 A03 A04 A05 A06"
SAME = [
    (ALL, [(IO, 'void ArgCapture::serialize_into(nlohmann::json& j) const {', '''static nlohmann::json dims_to_json(const std::vector<size_t>& v) {
    auto out = nlohmann::json::array();
    for (size_t k = 0; k < v.size(); ++k) { out.push_back(v[k]); }
    return out;
}
void ArgCapture::serialize_into(nlohmann::json& j) const {'''),
           (IO, '''    auto jDims = nlohmann::json::array();
    for (const auto& dim : dims) {
        jDims.push_back(dim);
    }
    entry["dims"] = jDims;''', '    entry["dims"] = dims_to_json(dims);')]),
    (ALL, [(IO, '''    auto jDims = nlohmann::json::array();
    for (const auto& dim : dims) {
        jDims.push_back(dim);
    }
    entry["dims"] = jDims;''', '    entry["dims"] = dims;')]),
    (ALL, [(IO, '''    nlohmann::json entry;

    entry["arg_idx"] = arg_idx;
    entry["after"] = after;
    entry["primitive_type"] = primitive_type;
''', '''    nlohmann::json entry = {{"primitive_type", primitive_type}, {"arg_idx", arg_idx}, {"after", after}};
''')]),
    (ALL, [(IO, '''    if (data) {
        std::string base64_data = base64_encode(data.get()->data(), data.get()->size());
        entry["data"] = base64_data;
    } else if (ext_file) {
        entry["ext_file"] = ext_file->filename();
    }
''', '''    const bool has_inline = data != nullptr;
    if (!has_inline && ext_file) {
        entry["ext_file"] = ext_file->filename().string();
    }
    if (has_inline) {
        const auto& bytes = *data;
        entry["data"] = base64_encode(bytes.data(), bytes.size());
    }
''')]),
    (ALL, [(IO, '''    ArgCapture capture(
        entry["arg_idx"].get<int>(),
        entry["after"].get<bool>(),
        entry["primitive_type"].get<int>(),
        entry["dims"].get<std::vector<size_t>>()
    );
''', '''    const int idx = entry.at("arg_idx").get<int>();
    const auto is_after = entry.at("after").get<bool>();
    const int ptype = entry.at("primitive_type").get<int>();
    std::vector<size_t> dim_list = entry.at("dims").get<std::vector<size_t>>();
    ArgCapture capture(idx, is_after, ptype, std::move(dim_list));
''')]),
    (ALL, [(IO, '''    auto totalSize = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, std::multiplies<size_t>());''',
            '''    size_t totalSize = 1;
    for (const size_t d : capture.dims) {
        totalSize *= d;
    }''')]),
    (ALL, [(IO, 'void ArgCaptureIO::clear()', '''static size_t byte_count(const std::vector<size_t>& dims) {
    size_t n = 1;
    for (size_t i = 0; i < dims.size(); i++) n *= dims[i];
    return n;
}
void ArgCaptureIO::clear()'''),
           (IO, 'auto totalSize = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, std::multiplies<size_t>());', 'const size_t totalSize = byte_count(capture.dims);'),
           (IO, 'auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, std::multiplies<size_t>());', 'const auto size = byte_count(capture.dims);')]),
    (ALL, [(IO, '''    // Check for write errors using stream state + errno
    if (ofs.bad()) {
        std::cerr << "[ArgCaptureIO] Critical IO Error (badbit) writing " << file.string() << std::endl;
        std::cerr << "  Size attempted: " << size << " bytes" << std::endl;
        std::cerr << "  System Error: " << std::strerror(errno) << std::endl;
        return false;
    }
    if (ofs.fail()) {''', '    if (!ofs) {')]),
    (ALL, [(IO, '''    ofs.close();

    if (ofs.fail()) {
        std::cerr << "[ArgCaptureIO] Error closing file " << file.string() << std::endl;
        return false;
    }

    DEBUG_PRINTLN(" closed");

    return true;''', '''    ofs.close();
    const bool ok = !ofs.fail();
    if (!ok) {
        std::cerr << "[ArgCaptureIO] Error closing file " << file.string() << std::endl;
    }
    return ok;''')]),
    (ALL, [(IO, '''static_assert''' if False else '''    DEBUG_PRINTLN(" total size: " << size << " bytes");

    if (size > 0 && src_data == nullptr) {
        std::cerr << "[ArgCaptureIO] Error: Data pointer is NULL for size " << size << std::endl;
        return false;
    }
''', '''    if (!src_data) {
        if (size != 0) {
            return false;
        }
    }
''')]),
    (ALL, [(CP, '''    auto file = generate_arg_capture_output_filename(arg_idx, after, std::to_string(element_id));

    if (!create_and_capture_to_file(
            arg_idx, after, primitive_type, {size, num_elements}, file, data, std::to_string(element_id)
        )) {
        throw std::runtime_error("Failed to write capture for arg" + std::to_string(arg_idx) + " to file");
    }''', '''    const std::vector<size_t> dims = {size, num_elements};
    const auto region = std::to_string(element_id);
    auto file = generate_arg_capture_output_filename(arg_idx, after, region);
    const bool written = create_and_capture_to_file(arg_idx, after, primitive_type, dims, file, data, region);
    if (written) {
        return;
    }
    throw std::runtime_error("Failed to write capture for arg" + std::to_string(arg_idx) + " to file");''')]),
    (ALL, [(CP, '''    void exit();

protected:''', '''    void exit();

protected:
    void to_file(int arg_idx, bool after, int primitive_type, const std::vector<size_t>& dims, const void* data, size_t element_id) {
        auto region = std::to_string(element_id);
        auto file = generate_arg_capture_output_filename(arg_idx, after, region);
        if (!create_and_capture_to_file(arg_idx, after, primitive_type, dims, file, data, region)) {
            throw std::runtime_error("Failed to write capture for arg" + std::to_string(arg_idx) + " to file");
        }
    }'''),
           (CP, '''    auto file = generate_arg_capture_output_filename(arg_idx, after, std::to_string(element_id));

    if (!create_and_capture_to_file(
            arg_idx, after, primitive_type, {size, num_x, num_y, num_z}, file, data, std::to_string(element_id)
        )) {
        throw std::runtime_error("Failed to write capture for arg" + std::to_string(arg_idx) + " to file");
    }''', '    to_file(arg_idx, after, primitive_type, {size, num_x, num_y, num_z}, data, element_id);'),
           (CP, '''    auto file = generate_arg_capture_output_filename(arg_idx, after, std::to_string(element_id));

    if (!create_and_capture_to_file(
            arg_idx, after, primitive_type, {size, num_rows, num_cols}, file, data, std::to_string(element_id)
        )) {
        throw std::runtime_error("Failed to write capture for arg" + std::to_string(arg_idx) + " to file");
    }''', '    to_file(arg_idx, after, primitive_type, {size, num_rows, num_cols}, data, element_id);')]),
    (ALL, [(CP, '''    std::string capType = after ? "out" : "in";
    return output_dir_ / (name_ + "_inv" + std::to_string(invokes_.at(element_id)) + "_arg" + std::to_string(arg_idx) +
                          "_" + capType + "_" + element_id + ".bin");''', '''    std::string file_name = name_;
    file_name += "_inv";
    file_name += std::to_string(get_current_invocation(element_id));
    file_name += "_arg" + std::to_string(arg_idx);
    if (after) {
        file_name += "_out_";
    } else {
        file_name += "_in_";
    }
    file_name.append(element_id);
    file_name += ".bin";
    return output_dir_ / file_name;''')]),
    (ALL, [(CP, '''    DaisyRtlCapture* ctx;

''', ''), (CP, '''    if (default_strat && std::strcmp(default_strat, "all") == 0) {
        ctx = new DaisyRtlCapture(name, base_dir_path, ALL_INVOCATIONS);
    } else if (default_strat && std::strcmp(default_strat, "never") == 0) {
        return nullptr;
    } else if (!default_strat || std::strcmp(default_strat, "once") == 0) {
        ctx = nullptr;
    } else {
        fprintf(stderr, "Unknown capture strategy: '%s' for ctx '%s'\\n", default_strat, name);
        ctx = nullptr;
    }

    if (!ctx) { // default
        ctx = new DaisyRtlCapture(name, base_dir_path, 0);
    }

    return (__daisy_capture_t*) ctx;''', '''    uint32_t which = 0;
    const std::string strat = default_strat ? default_strat : "once";
    if (strat == "never") {
        return nullptr;
    }
    if (strat == "all") {
        which = ALL_INVOCATIONS;
    } else if (strat != "once") {
        fprintf(stderr, "Unknown capture strategy: '%s' for ctx '%s'\\n", default_strat, name);
    }
    return (__daisy_capture_t*) new DaisyRtlCapture(name, base_dir_path, which);''')]),
    (ALL, [(CP, '''    auto specific_invocation_only = this->invocation_to_capture_;
    return (specific_invocation_only == ALL_INVOCATIONS) || (invokes_.at(element_id) == specific_invocation_only);''',
            '''    if (invocation_to_capture_ == ALL_INVOCATIONS) {
        return true;
    }
    return get_current_invocation(element_id) == invocation_to_capture_;''')]),
    (ALL, [(IO, '''    invokes_[element_id] = (invokes_.count(element_id) > 0) ? invokes_[element_id] + 1 : 0;''', '''    auto it = invokes_.find(element_id);
    if (it == invokes_.end()) {
        invokes_.emplace(element_id, 0);
    } else {
        it->second++;
    }''')]),
    (ALL, [(CP, '''    if (context) {
        ((DaisyRtlCapture*) context)->exit();
    }''', '''    if (!context) {
        return;
    }
    auto* ctx = reinterpret_cast<DaisyRtlCapture*>(context);
    ctx->exit();'''),
           (CP, '''    if (!current_captures_.empty()) {
        auto base_path = output_dir_;
        write_index(base_path);
    }''', '''    if (current_captures_.size() == 0) {
        return;
    }
    write_index(output_dir_);''')]),
    (ALL, [(B64, '''    if (i) {
        for (j = i; j < 3; j++) char_array_3[j] = '\\0';
''', '''    if (i > 0) {
        j = i;
        while (j < 3) {
            char_array_3[j] = 0;
            ++j;
        }
''')]),
    (ALL, [(B64, '''std::string base64_encode(''', '''static void expand(const unsigned char* in, unsigned char* out) {
    out[0] = in[0] >> 2;
    out[1] = ((in[0] & 0x03) << 4) | (in[1] >> 4);
    out[2] = ((in[1] & 0x0f) << 2) | (in[2] >> 6);
    out[3] = in[2] & 0x3f;
}

std::string base64_encode('''), (B64, '''            char_array_4[0] = (char_array_3[0] & 0xfc) >> 2;
            char_array_4[1] = ((char_array_3[0] & 0x03) << 4) + ((char_array_3[1] & 0xf0) >> 4);
            char_array_4[2] = ((char_array_3[1] & 0x0f) << 2) + ((char_array_3[2] & 0xc0) >> 6);
            char_array_4[3] = char_array_3[2] & 0x3f;

''', '            expand(char_array_3, char_array_4);\n')]),
    (ALL, [(IO, '''        nlohmann::json j;
        j["format"] = INDEX_FORMAT_VERSION;
        j["target"] = name_;
        j["invocation"] = invokes_.at(region_id);
        j["element_id"] = region_id;

        auto arr = nlohmann::json::array();

        for (const auto& [key, capture] : captures) {
            capture.serialize_into(arr);
        }

        j["captures"] = arr;

        ofs << j;
''', '''        auto arr = nlohmann::json::array();
        for (auto it = captures.begin(); it != captures.end(); ++it) {
            it->second.serialize_into(arr);
        }
        const nlohmann::json j = {
            {"format", INDEX_FORMAT_VERSION},
            {"target", name_},
            {"invocation", get_current_invocation(region_id)},
            {"element_id", region_id},
            {"captures", std::move(arr)}
        };
        ofs << j;
''')]),
]
