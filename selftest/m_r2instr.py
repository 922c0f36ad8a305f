"""Second, independent round of edits for B01-B06 and H01."""
F = "rtl/src/instrumentation.cpp"
H = "rtl/include/daisy_rtl/daisy_rtl.h"
SRC = open("/repo/" + F).read()


def part(a, b):
    """The text from a up to and including b."""
    i = SRC.index(a)
    return SRC[i:SRC.index(b, i) + len(b)]


def sub(scope, *edits):
    new = scope
    for o, n in edits:
        assert o in new, o
        new = new.replace(o, n, 1)
    return (F, scope, new)


REG = part("    size_t register_region(", "\n    }\n\n    void enter_region")
ENT = part("    void enter_region(", "\n    }\n\n    void exit_region")
EXT = part("    void exit_region(", "\n    }\n\n    void provided_metric")
MET = part("    void provided_metric(", "\n    }\n\n    void finalize")
FIN = part("    void finalize(", "\n    }\n};")
DTOR = part("    ~DaisyInstrumentationState() {", "\n    }\n\n    size_t register_region")
CTOR = part("    DaisyInstrumentationState() {", "\n    }\n\n    ~Daisy")
EV = part("    void append_event(", "\n    }\n\n\n    void append_event_aggregated")
AGG = part("    void append_event_aggregated(", "\n    }\n\npublic:")
LOCK = "        std::lock_guard<std::mutex> lock(mutex);\n"
GUARD = "        if (it == regions.end()) {\n"
BUGS = [
    # B01
    ("B01", [sub(MET, (LOCK, ""), ("        if (region.static_counters_n.find(name)", LOCK + "        if (region.static_counters_n.find(name)"))]),
    ("B01", [sub(ENT, (LOCK, "        std::unique_lock<std::mutex> lock(mutex, std::try_to_lock);\n"))]),
    ("B01", [sub(ENT, (LOCK, "        static std::mutex enter_mutex;\n        std::lock_guard<std::mutex> lock(enter_mutex);\n"))]),
    ("B01", [sub(ENT, (LOCK, "        std::unique_lock<std::mutex> lock(mutex);\n"), ("        // Save start time\n", "        lock.unlock();\n"))]),
    ("B01", [sub(REG, (LOCK, "        {\n            std::lock_guard<std::mutex> lock(mutex);\n            if (metadata->region_uuid[0] == 0) return 0;\n        }\n"))]),
    ("B01", [sub(FIN, (LOCK, "        std::unique_lock<std::mutex> lock(mutex);\n"), ("        // Check if cache has grown to large\n", "        lock.unlock();\n"))]),
    ("B01", [sub(REG, ("        size_t region_id = next_region_id++;\n", "        size_t region_id = new_id();\n")), (F, "    size_t register_region(", "    size_t new_id() {\n        std::lock_guard<std::mutex> lock(mutex);\n        return next_region_id++;\n    }\n\n    size_t register_region(")]),
    ("B01", [(F, "void __daisy_instrumentation_enter(size_t region_id) { get_daisy_state().enter_region(region_id); }", "static size_t entered = 0;\nvoid __daisy_instrumentation_enter(size_t region_id) { entered++; get_daisy_state().enter_region(region_id); if (entered > 1000000) entered = 0; }")]),
    ("B01", [(F, "    std::mutex mutex;\n\n    double", "    thread_local static inline std::mutex mutex;\n\n    double")]),
    # B02
    ("B02", [(F, "#define REGION_CACHE_SIZE 10", "#define REGION_CACHE_SIZE 16")]),
    ("B02", [sub(FIN, ("            evict_region.papi_eventset = -1;\n", "            region.papi_eventset = -1;\n"))]),
    ("B02", [sub(FIN, ("            if (_PAPI_destroy_eventset(&evict_region.papi_eventset) != 0) {", "            if (evict_region.event_set != __DAISY_EVENT_SET_NONE && _PAPI_destroy_eventset(&evict_region.papi_eventset) != 0) {"))]),
    ("B02", [sub(FIN, ("            if (_PAPI_cleanup_eventset(evict_region.papi_eventset) != 0) {", "            if (_PAPI_cleanup_eventset(evict_region.papi_eventset) < -1) {"))]),
    ("B02", [sub(FIN, ("            std::vector<long long> counts(this->event_names_cuda.size(), 0);", "            std::vector<long long> counts(this->event_names_cpu.size(), 0);"))]),
    ("B02", [sub(FIN, ("        } else if (region.event_set == __DAISY_EVENT_SET_CUDA && this->event_names_cuda.size() > 0) {", "        } else if (region.event_set == __DAISY_EVENT_SET_CUDA && this->event_names_cuda.size() > 1) {"))]),
    ("B02", [sub(REG, ("            // start region\n            auto& region = this->regions[region_id];\n            _PAPI_start(region.papi_eventset);\n", "            // start region\n            auto& region = this->regions[region_id];\n            if (region.event_set == __DAISY_EVENT_SET_CPU) _PAPI_start(region.papi_eventset);\n"))]),
    ("B02", [sub(REG, ("            this->sleeping_regions_by_name.remove(metadata->region_uuid);\n", "            this->sleeping_regions_by_name.pop_back();\n"))]),
    ("B02", [sub(REG, ("            this->sleeping_regions_id_lookup.erase(metadata->region_uuid);\n", ""))]),
    ("B02", [sub(REG, ("            if (region.event_set == __DAISY_EVENT_SET_CPU) {\n                for", "            if (event_set == __DAISY_EVENT_SET_CPU) {\n                for"))]),
    ("B02", [sub(DTOR, ("            region.papi_eventset = -1;\n        }\n", "            region.papi_eventset = -1;\n            if (first_failure) break;\n        }\n"), ("        // Cleanup cached regions\n", "        // Cleanup cached regions\n        bool first_failure = this->output_file.empty();\n"))]),
    ("B02", [sub(DTOR, ("            if (_PAPI_cleanup_eventset(region.papi_eventset) != 0) {\n                std::fprintf(stderr, \"[daisy-rtl] Failed to clean up PAPI eventset.\\n\");\n                exit(EXIT_FAILURE);\n            }\n", "            _PAPI_cleanup_eventset(region.papi_eventset);\n"))]),
    ("B02", [sub(ENT, ("            _PAPI_read(region.papi_eventset, counts.data());", "            _PAPI_read(it->first, counts.data());"))]),
    ("B02", [sub(REG, ("        regions[region_id] = region;\n        region_name_to_id[region.metadata.region_uuid] = region_id;\n\n        _PAPI_start(region.papi_eventset);", "        regions[region_id] = region;\n        region_name_to_id[region.metadata.region_uuid] = region_id;\n\n        if (region_id % 64) _PAPI_start(region.papi_eventset);"))]),
    # B03
    ("B03", [sub(EXT, ("            exit(EXIT_FAILURE);\n        }\n\n        DaisyRegion& region", "            exit(EXIT_SUCCESS);\n        }\n\n        DaisyRegion& region"))]),
    ("B03", [sub(FIN, ("            exit(EXIT_FAILURE);\n        }\n\n        DaisyRegion& region", "            return;\n        }\n\n        DaisyRegion& region"))]),
    ("B03", [sub(ENT, ("        auto it = regions.find(region_id);\n", "        auto it = regions.try_emplace(region_id).first;\n"))]),
    ("B03", [sub(MET, (GUARD, "        if (it == regions.end() && name[0] != '_') {\n"))]),
    ("B03", [(F, "size_t next_region_id = 1;", "size_t next_region_id = 0;")]),
    ("B03", [sub(REG, ("size_t region_id = next_region_id++;", "size_t region_id = regions.size() + 1 - sleeping_regions_by_name.size();"))]),
    ("B03", [sub(REG, ("size_t region_id = next_region_id++;", "size_t region_id = (next_region_id++) & 0xffff;"))]),
    ("B03", [sub(REG, ("        region_name_to_id[region.metadata.region_uuid] = region_id;\n", "        region_name_to_id[region.metadata.function_name] = region_id;\n"))]),
    ("B03", [(F, "    if (!metadata) {\n        return 0;", "    if (!metadata) {\n        return 1;")]),
    ("B03", [(F, "void __daisy_instrumentation_exit(size_t region_id) { get_daisy_state().exit_region(region_id); }", "void __daisy_instrumentation_exit(size_t region_id) { if (region_id) get_daisy_state().exit_region(region_id); }")]),
    ("B02", [sub(FIN, ("        auto it = regions.find(region_id);\n", "        this->sleeping_regions_by_name.sort();\n        auto it = regions.find(region_id);\n"))]),
    # B05
    ("B05", [sub(ENT, ("            if (region.first_start == 0) {\n                region.first_start = start_ns;\n            }\n", "            region.first_start = start_ns;\n"))]),
    ("B05", [sub(EXT, ("end_ns - region.last_start;", "end_ns - region.first_start;"))]),
    ("B05", [sub(EXT, ("end_ns - region.starts.back();", "end_ns - region.starts.front();"))]),
    ("B05", [sub(EXT, ("counts[i] -= region.last_counts[i];", "counts[i] = std::abs(counts[i] - region.last_counts[i]);"))]),
    ("B05", [sub(EXT, ("                region.runtime_variance += (delta1 * delta2 - region.runtime_variance) / region.runtime_n;", "                region.runtime_variance += (delta1 * delta1 - region.runtime_variance) / region.runtime_n;"))]),
    ("B05", [sub(EXT, ("                region.runtime_variance += (delta1 * delta2 - region.runtime_variance) / region.runtime_n;", "                region.runtime_variance += (delta1 * delta2 - region.runtime_variance) / (region.runtime_n - 1);"))]),
    ("B05", [sub(EXT, ("                region.runtime_n = 1;\n", "                region.runtime_n = 0;\n"), ("            if (region.runtime_n == 0) {", "            if (region.runtime_max == 0) {"))]),
    ("B05", [sub(EXT, ("                region.runtime_min = duration_ns;\n", "                region.runtime_min = 0;\n"))]),
    ("B05", [sub(EXT, ("region.max.resize(counts.size(), std::numeric_limits<long long>::min());", "region.max.resize(counts.size(), std::numeric_limits<int>::min());"))]),
    ("B05", [sub(EXT, ("region.min.resize(counts.size(), std::numeric_limits<long long>::max());", "region.min.resize(counts.size(), std::numeric_limits<int>::max());"))]),
    ("B05", [sub(EXT, ("                double delta1 = counts[i] - region.mean[i];", "                float delta1 = counts[i] - region.mean[i];"))]),
    ("B05", [sub(EXT, ("            for (size_t i = 0; i < counts.size(); ++i) {\n                region.n[i] += 1;", "            for (size_t i = 0; i < counts.size(); ++i) {\n                if (counts[i] == 0) continue;\n                region.n[i] += 1;"))]),
    ("B05", [sub(EXT, ("            if (region.mean.empty()) {", "            if (region.mean.size() != this->event_names_cuda.size()) {"))]),
    ("B05", [sub(MET, ("            region.static_counters_min[name] = value;", "            region.static_counters_min[name] = std::min(value, 0.0);"))]),
    ("B05", [sub(MET, ("        n += 1;\n", ""), ("        // Min/max\n", "        n += 1;\n"))]),
    ("B05", [sub(MET, ("        if (value > max) max = value;", "        else if (value > max) max = value;")), ] if False else [sub(MET, ("        if (value < min) min = value;\n        if (value > max) max = value;", "        if (value < min) {\n            min = value;\n        } else if (value > max && n > 2) {\n            max = value;\n        }"))]),
    ("B05", [(F, "get_daisy_state().provided_metric(region_id, name, static_cast<double>(value));", "get_daisy_state().provided_metric(region_id, name, static_cast<int>(value));")]),
    ("B05", [sub(REG, ("            // start region\n            auto& region = this->regions[region_id];\n", "            // start region\n            auto& region = this->regions[region_id];\n            region.last_counts.clear();\n            region.counts.clear();\n"))]),
    ("B05", [sub(ENT, ("            region.last_counts = counts;\n        } else", "            if (region.last_counts.empty()) region.last_counts = counts;\n        } else"))]),
    ("B05", [sub(EXT, ("                region.counts.push_back(counts);\n                return;", "                region.counts.insert(region.counts.begin(), counts);\n                return;"))]),
    # B04
    ("B04", [sub(EV, ("if (i < counts.size() - 1) {", "if (i < counts.size() - 2) {"))]),
    ("B04", [sub(EV, ("(region.starts.at(index) / 1000)", "(region.starts.at(index) / 1000000)"))]),
    ("B04", [sub(EV, ("ns_to_us(region.durations.at(index))", "ns_to_us(region.durations.at(0))"))]),
    ("B04", [sub(EV, ('"\\"col\\":" << md.column_begin' if False else 'md.line_end << ",\\"col\\":" << md.column_end', 'md.line_end << ",\\"col\\":" << md.column_begin'))]),
    ("B04", [sub(EV, ("JsSafeString(md.opt_report_file)", "JsSafeString(md.features_file)"))]),
    ("B04", [sub(EV, ("JsSafeString(event_names[i].c_str())", "event_names[i]"))]),
    ("B04", [sub(EV, ("        if (index < region.counts.size()) {", "        if (index + 1 < region.counts.size()) {"))]),
    ("B04", [sub(AGG, ("JsSafeDouble(region.static_counters_max[name])", "region.static_counters_max[name]"))]),
    ("B04", [sub(AGG, ("            entry << \"}\";\n            entry << \",\";\n        }\n        // Static counters", "            entry << \"}\";\n            if (i + 1 < event_names.size()) entry << \",\";\n        }\n        // Static counters"))]),
    ("B04", [sub(AGG, ("region.runtime_mean * region.runtime_n", "region.runtime_mean"))]),
    ("B04", [sub(AGG, ("(md.is_elementwise ? \"true\" : \"false\")", "md.is_elementwise"))]),
    ("B04", [sub(AGG, ("\"\\\"num_maps\\\":\" << md.num_maps", "\"\\\"num_maps\\\":\" << md.num_fors"))]),
    ("B04", [sub(AGG, ("JsSafeString(name.c_str())", "name.c_str()"))]),
    ("B04", [(F, "        if (*c == '\"' || *c == '\\\\') {", "        if (*c == '\"') {")]),
    ("B04", [(F, "static_cast<unsigned char>(*c) < 0x20", "static_cast<unsigned char>(*c) < 0x10")]),
    ("B04", [(F, "    if (std::isfinite(val.value)) {", "    if (!std::isnan(val.value)) {")]),
    ("B04", [sub(DTOR, ("                if (!first_event) {\n                    std::fprintf(f, \",\\n\");\n                }\n                first_event = false;\n                append_event(f, region", "                if (event_index > 0) {\n                    std::fprintf(f, \",\\n\");\n                }\n                first_event = false;\n                append_event(f, region"))]),
    ("B04", [sub(DTOR, ("event_index < region.starts.size()", "event_index < region.durations.size()"))]),
    ("B04", [sub(DTOR, ("\"w\"", "\"a\""))]),
    ("B04", [sub(DTOR, ("            if (this->aggregate_events) {", "            if (this->aggregate_events && region.runtime_n) {"))]),
    ("B04", [sub(DTOR, ("                } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {\n                    event_names = this->event_names_cuda;\n                }\n                if (!first_event) {\n                    std::fprintf(f, \",\\n\");\n                }\n                first_event = false;\n                append_event_aggregated", "                } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {\n                    event_names = this->event_names_cpu;\n                }\n                if (!first_event) {\n                    std::fprintf(f, \",\\n\");\n                }\n                first_event = false;\n                append_event_aggregated"))]),
    ("B04", [sub(EV, ("std::fprintf(f, \"%s\", entry.str().c_str());", "std::fprintf(f, entry.str().c_str());"))]),
    ("B04", [sub(EV, ("std::fprintf(f, \"%s\", entry.str().c_str());", "std::fprintf(f, \"%.4096s\", entry.str().c_str());"))]),
    ("B04", [sub(EV, ("        std::stringstream entry;\n", "        std::stringstream entry;\n        entry << std::hex;\n"))]),
    # B06
    ("B06", [sub(CTOR, ('std::strcmp(aggregate_events_env, "aggregate") == 0', 'std::strncmp(aggregate_events_env, "aggregate", 3) == 0'))]),
    ("B06", [sub(CTOR, ("            this->aggregate_events = false;\n", "            this->aggregate_events = !aggregate_events_env;\n"))]),
    ("B06", [sub(CTOR, ('"daisy_trace.json"', '"daisy.trace.json"'))]),
    ("B06", [sub(CTOR, ("            this->output_file = output_file_env;\n", "            this->output_file = std::string(output_file_env) + \".json\";\n"))]),
    ("B06", [sub(CTOR, ("split_string(env_events_cuda, this->event_names_cuda);", "split_string(env_events_cuda, this->event_names_cpu);"))]),
    ("B06", [sub(CTOR, ("        if (env_events_cpu) {\n", "        if (env_events_cpu && !std::getenv(\"__DAISY_INSTRUMENTATION_EVENTS_CUDA\")) {\n"))]),
    ("B06", [(F, "start = end + 1;", "start = end + 2;")]),
    ("B06", [(F, "out.push_back(s.substr(start));\n", "if (out.empty()) out.push_back(s.substr(start));\n")]),
    ("B06", [sub(CTOR, ("        if (retval != ver) {", "        if (retval < 0) {"))]),
    ("B06", [sub(CTOR, ("std::strtol(ver_str, nullptr, 0)", "std::strtol(ver_str, nullptr, 16)"))]),
    ("B06", [sub(CTOR, ("_PAPI_library_init && _PAPI_create_eventset", "_PAPI_create_eventset"))]),
    ("B06", [sub(CTOR, ("_PAPI_stop && _PAPI_reset", "_PAPI_reset"))]),
    ("B06", [sub(CTOR, ("        if (!this->papi_available) {\n            std::fprintf(stderr, \"[daisy-rtl] PAPI not available.\\n\");\n            exit(EXIT_FAILURE);", "        if (!this->papi_available) {\n            std::fprintf(stderr, \"[daisy-rtl] PAPI not available.\\n\");\n            exit(EXIT_SUCCESS);"))]),
    ("B06", [(F, 'dlsym(handle, "PAPI_stop")', 'dlsym(handle, "PAPI_read")')]),
    ("B06", [(F, 'std::getenv("DAISY_PAPI_PATH")', 'std::getenv("PAPI_PATH")')]) if False else
    ("B06", [sub(CTOR, ('std::getenv("__DAISY_INSTRUMENTATION_FILE")', 'std::getenv("DAISY_INSTRUMENTATION_FILE")'))]),
    # H01
    ("H01", [(H, "        if (exp & 1) {", "        if (exp & 1 && base != 0) {")]),
    ("H01", [(H, "        exp >>= 1;\n", "        exp /= 4;\n")]),
    ("H01", [(H, "    if (exp < 0) {\n        return 0;", "    if (exp < 0) {\n        return base == 1;")]),
    ("H01", [(H, "    if (exp < 0) {\n        return 0;", "    if (exp <= 0) {\n        return 0;")]),
]
WRAP = "    std::mutex mutex;\n\n    double"
SAME = [
    ("B02", [sub(FIN, ("> REGION_CACHE_SIZE", ">= REGION_CACHE_SIZE"))]),
    ("B01", [sub(ENT, (LOCK, "        std::scoped_lock guard{this->mutex};\n"))]),
    ("B01", [sub(MET, (LOCK, "        std::unique_lock<std::mutex> lk(this->mutex);\n"))]),
    ("B02 B03", [sub(FIN, ("        DaisyRegion& region = it->second;\n\n        // Stop counters\n", "        DaisyRegion& region = it->second;\n        stop_counters(region);\n        // Stop counters\n"), (FIN[FIN.index("        if (region.event_set == __DAISY_EVENT_SET_CPU", FIN.index("// Stop counters")):FIN.index("        // Append to cache")], "")), (F, "    void enter_region(", "    void stop_counters(DaisyRegion& region) {\n        size_t n = 0;\n        if (region.event_set == __DAISY_EVENT_SET_CPU) {\n            n = event_names_cpu.size();\n        } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {\n            n = event_names_cuda.size();\n        }\n        if (n == 0) {\n            return;\n        }\n        std::vector<long long> counts(n, 0);\n        _PAPI_stop(region.papi_eventset, counts.data());\n    }\n\n    void enter_region(")]),
    ("B02", [sub(FIN, ("        if (this->sleeping_regions_id_lookup.find(region.metadata.region_uuid) ==\n            this->sleeping_regions_id_lookup.end()) {\n", "        if (!this->sleeping_regions_id_lookup.contains(region.metadata.region_uuid)) {\n"))]),
    ("B02", [sub(FIN, ("        if (this->sleeping_regions_by_name.size() > REGION_CACHE_SIZE) {", "        constexpr size_t limit = REGION_CACHE_SIZE;\n        while (sleeping_regions_by_name.size() > limit) {"))]),
    ("B02", [sub(DTOR, ("            size_t region_id = this->sleeping_regions_id_lookup[region_uuid];\n            auto& region = this->regions[region_id];\n", "            auto& region = this->regions.at(this->sleeping_regions_id_lookup.at(region_uuid));\n"))]),
    ("B02", [sub(REG, ("        regions[region_id] = region;\n", "        regions.emplace(region_id, region);\n"))]),
    ("B02 B03", [sub(REG, ("        if (this->sleeping_regions_id_lookup.find(metadata->region_uuid) != this->sleeping_regions_id_lookup.end()) {\n            auto region_id = this->sleeping_regions_id_lookup[metadata->region_uuid];\n", "        if (auto cached = this->sleeping_regions_id_lookup.find(metadata->region_uuid); cached != this->sleeping_regions_id_lookup.end()) {\n            auto region_id = cached->second;\n"))]),
    ("B03", [sub(ENT, ("        auto it = regions.find(region_id);\n        if (it == regions.end()) {", "        const auto it = regions.find(region_id);\n        if (regions.end() == it) {"))]),
    ("B03", [sub(EXT, ("            std::fprintf(stderr, \"[daisy-rtl] Warning: exiting unknown region %zu\\n\", region_id);\n            exit(EXIT_FAILURE);", "            std::cerr << \"[daisy-rtl] Warning: exiting unknown region \" << region_id << std::endl;\n            std::exit(1);"))]),
    ("B03", [sub(REG, ("        size_t region_id = next_region_id++;\n", "        const size_t region_id = next_region_id;\n        next_region_id += 1;\n"))]),
    ("B03", [(F, "    if (!metadata) {\n        return 0;\n    }\n    return get_daisy_state().register_region(metadata, event_set);", "    return metadata == nullptr ? 0 : get_daisy_state().register_region(metadata, event_set);")]),
    ("B05", [sub(MET, ("        if (value < min) min = value;\n        if (value > max) max = value;", "        min = std::min(min, value);\n        max = std::max(max, value);"))]),
    ("B05", [sub(MET, ("        if (value < min) min = value;\n        if (value > max) max = value;", "        if (value < min) {\n            min = value;\n        } else if (value > max) {\n            max = value;\n        }"))]),
    ("B05", [sub(MET, ("        variance += (delta1 * delta2 - variance) / n;", "        variance = variance + (delta1 * delta2 - variance) / n;"))]),
    ("B05", [sub(ENT, ("            region.last_counts = counts;\n        } else", "            region.last_counts = std::move(counts);\n        } else"))]),
    ("B05", [sub(EXT, ("                region.runtime_n += 1;\n", "                ++region.runtime_n;\n"))]),
    ("B05", [sub(ENT, ("            std::vector<long long> counts(this->event_names_cpu.size(), 0);\n            _PAPI_read(region.papi_eventset, counts.data());\n            region.last_counts = counts;\n        } else", "            region.last_counts.assign(this->event_names_cpu.size(), 0);\n            _PAPI_read(region.papi_eventset, region.last_counts.data());\n        } else"))]),
    ("B04", [sub(EV, ("                entry << \"\\\"\" << JsSafeString(event_names[i].c_str()) << \"\\\":\" << counts[i];\n                if (i < counts.size() - 1) {\n                    entry << \",\";\n                }", "                if (i > 0) {\n                    entry << \",\";\n                }\n                entry << \"\\\"\" << JsSafeString(event_names[i].c_str()) << \"\\\":\" << counts[i];"))]),
    ("B04", [sub(EV, ("        entry << \"}\";\n\n        entry << \"}\";\n        entry << \"}\";\n\n        std::fprintf(f, \"%s\", entry.str().c_str());", "        entry << \"}}}\";\n\n        const std::string text = entry.str();\n        std::fwrite(text.data(), 1, text.size(), f);"))]),
    ("B04", [sub(EV, ("        if (md.sdfg_name) {\n            entry << \"\\\"sdfg_name\\\":\\\"\" << JsSafeString(md.sdfg_name) << \"\\\",\";\n        } else {\n            entry << \"\\\"sdfg_name\\\":\\\"\\\",\";\n        }\n", "        entry << \"\\\"sdfg_name\\\":\\\"\" << JsSafeString(md.sdfg_name) << \"\\\",\";\n"))]),
    ("B04", [sub(DTOR, ("        std::fprintf(f, \"{\\\"traceEvents\\\":[\\n\");", "        std::fputs(\"{\\\"traceEvents\\\":[\\n\", f);"))]),
    ("B04", [sub(DTOR, ("        for (auto iter = regions.begin(); iter != regions.end(); ++iter) {\n            auto& region = iter->second;\n", "        for (auto& [region_id, region] : regions) {\n"))]),
    ("B06", [sub(CTOR, ("        if (aggregate_events_env && std::strcmp(aggregate_events_env, \"aggregate\") == 0) {\n            this->aggregate_events = true;\n        } else {\n            this->aggregate_events = false;\n        }", "        this->aggregate_events = aggregate_events_env != nullptr && std::string(aggregate_events_env) == \"aggregate\";"))]),
    ("B06", [sub(CTOR, ("        if (env_events_cpu) {\n            split_string(env_events_cpu, this->event_names_cpu);\n        }", "        split_string(env_events_cpu, this->event_names_cpu);"))]),
    ("B06", [sub(CTOR, ("        if (!output_file_env) {\n            this->output_file = \"daisy_trace.json\";\n        } else {\n            this->output_file = output_file_env;\n        }", "        this->output_file = output_file_env ? output_file_env : \"daisy_trace.json\";"))]),
    ("B06", [(F, "        size_t start = 0, end = 0;\n        while ((end = s.find(',', start)) != std::string::npos) {", "        size_t start = 0;\n        for (size_t end = s.find(','); end != std::string::npos; end = s.find(',', start)) {")]),
    ("H01", [(H, "        exp >>= 1;\n", "        exp /= 2;\n"), (H, "        if (exp & 1) {", "        if (exp % 2 == 1) {")]),
]
