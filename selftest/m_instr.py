I = "rtl/src/instrumentation.cpp"
SRC = open("/repo/" + I).read()


def between(a, b, n=0):
    """The text from the n-th occurrence of a up to (excluding) the following b."""
    i = -1
    for _ in range(n + 1):
        i = SRC.index(a, i + 1)
    return SRC[i:SRC.index(b, i + len(a))]


ENTER_CPU = '''            _PAPI_read(region.papi_eventset, counts.data());
            region.last_counts = counts;
        } else if'''
REG_NEW = between("        DaisyRegion region;\n        std::memcpy", "        size_t region_id = next_region_id++")
REG_KNOWN = between("            auto& region = this->regions[region_id];\n\n            if (_PAPI_create_eventset", "            // start region\n            _PAPI_start", 0)
ADD_NEW = REG_NEW[REG_NEW.index("        if (region.event_set"):]
ADD_KNOWN = REG_KNOWN[REG_KNOWN.index("            if (region.event_set"):]
WELF_CPU = between("            for (size_t i = 0; i < counts.size(); ++i) {\n                region.n[i] += 1;", " && this->event_names_cuda")
EXIT_CNT = SRC[SRC.index("        // Save end counters\n"):SRC.index("    void provided_metric(")]
CPU_READ_EXIT = between("            for (size_t i = 0; i < counts.size(); ++i) {\n                counts[i] -= region.last_counts[i];", "            // If aggregating")
UNK = '''            std::fprintf(stderr, "[daisy-rtl] Warning: %s unknown region %%zu\\n", region_id);
            exit(EXIT_FAILURE);
        }
'''
STATIC_UPD = between("        // Update static counter\n", "    void finalize(")
FIN_STOP = between("        // Stop counters\n", "        // Append to cache")
EVICT = between("        // Check if cache has grown to large\n", "static DaisyInstrumentationState& get_daisy_state")
RT_AGG = between("            // Update aggregated runtime stats\n", "        } else {\n            long long duration_ns = end_ns - region.starts.back();")

BUGS = [
    # B01
    ("B01", [(I, '''    void provided_metric(size_t region_id, const char* name, double value) {
        std::lock_guard<std::mutex> lock(mutex);
''', '''    void provided_metric(size_t region_id, const char* name, double value) {
''')]),
    ("B01", [(I, '''    void enter_region(size_t region_id) {
        std::lock_guard<std::mutex> lock(mutex);
''', '''    void enter_region(size_t region_id) {
        std::mutex mutex;
        std::lock_guard<std::mutex> lock(mutex);
''')]),
    ("B01", [(I, '''        std::lock_guard<std::mutex> lock(mutex);

        auto it = regions.find(region_id);
        if (it == regions.end()) {
            std::fprintf(stderr, "[daisy-rtl] Warning: exiting''', '''        std::unique_lock<std::mutex> lock(mutex);

        auto it = regions.find(region_id);
        lock.unlock();
        if (it == regions.end()) {
            std::fprintf(stderr, "[daisy-rtl] Warning: exiting''')]),
    ("B01", [(I, '''    void finalize(size_t region_id) {
        std::lock_guard<std::mutex> lock(mutex);
''', '''    void finalize(size_t region_id) {
        std::unique_lock<std::mutex> lock(mutex, std::defer_lock);
''')]),
    ("B01", [(I, '''        std::lock_guard<std::mutex> lock(mutex);

        // Check cache first''', '''        std::lock_guard<std::mutex>{mutex};

        // Check cache first''')]),
    ("B01", [(I, '''        std::lock_guard<std::mutex> lock(mutex);

        // Check cache first
''', '''        if (this->aggregate_events) {
            std::lock_guard<std::mutex> lock(mutex);
        }

        // Check cache first
''')]),
    # B02
    ("B02", [(I, "            this->sleeping_regions_by_name.remove(metadata->region_uuid);\n", "")]),
    ("B02", [(I, '''            // start region
            auto& region = this->regions[region_id];
            _PAPI_start(region.papi_eventset);
''', '''            auto& region = this->regions[region_id];
            _PAPI_reset(region.papi_eventset);
''')]),
    ("B02", [(I, "            evict_region.papi_eventset = -1;", "            evict_region.papi_eventset = 0;")]),
    ("B02", [(I, "            this->sleeping_regions_id_lookup.erase(evict_region_uuid);\n", "")]),
    ("B02", [(I, "this->sleeping_regions_by_name.pop_front();", "this->sleeping_regions_by_name.pop_back();")]),
    ("B02", [(I, "            if (_PAPI_cleanup_eventset(evict_region.papi_eventset) != 0) {", "            if (_PAPI_cleanup_eventset(region.papi_eventset) != 0) {")]),
    ("B02", [(I, "        if (this->sleeping_regions_by_name.size() > REGION_CACHE_SIZE) {", "        if (this->sleeping_regions_by_name.size() == REGION_CACHE_SIZE + 100 && event_names_cpu.size() > 1) {")]),
    ("B02", [(I, '''        if (_PAPI_create_eventset(&region.papi_eventset) != 0) {
            std::fprintf(stderr, "[daisy-rtl] Failed to create PAPI eventset.\\n");
            exit(EXIT_FAILURE);
        }
        if (region.event_set == __DAISY_EVENT_SET_CPU) {
            for (const auto& ev : this->event_names_cpu) {
                if (_PAPI''', '''        if (_PAPI_create_eventset(&region.papi_eventset) != 0) {
            std::fprintf(stderr, "[daisy-rtl] Failed to create PAPI eventset.\\n");
            exit(EXIT_FAILURE);
        }
        if (region.event_set == __DAISY_EVENT_SET_CPU) {
            for (const auto& ev : this->event_names_cuda) {
                if (_PAPI''')]),
    ("B02", [(I, ADD_KNOWN, "")]),
    ("B02", [(I, ADD_NEW, ADD_NEW.replace("exit(EXIT_FAILURE);", "break;"))]),
    ("B02", [(I, "        region_name_to_id[region.metadata.region_uuid] = region_id;\n", "")]),
    ("B02", [(I, "        regions[region_id] = region;\n        region_name_to_id[region.metadata.region_uuid] = region_id;\n\n        _PAPI_start(region.papi_eventset);", "        regions[region_id] = region;\n        region_name_to_id[region.metadata.region_uuid] = region_id;\n\n        if (event_set == __DAISY_EVENT_SET_CPU) _PAPI_start(region.papi_eventset);")]),
    ("B02", [(I, "size_t region_id = next_region_id++;", "size_t region_id = next_region_id;")]),
    ("B02", [(I, "        } else if (region.event_set == __DAISY_EVENT_SET_CUDA && this->event_names_cuda.size() > 0) {\n            std::vector<long long> counts(this->event_names_cuda.size(), 0);\n            _PAPI_stop", "        } else if (region.event_set == __DAISY_EVENT_SET_CUDA && this->event_names_cuda.size() > 0) {\n            std::vector<long long> counts(this->event_names_cpu.size(), 0);\n            _PAPI_stop")]),
    ("B02", [(I, "            _PAPI_stop(region.papi_eventset, counts.data());\n        } else if", "            _PAPI_read(region.papi_eventset, counts.data());\n        } else if")]),
    ("B02", [(I, "            this->sleeping_regions_by_name.push_back(region.metadata.region_uuid);\n        }\n", "        }\n        this->sleeping_regions_by_name.push_back(region.metadata.region_uuid);\n")]),
    ("B02", [(I, '''            if (_PAPI_destroy_eventset(&region.papi_eventset) != 0) {
                std::fprintf(stderr, "[daisy-rtl] Failed to destroy PAPI eventset.\\n");
                exit(EXIT_FAILURE);
            }
            region.papi_eventset = -1;
        }
        this->sleeping_regions_id_lookup.clear();''', '''            if (_PAPI_destroy_eventset(&region.papi_eventset) != 0) {
                std::fprintf(stderr, "[daisy-rtl] Failed to destroy PAPI eventset.\\n");
                exit(EXIT_FAILURE);
            }
            region.papi_eventset = -1;
            if (this->sleeping_regions_by_name.size() > 5) break;
        }
        this->sleeping_regions_id_lookup.clear();''')]),
    ("B02", [(I, "region_id = this->region_name_to_id[metadata->region_uuid];", "region_id = this->region_name_to_id[metadata->function_name];")]),
    ("B02", [(I, "    int papi_eventset = -1;", "    int papi_eventset = 0;")]),
    ("B02", [(I, "    int papi_eventset = -1;", "    int papi_eventset;")]),
    ("B02", [(I, "    if (!metadata) {\n        return 0;\n    }\n", "")]),
    # B03
    ("B03", [(I, "metric for unknown region %zu\\n\", region_id);\n            exit(EXIT_FAILURE);", "metric for unknown region %zu\\n\", region_id);\n            return;")]),
    ("B03", [(I, "exiting unknown region %zu\\n\", region_id);\n            exit(EXIT_FAILURE);", "exiting unknown region %zu\\n\", region_id);\n            exit(EXIT_SUCCESS);")]),
    ("B03", [(I, '''        if (it == regions.end()) {
            std::fprintf(stderr, "[daisy-rtl] Warning: finalizing unknown''', '''        if (it == regions.end() && region_id > next_region_id) {
            std::fprintf(stderr, "[daisy-rtl] Warning: finalizing unknown''')]),
    ("B03", [(I, '''        auto it = regions.find(region_id);
        if (it == regions.end()) {
            std::fprintf(stderr, "[daisy-rtl] Warning: entering unknown region %zu\\n", region_id);
            exit(EXIT_FAILURE);
        }

        DaisyRegion& region = it->second;
''', '''        DaisyRegion& region = regions[region_id];
''')]),
    ("B03", [(I, '''        auto it = regions.find(region_id);
        if (it == regions.end()) {
            std::fprintf(stderr, "[daisy-rtl] Warning: exiting unknown''', '''        long long now = _PAPI_get_real_nsec();
        regions[region_id].last_start = now;
        auto it = regions.find(region_id);
        if (it == regions.end()) {
            std::fprintf(stderr, "[daisy-rtl] Warning: exiting unknown''')]),
    # B05
    ("B05", [(I, "region.runtime_mean += delta1 / region.runtime_n;", "region.runtime_mean += delta1 / (region.runtime_n + 1);")]),
    ("B05", [(I, "region.runtime_variance += (delta1 * delta2 - region.runtime_variance) / region.runtime_n;", "region.runtime_variance += (delta1 * delta1 - region.runtime_variance) / region.runtime_n;")]),
    ("B05", [(I, "if (duration_ns < region.runtime_min) region.runtime_min = duration_ns;", "if (duration_ns > region.runtime_min) region.runtime_min = duration_ns;")]),
    ("B05", [(I, "if (duration_ns < region.runtime_min) region.runtime_min = duration_ns;\n                if (duration_ns > region", "if (duration_ns < region.runtime_min) region.runtime_min = duration_ns;\n                else if (duration_ns > region.runtime_mean && duration_ns > region")]),
    ("B05", [(I, "                region.runtime_max = duration_ns;\n            } else {", "            } else {")]),
    ("B05", [(I, "long long duration_ns = end_ns - region.last_start;", "long long duration_ns = end_ns - region.first_start;")]),
    ("B05", [(I, "long long duration_ns = end_ns - region.starts.back();", "long long duration_ns = end_ns - region.starts.front();")]),
    ("B05", [(I, "            if (region.first_start == 0) {\n                region.first_start = start_ns;\n            }\n", "            region.first_start = start_ns;\n")]),
    ("B05", [(I, "            region.last_counts = counts;\n        } else if", "        } else if")]),
    ("B05", [(I, WELF_CPU, WELF_CPU.replace("double delta1 = counts[i]", "double delta1 = counts[0]"))]),
    ("B05", [(I, WELF_CPU, WELF_CPU.replace("for (size_t i = 0;", "for (size_t i = 1;"))]),
    ("B05", [(I, WELF_CPU, WELF_CPU.replace("if (counts[i] > region.max[i])", "if (counts[i] < region.max[i])"))]),
    ("B05", [(I, WELF_CPU, WELF_CPU.replace("region.mean[i] += delta1 / region.n[i]", "region.mean[i] += delta1 / region.n[0] * 1.0 + delta1 * 0.0"))]),
    ("B05", [(I, EXIT_CNT, EXIT_CNT.replace("std::numeric_limits<long long>::max()", "0", 1))]),
    ("B05", [(I, EXIT_CNT, EXIT_CNT.replace("std::numeric_limits<long long>::min()", "std::numeric_limits<int>::min()", 1))]),
    ("B05", [(I, EXIT_CNT, EXIT_CNT.replace("counts[i] -= region.last_counts[i];", "counts[i] -= region.last_counts[0];", 1))]),
    ("B05", [(I, EXIT_CNT, EXIT_CNT.replace("i < counts.size(); ++i) {\n                counts[i] -=", "i + 1 < counts.size(); ++i) {\n                counts[i] -=", 1))]),
    ("B05", [(I, "        variance += (delta1 * delta2 - variance) / n;", "        variance += (delta1 * delta2 - variance) / (n - 1);")]),
    ("B05", [(I, "            region.static_counters_min[name] = value;\n            region.static", "            region.static_counters_min[name] = 0.0;\n            region.static")]),
    ("B05", [(I, "        double delta2 = value - mean;", "        double delta2 = delta1;")]),
    ("B05", [(I, "region_id, name, static_cast<double>(value));", "region_id, name, static_cast<double>(static_cast<int>(value)));")]),
    ("B05", [(I, "        if (value > max) max = value;", "        if (value > max) min = value;")]),
    ("B05", [(I, "            region.durations.push_back(duration_ns);", "            if (duration_ns > 0) region.durations.push_back(duration_ns);")]),
    ("B05", [(I, "            region.runtime_n = 1;", "            region.runtime_n = 0;")]) if False else
    ("B05", [(I, "                region.runtime_n = 1;\n", "                region.runtime_n = 2;\n")]),
    ("B05", [(I, "            auto& region = this->regions[region_id];\n\n            if (_PAPI_create", "            auto& region = this->regions[region_id];\n            region.metadata = *metadata;\n            region.counts.clear();\n            region.runtime_n = 0;\n\n            if (_PAPI_create")]),
    ("B05", [(I, "    void enter_region(size_t region_id) {\n", "    void enter_region(size_t region_id) {\n        long long start_ns = _PAPI_get_real_nsec();\n"), (I, "        long long start_ns = _PAPI_get_real_nsec();\n        if (this", "        if (this")]),
]

HELP_EVENTS = '''    const std::vector<std::string>& events_of(const DaisyRegion& region) const {
        static const std::vector<std::string> none;
        switch (region.event_set) {
            case __DAISY_EVENT_SET_CPU:
                return event_names_cpu;
            case __DAISY_EVENT_SET_CUDA:
                return event_names_cuda;
            default:
                return none;
        }
    }

public:
    DaisyInstrumentationState() {'''
HELP_OPEN = '''    void open_eventset(DaisyRegion& region) {
        if (_PAPI_create_eventset(&region.papi_eventset) != 0) {
            std::fprintf(stderr, "[daisy-rtl] Failed to create PAPI eventset.\\n");
            exit(EXIT_FAILURE);
        }
        const std::vector<std::string>* names = nullptr;
        if (region.event_set == __DAISY_EVENT_SET_CPU) {
            names = &event_names_cpu;
        } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
            names = &event_names_cuda;
        }
        if (names != nullptr) {
            for (size_t k = 0; k < names->size(); k++) {
                if (_PAPI_add_named_event(region.papi_eventset, (*names)[k].c_str()) != 0) {
                    std::fprintf(stderr, "[daisy-rtl] Could not add event %s.\\n", (*names)[k].c_str());
                    exit(EXIT_FAILURE);
                }
            }
        }
    }

    DaisyRegion& lookup(size_t region_id, const char* what) {
        auto it = regions.find(region_id);
        if (it == regions.end()) {
            std::fprintf(stderr, "[daisy-rtl] Warning: %s unknown region %zu\\n", what, region_id);
            exit(EXIT_FAILURE);
        }
        return it->second;
    }

    template <typename N, typename D, typename X>
    static void welford(N& n, double& mean, double& variance, D& min, D& max, X sample) {
        n += 1;
        const double before = sample - mean;
        mean = mean + before / n;
        const double after = sample - mean;
        variance = variance + (before * after - variance) / n;
        min = std::min<D>(min, sample);
        max = std::max<D>(max, sample);
    }

    void release(DaisyRegion& region) {
        if (_PAPI_cleanup_eventset(region.papi_eventset) != 0 || _PAPI_destroy_eventset(&region.papi_eventset) != 0) {
            std::fprintf(stderr, "[daisy-rtl] Failed to release PAPI eventset.\\n");
            exit(EXIT_FAILURE);
        }
        region.papi_eventset = -1;
    }

public:
    DaisyInstrumentationState() {'''
PUB = "public:\n    DaisyInstrumentationState() {"
LOOK = '''        auto it = regions.find(region_id);
        if (it == regions.end()) {
            std::fprintf(stderr, "[daisy-rtl] Warning: %s unknown region %%zu\\n", region_id);
            exit(EXIT_FAILURE);
        }

        DaisyRegion& region = it->second;
'''
ALL = "B01 B02 B03 B05"
SAME = [
    # helper that picks the event list
    (ALL, [(I, PUB, HELP_EVENTS), (I, FIN_STOP, '''        const auto& names = events_of(region);
        if (!names.empty()) {
            std::vector<long long> counts(names.size(), 0);
            _PAPI_stop(region.papi_eventset, counts.data());
        }

'''), (I, between("        // Save start counters (before timing)", "        // Save start time"), '''        const auto& names = events_of(region);
        if (!names.empty()) {
            std::vector<long long> counts(names.size(), 0);
            _PAPI_read(region.papi_eventset, counts.data());
            region.last_counts = std::move(counts);
        }

'''), (I, EXIT_CNT, '''        const auto& names = events_of(region);
        if (names.empty()) return;
        std::vector<long long> counts(names.size(), 0);
        _PAPI_read(region.papi_eventset, counts.data());
''' + between("            for (size_t i = 0; i < counts.size(); ++i) {\n                counts[i] -= region.last_counts[i];", "        } else if (region.event_set == __DAISY_EVENT_SET_CUDA") + "    }\n\n")]),
    # event set opened in a helper
    (ALL, [(I, PUB, HELP_OPEN), (I, REG_NEW[REG_NEW.index("        if (_PAPI_create"):], "        open_eventset(region);\n\n"),
           (I, REG_KNOWN[REG_KNOWN.index("            if (_PAPI_create"):], "            open_eventset(region);\n\n")]),
    # lookup helper and eviction helper
    (ALL, [(I, PUB, HELP_OPEN)] + [(I, LOOK % w, '        DaisyRegion& region = lookup(region_id, "%s");\n' % w) for w in ("entering", "exiting", "metric for", "finalizing")]),
    (ALL, [(I, PUB, HELP_OPEN), (I, EVICT[EVICT.index("            if (_PAPI_cleanup"):EVICT.index("            evict_region.papi_eventset = -1;\n") + len("            evict_region.papi_eventset = -1;\n")], "            release(evict_region);\n")]),
    # welford helper
    (ALL, [(I, PUB, HELP_OPEN), (I, STATIC_UPD, '''        welford(
            region.static_counters_n[name], region.static_counters_mean[name], region.static_counters_variance[name],
            region.static_counters_min[name], region.static_counters_max[name], value
        );
    }

''')]),
    (ALL, [(I, PUB, HELP_OPEN), (I, RT_AGG[RT_AGG.index("                region.runtime_n += 1;"):], '''                welford(region.runtime_n, region.runtime_mean, region.runtime_variance, region.runtime_min, region.runtime_max, duration_ns);
            }
''')]),
    (ALL, [(I, WELF_CPU, '''            for (size_t i = 0; i < counts.size(); ++i) {
                const long long c = counts[i];
                const long long samples = ++region.n[i];
                const double old_mean = region.mean[i];
                const double new_mean = old_mean + (c - old_mean) / samples;
                region.variance[i] = (region.variance[i] * (samples - 1) + (c - old_mean) * (c - new_mean)) / samples;
                region.mean[i] = new_mean;
                region.min[i] = std::min(region.min[i], c);
                if (region.max[i] <= c) region.max[i] = c;
            }
        } else if (region.event_set == __DAISY_EVENT_SET_CUDA''')]),
    # one-letter rewrites
    (ALL, [(I, "            if (region.first_start == 0) {\n                region.first_start = start_ns;\n            }\n            region.last_start = start_ns;", "            region.last_start = start_ns;\n            if (!region.first_start) {\n                region.first_start = region.last_start;\n            }")]),
    (ALL, [(I, '''            auto region_id = this->sleeping_regions_id_lookup[metadata->region_uuid];
''', '''            const size_t region_id = this->sleeping_regions_id_lookup.at(metadata->region_uuid);
''')]),
    (ALL, [(I, '''        if (this->sleeping_regions_id_lookup.find(metadata->region_uuid) != this->sleeping_regions_id_lookup.end()) {
            auto region_id = this->sleeping_regions_id_lookup[metadata->region_uuid];
''', '''        const auto cached = this->sleeping_regions_id_lookup.find(metadata->region_uuid);
        if (cached != this->sleeping_regions_id_lookup.end()) {
            const size_t region_id = cached->second;
''')]),
    (ALL, [(I, '''            this->sleeping_regions_id_lookup.insert({region.metadata.region_uuid, region_id});
            this->sleeping_regions_by_name.push_back(region.metadata.region_uuid);
''', '''            this->sleeping_regions_by_name.emplace_back(region.metadata.region_uuid);
            this->sleeping_regions_id_lookup[region.metadata.region_uuid] = region_id;
''')]),
    (ALL, [(I, '''        regions[region_id] = region;
        region_name_to_id[region.metadata.region_uuid] = region_id;

        _PAPI_start(region.papi_eventset);
''', '''        _PAPI_start(region.papi_eventset);
        region_name_to_id.emplace(metadata->region_uuid, region_id);
        regions.emplace(region_id, std::move(region));
''')]),
    (ALL, [(I, "std::memcpy(&region.metadata, metadata, sizeof(__daisy_metadata));", "region.metadata = *metadata;")]),
    (ALL, [(I, '''        std::lock_guard<std::mutex> lock(mutex);

        // Check cache first''', '''        std::scoped_lock guard(this->mutex);

        // Check cache first'''), (I, '''    void finalize(size_t region_id) {
        std::lock_guard<std::mutex> lock(mutex);
''', '''    void finalize(size_t region_id) {
        std::unique_lock<std::mutex> hold(mutex);
''')]),
    (ALL, [(I, "    static DaisyInstrumentationState instance;\n    return instance;", "    static auto* instance = new DaisyInstrumentationState();\n    return *instance;")]) if False else
    (ALL, [(I, '''            std::string evict_region_uuid = this->sleeping_regions_by_name.front();
            this->sleeping_regions_by_name.pop_front();

            size_t evict_region_id = this->sleeping_regions_id_lookup[evict_region_uuid];
            this->sleeping_regions_id_lookup.erase(evict_region_uuid);
''', '''            const std::string evict_region_uuid = this->sleeping_regions_by_name.front();
            auto entry = this->sleeping_regions_id_lookup.find(evict_region_uuid);
            const size_t evict_region_id = entry->second;
            this->sleeping_regions_id_lookup.erase(entry);
            this->sleeping_regions_by_name.erase(this->sleeping_regions_by_name.begin());
''')]),
    (ALL, [(I, "        for (auto& region_uuid : this->sleeping_regions_by_name) {\n            size_t region_id = this->sleeping_regions_id_lookup[region_uuid];\n            auto& region", "        for (auto& [region_uuid, region_id] : this->sleeping_regions_id_lookup) {\n            auto& region")]),
]
