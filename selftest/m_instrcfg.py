I = "rtl/src/instrumentation.cpp"
SRC = open("/repo/" + I).read()
P = "B06"


def between(a, b):
    i = SRC.index(a)
    return SRC[i:SRC.index(b, i + len(a))]


SEG = {"sp": between("    void split_string", "    void append_event(FILE"), "ct": between("    DaisyInstrumentationState()", "    ~DaisyInstr"),
       "pa": between("static void load_papi", "} // namespace")}


def E(seg, *subs):
    t = SEG[seg]
    for old, new in subs:
        assert t.count(old) >= 1, old
        t = t.replace(old, new, 1)
    return (I, SEG[seg], t)


MODE = SEG["ct"][SEG["ct"].index("        const char* aggregate_events_env"):SEG["ct"].index("        // Output file")]
OUT = SEG["ct"][SEG["ct"].index("        const char* output_file_env"):SEG["ct"].index("        // Events - CPU")]
BUGS = [(P, [E(*x)]) for x in [
    ("ct", ("\"aggregate\") == 0", "\"aggregated\") == 0")),
    ("ct", ("\"aggregate\") == 0", "\"aggregate\") != 0")),
    ("ct", ("aggregate_events = true", "aggregate_events = false")),
    ("ct", ("aggregate_events = false", "aggregate_events = true")),
    ("ct", ("__DAISY_INSTRUMENTATION_MODE", "__DAISY_INSTRUMENTATION_FILE")),
    ("ct", ("daisy_trace.json", "daisy_trace.txt")),
    ("ct", ("if (!output_file_env)", "if (output_file_env)")),
    ("ct", ("this->output_file = output_file_env;", ";")),
    ("ct", ("getenv(\"__DAISY_INSTRUMENTATION_EVENTS_CUDA\")", "getenv(\"__DAISY_INSTRUMENTATION_EVENTS\")")),
    ("ct", ("split_string(env_events_cuda, this->event_names_cuda)", "split_string(env_events_cuda, this->event_names_cpu)")),
    ("ct", ("split_string(env_events_cuda, this->event_names_cuda)", "split_string(env_events_cpu, this->event_names_cuda)")),
    ("ct", ("if (env_events_cuda)", "if (env_events_cpu)")),
    ("ct", ("if (env_events_cuda)", "if (env_events_cuda && !env_events_cpu)")),
    ("ct", (" && _PAPI_read", "")),
    ("ct", ("_PAPI_cleanup_eventset && _PAPI_destroy_eventset", "_PAPI_cleanup_eventset")),
    ("ct", ("_PAPI_cleanup_eventset && _PAPI_destroy_eventset", "(_PAPI_cleanup_eventset || _PAPI_destroy_eventset)")),
    ("ct", ("retval != ver", "retval < 0")),
    ("ct", ("strtol(ver_str, nullptr, 0)", "strtol(ver_str, nullptr, 10)")),
    ("ct", ("if (!this->papi_available)", "if (this->papi_available)")),
    ("ct", ("            exit(EXIT_FAILURE);\n        }\n\n        // Aggregate", "        }\n\n        // Aggregate")),
    ("pa", ("dlsym(handle, \"PAPI_stop\")", "dlsym(handle, \"PAPI_read\")")),
    ("sp", ("start = end + 1", "start = end")),
    ("sp", ("start = end + 1", "start = end + 2")),
    ("sp", ("s.find(',', start)", "s.find(',')")),
    ("sp", ("s.find(',', start)", "s.find(';', start)")),
    ("sp", ("end - start", "end - start - 1")),
    ("sp", ("end - start", "end")),
    ("sp", ("        out.push_back(s.substr(start));\n", "")),
    ("sp", ("while (", "if (")),
    ("sp", ("if (s.empty()) return;", "if (start == 0) return;")),
]]
SAME = [(P, [E(*x)]) for x in [
    ("ct", (MODE, "        const char* m = std::getenv(\"__DAISY_INSTRUMENTATION_MODE\");\n        this->aggregate_events = m != nullptr && std::string(m) == \"aggregate\";\n")),
    ("ct", (MODE, "        const char* m = std::getenv(\"__DAISY_INSTRUMENTATION_MODE\");\n        this->aggregate_events = m && !std::strcmp(m, \"aggregate\");\n")),
    ("ct", (OUT, "        const char* o = std::getenv(\"__DAISY_INSTRUMENTATION_FILE\");\n        this->output_file = o ? o : \"daisy_trace.json\";\n")),
    ("ct", (OUT, "        this->output_file = \"daisy_trace.json\";\n        if (const char* o = std::getenv(\"__DAISY_INSTRUMENTATION_FILE\")) this->output_file = o;\n")),
    ("ct", ("        if (env_events_cuda) {\n            split_string(env_events_cuda, this->event_names_cuda);\n        }", "        split_string(env_events_cuda, this->event_names_cuda);")),
    ("ct", ("if (retval != ver)", "if (!(retval == ver))")),
    ("ct", ("        this->papi_available = _PAPI_library_init", "        bool ok = _PAPI_library_init"), ("_PAPI_destroy_eventset;", "_PAPI_destroy_eventset;\n        this->papi_available = ok;")),
    ("sp", ("        if (!str) return;\n        std::string s(str);", "        if (str == nullptr) return;\n        const std::string s = str;"), ("push_back", "emplace_back")),
    ("sp", ("        size_t start = 0, end = 0;\n        while ((end = s.find(',', start)) != std::string::npos) {\n            out.push_back(s.substr(start, end - start));\n            start = end + 1;\n        }\n        if (s.empty()) return;\n        out.push_back(s.substr(start));",
            "        if (s.empty()) return;\n        size_t b = 0;\n        for (size_t e = s.find(','); e != std::string::npos; e = s.find(',', b)) {\n            out.push_back(s.substr(b, e - b));\n            b = e + 1;\n        }\n        out.push_back(s.substr(b));")),
    ("sp", ("        size_t start = 0, end = 0;\n        while ((end = s.find(',', start)) != std::string::npos) {\n            out.push_back(s.substr(start, end - start));\n            start = end + 1;\n        }\n        if (s.empty()) return;\n        out.push_back(s.substr(start));",
            "        if (s.empty()) return;\n        size_t start = 0;\n        while (true) {\n            size_t end = s.find(',', start);\n            if (end == std::string::npos) break;\n            auto piece = s.substr(start, end - start);\n            out.push_back(piece);\n            start = end + 1;\n        }\n        out.push_back(s.substr(start));")),
    ("pa", ("    _PAPI_stop = ", "    auto get = [&](const char* n) { return dlsym(handle, n); };\n    _PAPI_stop = "), ("dlsym(handle, \"PAPI_stop\")", "get(\"PAPI_stop\")")),
]]
