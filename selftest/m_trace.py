I = "rtl/src/instrumentation.cpp"
SRC = open("/repo/" + I).read()
P = "B04"


def between(a, b):
    i = SRC.index(a)
    return SRC[i:SRC.index(b, i + len(a))]


SEG = {"ev": between("    void append_event(FILE", "    void append_event_aggregated"), "ag": between("    void append_event_aggregated", "public:"),
       "dt": between("    ~DaisyInstrumentationState", "    size_t register_region"), "fs": between("struct JsSafeDouble", "class DaisyInstr"),
       "sp": between("    void split_string", "    void append_event(FILE"), "ct": between("    DaisyInstrumentationState()", "    ~DaisyInstr"),
       "api": between("size_t __daisy_instrumentation_init", "#ifdef __cplusplus\n} //"), "pa": between("static void load_papi", "} // namespace")}


def E(seg, *subs):
    t = SEG[seg]
    for old, new in subs:
        assert t.count(old) >= 1, old
        t = t.replace(old, new, 1)
    return (I, SEG[seg], t)


ESC = SEG["fs"][SEG["fs"].index("    for (const char* c = val.value"):SEG["fs"].rindex("    return os;")]
DOC = SEG["ev"][SEG["ev"].index("        // docc metadata"):SEG["ev"].index("        // Metrics")]
BUGS = [
    (P, [E("ev", ("JsSafeString(md.file_name) << \"\\\",\"", "md.file_name << \"\\\",\""))]),
    (P, [E("ev", ("md.line_begin << \"-\" << md.line_end", "md.line_begin << \"-\" << md.column_end"))]),
    (P, [E("ag", ("\"to\\\":{\\\"line\\\":\" << md.line_end", "\"to\\\":{\\\"line\\\":\" << md.line_begin"))]),
    (P, [E("ev", ("if (i < counts.size() - 1)", "if (i < counts.size())"))]),
    (P, [E("ev", ("if (i < counts.size() - 1)", "if (i < event_names.size())"))]),
    (P, [E("ev", ("region.durations.at(index)", "region.durations.back()"))]),
    (P, [E("ev", ("region.starts.at(index) / 1000", "region.starts.at(0) / 1000"))]),
    (P, [E("ev", ("region.starts.at(index) / 1000", "region.starts.at(index) / 1000000"))]),
    (P, [E("ev", ("auto& counts = region.counts.at(index)", "auto& counts = region.counts.at(0)"))]),
    (P, [E("ev", ("for (size_t i = 0; i < counts.size(); ++i)", "for (size_t i = 1; i < counts.size(); ++i)"))]),
    (P, [E("ev", ("<< counts[i];", "<< counts[0];"))]),
    (P, [E("ev", ("event_names[i].c_str()", "event_names[0].c_str()"))]),
    (P, [E("ev", ("\"cat\\\":\\\"region,daisy", "\"cat\\\":\\\"region,docc"))]),
    (P, [E("ev", ("if (md.features_file) {", "if (md.arg_capture_path) {"))]),
    (P, [E("ag", ("JsSafeString(md.features_file)", "JsSafeString(md.opt_report_file)"))]),
    (P, [E("ev", ("if (md.sdfg_name && md.sdfg_file)", "if (md.sdfg_name || md.sdfg_file)"), ("            entry << \",\";\n", "            entry << \",\";\n"))]) if False else
    (P, [E("ev", ("if (md.sdfg_name && md.sdfg_file)", "if (md.sdfg_name && md.sdfg_file && md.num_loops > 0)"))]),
    (P, [E("ag", ("md.is_perfectly_parallel ? \"true\" : \"false\"", "md.is_perfectly_nested ? \"true\" : \"false\""))]),
    (P, [E("ag", ("md.has_side_effects ? \"true\" : \"false\"", "md.has_side_effects ? \"false\" : \"true\""))]),
    (P, [E("ag", ("entry << \"\\\"mean\\\":\" << region.mean[i]", "entry << \"\\\"mean\\\":\" << region.min[i]"))]),
    (P, [E("ag", ("region.n[i]", "region.runtime_n"))]),
    (P, [E("ag", ("JsSafeDouble(region.static_counters_min[name])", "region.static_counters_min[name]"))]),
    (P, [E("ag", ("JsSafeDouble(region.static_counters_min[name])", "JsSafeDouble(region.static_counters_max[name])"))]),
    (P, [E("ag", ("static:::\" << JsSafeString(name.c_str())", "static:::\" << name"))]),
    (P, [E("ag", ("region.runtime_mean * region.runtime_n", "region.runtime_mean"))]),
    (P, [E("ag", ("region.first_start / 1000", "region.last_start / 1000"))]),
    (P, [E("ag", ("ns_to_us(region.runtime_max)", "ns_to_us(region.runtime_mean)"))]),
    (P, [E("ag", ("ns_to_us(region.runtime_min)", "region.runtime_min"))]),
    (P, [E("ag", ("i < event_names.size() && i < region.mean.size()", "i + 1 < event_names.size() && i < region.mean.size()"))]),
    (P, [E("ag", ("            entry << \"}\";\n            entry << \",\";\n        }\n\n        // Runtime stats", "            entry << \"}\";\n        }\n\n        // Runtime stats"))]),
    (P, [E("fs", ("std::isfinite(val.value)", "!std::isnan(val.value)"))]),
    (P, [E("fs", ("*c == '\"' || *c == '\\\\'", "*c == '\"'"))]),
    (P, [E("fs", ("static_cast<unsigned char>(*c) < 0x20", "*c < 0x20"))]),
    (P, [E("fs", ("static_cast<unsigned char>(*c) < 0x20", "*c == '\\n' || *c == '\\t'"))]),
    (P, [E("fs", ("\\\\u%04x", "\\\\u%02x"))]),
    (P, [E("fs", ("char escaped[7]", "char escaped[6]"))]),
    (P, [E("fs", (" else {\n            os << *c;", " else if (static_cast<unsigned char>(*c) < 0x7f) {\n            os << *c;"))]),
    (P, [E("fs", ("os << '\\\\' << *c;", "os << '\\\\' << '\"';"))]),
    (P, [E("fs", ("for (const char* c = val.value; *c; ++c)", "for (const char* c = val.value; *c && *c != '\\n'; ++c)"))]),
    (P, [E("dt", ("                if (!first_event) {\n                    std::fprintf(f, \",\\n\");\n                }\n                first_event = false;\n                append_event(", "                if (event_index > 0) {\n                    std::fprintf(f, \",\\n\");\n                }\n                append_event("))]),
    (P, [E("dt", ("                first_event = false;\n                append_event(", "                append_event("))]),
    (P, [E("dt", ("event_index < region.starts.size()", "event_index < region.durations.size()"))]),
    (P, [E("dt", ("size_t event_index = 0;", "size_t event_index = 1;"))]),
    (P, [E("dt", ("append_event(f, region, event_index, event_names)", "append_event(f, region, 0, event_names)"))]),
    (P, [E("dt", ("                continue;\n", ""))]),
    (P, [E("dt", ("region.event_set == __DAISY_EVENT_SET_CPU", "!this->event_names_cpu.empty()"))]),
    (P, [E("dt", ("std::fopen(this->output_file.c_str(), \"w\")", "std::fopen(this->output_file.c_str(), \"a\")"))]),
    (P, [E("dt", ("std::fopen(this->output_file.c_str(), \"w\")", "std::fopen(\"daisy_trace.json\", \"w\")"))]),
    (P, [E("dt", ("            exit(EXIT_FAILURE);\n        }\n\n        // Output file header", "            return;\n        }\n\n        // Output file header"))]),
    (P, [E("dt", ("\\n]}\\n", "\\n]\\n"))]),
    (P, [E("dt", ("            auto& region = iter->second;\n\n            // Print", "            auto& region = iter->second;\n            if (region.starts.empty()) break;\n\n            // Print"))]),
    (P, [E("dt", ("            auto& region = iter->second;\n\n            // Print", "            auto& region = iter->second;\n            if (!region.metadata.sdfg_name) continue;\n\n            // Print"))]),
    (P, [E("ev", ("std::filesystem::path(md.file_name).filename().c_str()", "std::filesystem::path(md.file_name).stem().c_str()"))]),
    (P, [E("ev", ("std::fprintf(f, \"%s\", entry.str().c_str())", "std::fprintf(f, entry.str().c_str())"))]),
    (P, [E("ev", ("JsSafeString(md.target_type)", "JsSafeString(md.element_type)"))]),
    (P, [E("ag", ("\"element_id\\\":\" << md.element_id", "\"element_id\\\":\" << static_cast<int>(md.element_id)"))]),
    (P, [E("ag", ("if (md.target_type) {", "if (md.target_type && md.element_type) {"))]),
    (P, [E("ev", ("        entry << \"\\\"tid\\\":\" << gettid() << \",\";\n", "        entry << \"\\\"tid\\\":\" << std::hex << gettid() << \",\";\n"))]),
]
SAME = [
    # events built by a shared helper
    (P, [E("ev", (DOC, "        append_docc(entry, md);\n\n"), ("    void append_event(FILE* f", "    static void append_docc(std::stringstream& entry, const __daisy_metadata& md) {\n" + DOC + "    }\n\n    void append_event(FILE* f")),
         E("ag", (SEG["ag"][SEG["ag"].index("        // docc metadata"):SEG["ag"].index("        entry << \"\\\"metrics\\\":{\";")], "        append_docc(entry, md);\n\n"))]),
    # text or empty via a helper
    (P, [E("ev", *[("        if (md.%s) {\n            entry << \"\\\"%s\\\":\\\"\" << JsSafeString(md.%s) << \"\\\",\";\n        } else {\n            entry << \"\\\"%s\\\":\\\"\\\",\";\n        }\n" % (x, x, x, x),
                    "        entry << \"\\\"%s\\\":\\\"\" << JsSafeString(md.%s ? md.%s : \"\") << \"\\\",\";\n" % (x, x, x)) for x in ("sdfg_name", "target_type")])]),
    (P, [E("ev", *[("        if (md.%s) {\n            entry << \"\\\"%s\\\":\\\"\" << JsSafeString(md.%s) << \"\\\",\";\n        } else {\n            entry << \"\\\"%s\\\":\\\"\\\",\";\n        }\n" % (x, x, x, x),
                    "        entry << \"\\\"%s\\\":\\\"\" << JsSafeString(md.%s) << \"\\\",\";\n" % (x, x)) for x in ("sdfg_name", "sdfg_file", "target_type")])]),
    # events returned as text
    (P, [E("ev", ("void append_event(FILE* f, DaisyRegion& region,", "std::string event_text(DaisyRegion& region,"), ("        std::fprintf(f, \"%s\", entry.str().c_str());", "        return entry.str();")),
         E("dt", ("append_event(f, region, event_index, event_names);", "std::fputs(event_text(region, event_index, event_names).c_str(), f);"))]),
    # separators
    (P, [E("ev", ("                entry << \"\\\"\" << JsSafeString(event_names[i]", "                if (i > 0) entry << \",\";\n                entry << \"\\\"\" << JsSafeString(event_names[i]"),
           ("                if (i < counts.size() - 1) {\n                    entry << \",\";\n                }\n", ""))]),
    (P, [E("ev", ("                entry << \"\\\"\" << JsSafeString(event_names[i]", "                entry << sep << \"\\\"\" << JsSafeString(event_names[i]"),
           ("                if (i < counts.size() - 1) {\n                    entry << \",\";\n                }\n", "                sep = \",\";\n"),
           ("            auto& counts =", "            const char* sep = \"\";\n            const auto& counts ="))]),
    # selection of the names hoisted / by a helper
    (P, [E("dt", ("            for (size_t event_index = 0;", "            const auto& names = region.event_set == __DAISY_EVENT_SET_CPU ? event_names_cpu : event_names_cuda;\n            for (size_t event_index = 0;"),
           ("append_event(f, region, event_index, event_names)", "append_event(f, region, event_index, names)"))]),
    (P, [E("dt", ("        for (auto iter = regions.begin(); iter != regions.end(); ++iter) {\n            auto& region = iter->second;\n", "        for (auto& [id, region] : regions) {\n"))]),
    (P, [E("dt", ("                std::vector<std::string> event_names = {};\n                if (region.event_set == __DAISY_EVENT_SET_CPU) {\n                    event_names = this->event_names_cpu;\n                } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {\n                    event_names = this->event_names_cuda;\n                }\n                if (!first_event) {\n                    std::fprintf(f, \",\\n\");\n                }\n                first_event = false;\n                append_event_agg",
                  "                std::vector<std::string> event_names;\n                switch (region.event_set) {\n                    case __DAISY_EVENT_SET_CPU: event_names = this->event_names_cpu; break;\n                    case __DAISY_EVENT_SET_CUDA: event_names = this->event_names_cuda; break;\n                    default: break;\n                }\n                if (first_event) {\n                    first_event = false;\n                } else {\n                    std::fputs(\",\\n\", f);\n                }\n                append_event_agg"))]),
    # formatter rewrites
    (P, [(I, ESC, '''    for (const char* c = val.value; *c != '\\0'; c++) {
        const unsigned char u = static_cast<unsigned char>(*c);
        switch (u) {
            case '"': os << "\\\\\\""; break;
            case '\\\\': os << "\\\\\\\\"; break;
            case '\\n': os << "\\\\n"; break;
            default:
                if (u < 0x20) {
                    char buf[8];
                    std::snprintf(buf, sizeof buf, "\\\\u%04x", u);
                    os << buf;
                } else {
                    os << *c;
                }
        }
    }
''')]),
    (P, [(I, ESC, '''    const char* p = val.value;
    while (*p) {
        if (std::iscntrl(static_cast<unsigned char>(*p)) && *p != 127) {
            char buf[8];
            std::snprintf(buf, sizeof buf, "\\\\u%04x", static_cast<unsigned char>(*p));
            os << buf;
        } else {
            if (*p == '\\\\' || *p == '"') os << "\\\\";
            os << *p;
        }
        ++p;
    }
''')]),
    (P, [E("fs", ("    if (std::isfinite(val.value)) {\n        os << val.value;\n    } else {\n        os << \"null\";\n    }\n    return os;", "    if (std::isnan(val.value) || std::isinf(val.value)) return os << \"null\";\n    return os << val.value;"))]),
    (P, [E("ev", ("            entry << \"\\\"dur\\\":\" << ns_to_us(region.durations.at(index)) << \",\";", "            const double us = region.durations[index] / 1000.0;\n            entry << \"\\\"dur\\\":\" << us << \",\";"))]),
    (P, [E("dt", ("        std::fprintf(f, \"{\\\"traceEvents\\\":[\\n\");", "        std::fprintf(f, \"{\\\"displayTimeUnit\\\":\\\"ns\\\",\\\"traceEvents\\\":[\\n\");"))]),
    (P, [E("dt", ("            if (this->aggregate_events) {\n", "            if (!this->aggregate_events) {\n                for (size_t k = 0; k < region.starts.size(); ++k) {\n                    const std::vector<std::string> none;\n                    const auto& names = region.event_set == __DAISY_EVENT_SET_CPU ? event_names_cpu : region.event_set == __DAISY_EVENT_SET_CUDA ? event_names_cuda : none;\n                    if (!first_event) std::fputs(\",\\n\", f);\n                    first_event = false;\n                    append_event(f, region, k, names);\n                }\n            } else {\n"),
           ("                append_event_aggregated(f, region, event_names);\n                continue;\n            }\n", "                append_event_aggregated(f, region, event_names);\n            }\n"),
           (SEG["dt"][SEG["dt"].index("            // Print all individual events"):SEG["dt"].index("        // Output file footer")], "        }\n\n"))]),
]
