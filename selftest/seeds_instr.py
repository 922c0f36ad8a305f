I = "rtl/src/instrumentation.cpp"
PAPI = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* stand-in for the counter library: one slot per event, checks the life cycle of the sets, logs to papi.log */
enum { NONE, CREATED, CLEAN, DEAD };
static int state[4096], started[4096], nev[4096], next = 1;
long long papi_now = 1000, papi_cnt[16];
int papi_slow = 0, papi_inside = 0, papi_overlap = 0;
static void say(const char* w, int e, const char* n) {
    FILE* f = fopen("papi.log", "a");
    fprintf(f, "%s %d %s\n", w, e, n);
    fclose(f);
}
static void die(const char* w, int e) { say("ERROR", e, w); fprintf(stderr, "counter library misused: %s %d\n", w, e); _exit(99); }
static void live(int e, const char* w) { if (e < 1 || e >= next || state[e] != CREATED) die(w, e); }
int PAPI_library_init(int v) { const char* s = getenv("FAKE_VERSION"); return s ? (int) strtol(s, 0, 0) : v; }
int PAPI_create_eventset(int* e) { if (*e != -1) return -1; *e = next++; state[*e] = CREATED; say("create", *e, ""); return 0; }
int PAPI_add_named_event(int e, const char* n) { live(e, "add"); nev[e]++; say("add", e, n); return 0; }
int PAPI_start(int e) { live(e, "start"); started[e] = 1; say("start", e, ""); return 0; }
int PAPI_stop(int e, long long* v) { live(e, "stop"); started[e] = 0; for (int i = 0; i < nev[e]; ++i) v[i] = papi_cnt[i]; say("stop", e, ""); return 0; }
int PAPI_reset(int e) { live(e, "reset"); return 0; }
int PAPI_read(int e, long long* v) {
    live(e, "read");
    if (__sync_add_and_fetch(&papi_inside, 1) > 1) papi_overlap = 1;
    for (int i = 0; i < nev[e]; ++i) v[i] = papi_cnt[i];
    if (papi_slow) usleep(papi_slow);
    __sync_sub_and_fetch(&papi_inside, 1);
    return 0;
}
int PAPI_cleanup_eventset(int e) { live(e, "cleanup"); state[e] = CLEAN; say("cleanup", e, ""); return 0; }
int PAPI_destroy_eventset(int* e) { if (*e < 1 || *e >= next || state[*e] != CLEAN) die("destroy", *e); state[*e] = DEAD; say("destroy", *e, ""); *e = -1; return 0; }
const char* PAPI_strerror(int e) { return "error"; }
long long PAPI_get_real_nsec(void) { return papi_now; }
'''
SH = r'''#!/bin/bash
# exit 0: the behaviour holds
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$PWD
clang++-19 -std=gnu++20 -g -w -I$R/arg-capture-io/include -I$R/rtl/include "$D/demo.cpp" -o "$T/demo" $R/_build/rtl/libdaisy_rtl.a $R/_build/arg-capture-io/libarg_capture_io.a -lpthread -ldl || exit 3
clang-19 -shared -fPIC -w "$D/papi.c" -o "$T/libpapi.so" || clang++-19 -x c -shared -fPIC -w "$D/papi.c" -o "$T/libpapi.so" || exit 3
cd "$T"
export DAISY_PAPI_PATH=$T/libpapi.so __DAISY_PAPI_VERSION=0x7010000
'''
RUN = '''timeout 120 ./demo || { echo "demo failed: $?" >&2; exit 1; }
'''
PY = '''python3 "$D/verify.py" || exit 1
'''
HDR = r'''
#include <daisy_rtl/daisy_rtl.h>
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\n", #c); _exit(1); } } while (0)
template <class T> T& lib(const char* n) {
    static void* h = dlopen(getenv("DAISY_PAPI_PATH"), RTLD_LAZY);
    return *(T*) dlsym(h, n);
}
static size_t reg(const char* uuid, __daisy_event_set k = __DAISY_EVENT_SET_CPU) {
    __daisy_metadata_t* m = new __daisy_metadata_t();
    memset(m, 0, sizeof *m);
    m->file_name = "/src/file.c";
    m->function_name = "f";
    m->line_begin = 1;
    m->line_end = 2;
    m->region_uuid = strdup(uuid);
    return __daisy_instrumentation_init(m, k);
}
static void pass(size_t id, long long ns, long long cnt) {
    __daisy_instrumentation_enter(id);
    lib<long long>("papi_now") += ns;
    lib<long long>("papi_cnt") += cnt;
    __daisy_instrumentation_exit(id);
}
'''
FILES = {"papi.c": PAPI}


def S(id, prop, edits, needs, breaks, cpp, env="", py=None, run=RUN):
    f = dict(FILES)
    if py:
        f["verify.py"] = py
    return dict(id=id, property=prop, lib="rtl", edits=[(I, o, n) for o, n in edits], needs=needs, breaks=breaks, cpp=HDR + cpp,
                sh=SH + env + run + (PY if py else ""), files=f)


SRC = open("/repo/" + I).read()


def fn(start, end, *subs):
    a = SRC.index(start)
    b = SRC.index(end, a)
    t = SRC[a:b]
    u = t
    for o, n in subs:
        assert u.count(o) >= 1, o
        u = u.replace(o, n, 1)
    return (t, u)


EV = "export __DAISY_INSTRUMENTATION_EVENTS=A,B\n"
AGG = "export __DAISY_INSTRUMENTATION_MODE=aggregate\n"
METRICS = '''
import json
ev = json.load(open("daisy_trace.json"))["traceEvents"]
'''
SEEDS = [
    S("b01_counter_read_unlocked", "B01",
      [fn("    void enter_region", "        // Save start time", ("std::lock_guard<std::mutex> lock(mutex)", "std::unique_lock<std::mutex> lock(mutex)"),
          ("        // Save start counters (before timing)\n", "        // Save start counters (before timing), other regions need not wait for it\n        lock.unlock();\n")),
       ("        long long start_ns = _PAPI_get_real_nsec();\n", "        lock.lock();\n        long long start_ns = _PAPI_get_real_nsec();\n")],
      "two threads entering a region at the same time", "the region record and its counters are used outside the mutex",
      r'''
int main() {
    size_t a = reg("a");
    lib<int>("papi_slow") = 100000;
    std::thread t([&] { __daisy_instrumentation_enter(a); }), u([&] { __daisy_instrumentation_enter(a); });
    t.join();
    u.join();
    CHECK(!lib<int>("papi_overlap"));
    lib<int>("papi_slow") = 0;
    _exit(0);
}
''', EV),
    S("b01_metric_lock_only_lookup", "B01",
      [fn("    void provided_metric", "        DaisyRegion& region = it->second;", ("        std::lock_guard<std::mutex> lock(mutex);\n\n        auto it = regions.find(region_id);\n",
       "        std::unique_lock<std::mutex> lock(mutex);\n        auto it = regions.find(region_id);\n        lock.unlock();\n\n"))],
      "several threads attaching metrics to one region", "the metric tables are modified without the mutex",
      r'''
int main() {
    size_t a = reg("a");
    __daisy_instrumentation_enter(a);
    std::vector<std::thread> ts;
    for (int k = 0; k < 8; ++k)
        ts.emplace_back([=] {
            for (int i = 0; i < 3000; ++i) __daisy_instrumentation_metric(a, ("m" + std::to_string(k) + "_" + std::to_string(i)).c_str(), i);
        });
    for (auto& t : ts) t.join();
    __daisy_instrumentation_exit(a);
    __daisy_instrumentation_finalize(a);
    return 0;
}
''', AGG, r'''
import json, sys
ev = json.load(open("daisy_trace.json"))["traceEvents"]
text = json.dumps(ev[0]["args"]["metrics"])
sys.exit(0 if all('m%d_%d"' % (k, i) in text for k in range(8) for i in range(3000)) else 1)
'''),
    S("b02_evicts_newest", "B02",
      [fn("        if (this->sleeping_regions_by_name.size() > REGION_CACHE_SIZE)", "            size_t evict_region_id",
          ("sleeping_regions_by_name.front()", "sleeping_regions_by_name.back()"), ("pop_front", "pop_back"))],
      "eleven finalised regions in the cache", "the most recently used event set is thrown away instead of the oldest",
      r'''
int main() {
    size_t id[11];
    for (int i = 0; i < 11; ++i) id[i] = reg(("r" + std::to_string(i)).c_str());
    for (int i = 0; i < 11; ++i) __daisy_instrumentation_finalize(id[i]);
    FILE* f = fopen("papi.log", "r");
    char w[32], n[64];
    int e, first = 0;
    while (!first && fscanf(f, "%31s %d%*[^\n]", w, &e) == 2)
        if (!strcmp(w, "destroy")) first = e;
    CHECK(first == 1);
    return 0;
}
''', ""),
    S("b02_readded_events_cpu", "B02",
      [fn("        // Check existing region", "            // start region",
          ("for (const auto& ev : this->event_names_cuda)", "for (const auto& ev : this->event_names_cpu)"))],
      "a CUDA region registered again after its event set was evicted", "its new event set holds the CPU events",
      r'''
int main() {
    size_t g = reg("gpu", __DAISY_EVENT_SET_CUDA);
    __daisy_instrumentation_finalize(g);
    for (int i = 0; i < 10; ++i) __daisy_instrumentation_finalize(reg(("r" + std::to_string(i)).c_str()));
    FILE* f = fopen("papi.log", "a");
    fprintf(f, "mark 0 \n");
    fclose(f);
    CHECK(reg("gpu", __DAISY_EVENT_SET_CUDA) == g);
    f = fopen("papi.log", "r");
    char l[200];
    int marked = 0, cuda = 0, cpu = 0;
    while (fgets(l, sizeof l, f)) {
        if (!strncmp(l, "mark", 4)) marked = 1;
        if (marked && !strncmp(l, "add", 3)) (strstr(l, "GPU") ? cuda : cpu)++;
    }
    CHECK(cuda == 1 && cpu == 0);
    _exit(0);
}
''', "export __DAISY_INSTRUMENTATION_EVENTS=A,B __DAISY_INSTRUMENTATION_EVENTS_CUDA=GPU\n"),
    S("b02_full_cache_evicts_early", "B02",
      [("            this->sleeping_regions_by_name.push_back(region.metadata.region_uuid);\n        }\n\n        // Check if cache has grown to large\n        if (this->sleeping_regions_by_name.size() > REGION_CACHE_SIZE) {",
        "            this->sleeping_regions_by_name.push_back(region.metadata.region_uuid);\n        }\n\n        // Check if cache has grown to large\n        if (this->sleeping_regions_by_name.size() > REGION_CACHE_SIZE / 2 && region.metadata.num_loops == 0) {")],
      "six finalised regions without loops", "event sets leave the cache before ten regions are cached",
      r'''
int main() {
    for (int i = 0; i < 10; ++i) __daisy_instrumentation_finalize(reg(("r" + std::to_string(i)).c_str()));
    FILE* f = fopen("papi.log", "r");
    char l[200];
    while (fgets(l, sizeof l, f)) CHECK(strncmp(l, "destroy", 7));
    return 0;
}
''', ""),
    S("b03_evicted_name_forgotten", "B03",
      [("            this->sleeping_regions_id_lookup.erase(evict_region_uuid);\n\n            auto& evict_region",
        "            this->sleeping_regions_id_lookup.erase(evict_region_uuid);\n            this->region_name_to_id.erase(evict_region_uuid);\n\n            auto& evict_region")],
      "a region registered again after eviction from the cache", "it gets a new id and its measurements are split over two records",
      r'''
int main() {
    size_t g = reg("g");
    __daisy_instrumentation_finalize(g);
    for (int i = 0; i < 10; ++i) __daisy_instrumentation_finalize(reg(("r" + std::to_string(i)).c_str()));
    CHECK(reg("g") == g);
    _exit(0);
}
''', ""),
    S("b03_unknown_metric_ignored", "B03",
      [fn("    void provided_metric", "        DaisyRegion& region = it->second;", ("exit(EXIT_FAILURE);", "return;"))],
      "a metric for an id that was never issued", "the call is ignored instead of refused",
      r'''
int main() {
    pid_t p = fork();
    if (!p) {
        reg("a");
        __daisy_instrumentation_metric(77, "m", 1.0);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE);
    _exit(0);
}
''', ""),
    S("b04_duration_of_last", "B04",
      [("ns_to_us(region.durations.at(index))", "ns_to_us(region.durations.back())")],
      "a region entered twice with different durations, not aggregated", "every event shows the duration of the last one",
      r'''
int main() {
    size_t a = reg("a");
    pass(a, 5000, 1);
    pass(a, 9000, 1);
    __daisy_instrumentation_finalize(a);
    return 0;
}
''', EV, METRICS + r'''
assert [float(e["dur"]) for e in ev] == [5.0, 9.0], ev
'''),
    S("b04_gpu_named_as_cpu", "B04",
      [fn("            // Print all individual events", "                append_event(f, region, event_index", ("event_names = this->event_names_cuda", "event_names = this->event_names_cpu"))],
      "a CUDA region in a program that configures both kinds of events", "the GPU counters appear under the names of CPU events",
      r'''
int main() {
    size_t a = reg("a", __DAISY_EVENT_SET_CUDA);
    pass(a, 5000, 7);
    __daisy_instrumentation_finalize(a);
    return 0;
}
''', "export __DAISY_INSTRUMENTATION_EVENTS=A,B __DAISY_INSTRUMENTATION_EVENTS_CUDA=GPU\n", METRICS + r'''
assert ev[0]["args"]["metrics"] == {"GPU": 7}, ev
'''),
    S("b05_max_skipped_for_minimum", "B05",
      [fn("        } else if (region.event_set == __DAISY_EVENT_SET_CUDA && this->event_names_cuda.size() > 0) {\n            std::vector<long long> counts(this->event_names_cuda.size(), 0);\n            _PAPI_read(region.papi_eventset, counts.data());\n\n            for (",
          "    void provided_metric", ("                if (counts[i] > region.max[i])", "                else if (counts[i] > region.max[i])"))],
      "aggregated CUDA counters whose largest value comes first", "the maximum misses a value that was also a new minimum",
      r'''
int main() {
    size_t a = reg("a", __DAISY_EVENT_SET_CUDA);
    pass(a, 5000, 90);
    pass(a, 5000, 7);
    pass(a, 5000, 8);
    __daisy_instrumentation_finalize(a);
    return 0;
}
''', AGG + "export __DAISY_INSTRUMENTATION_EVENTS_CUDA=GPU\n", METRICS + r'''
assert "90" in json.dumps(ev[0]["args"]["metrics"]), ev
'''),
    S("b05_metric_variance_stale_mean", "B05",
      [fn("    void provided_metric", "    void finalize", ("        double delta2 = value - mean;\n", "        double delta2 = delta1;\n"))],
      "a metric attached more than once", "the variance of user metrics is not the population variance",
      r'''
int main() {
    size_t a = reg("a");
    __daisy_instrumentation_enter(a);
    __daisy_instrumentation_metric(a, "m", 1.0);
    __daisy_instrumentation_metric(a, "m", 3.0);
    __daisy_instrumentation_exit(a);
    __daisy_instrumentation_finalize(a);
    return 0;
}
''', AGG, METRICS + r'''
v = ev[0]["args"]["metrics"]
v = [x for k, x in v.items() if "m" in k][0]
assert abs(v["variance"] - 1.0) < 1e-9, v
'''),
    S("b06_version_in_decimal", "B06",
      [("std::strtol(ver_str, nullptr, 0)", "std::strtol(ver_str, nullptr, 10)")],
      "a library version given in hexadecimal, the way PAPI prints it", "the library is initialised with version 0",
      r'''
int main() {
    size_t a = reg("a");
    CHECK(a != 0);
    _exit(0);
}
''', "export FAKE_VERSION=0x7010000\n"),
    S("b06_newer_library_accepted", "B06",
      [("if (retval != ver)", "if (retval < 0)")],
      "a counter library that answers with another version", "the mismatch is not refused",
      r'''
int main() {
    pid_t p = fork();
    if (!p) {
        reg("a");
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE);
    _exit(0);
}
''', "export FAKE_VERSION=0x7020000\n"),
]
