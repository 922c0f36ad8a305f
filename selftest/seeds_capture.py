IO = "arg-capture-io/src/arg_capture_io.cpp"
IOH = "arg-capture-io/include/daisy_rtl/arg_capture_io.h"
CP = "rtl/src/capture.cpp"
B64 = "arg-capture-io/src/base64.cpp"
HDR = r'''
#include <daisy_rtl/arg_capture_io.h>
#include <daisy_rtl/base64.h>
#include <daisy_rtl/daisy_rtl.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <numeric>
using namespace arg_capture;
namespace fs = std::filesystem;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\n", #c); return 1; } } while (0)
'''
SEEDS = [
    dict(id="a01_index_narrow_dims", property="A01", lib="capture",
         edits=[(IO, 'entry["dims"].get<std::vector<size_t>>()', 'extents'),
                (IO, '    ArgCapture capture(\n        entry["arg_idx"]',
                 '    std::vector<size_t> extents;\n    for (const auto& dim : entry["dims"]) {\n        extents.push_back(dim.get<uint32_t>());\n    }\n\n    ArgCapture capture(\n        entry["arg_idx"]')],
         needs="a dimension that does not fit in 32 bits in the index that is loaded",
         breaks="dimensions of loaded captures are truncated to 32 bits",
         cpp=HDR + r'''
int main() {
    nlohmann::json arr = nlohmann::json::array();
    size_t big = (size_t(1) << 33) + 5;
    ArgCapture c(2, true, 3, {8, big});
    c.ext_file = std::make_shared<fs::path>("x.bin");
    c.serialize_into(arr);
    std::unordered_map<std::pair<int32_t, bool>, ArgCapture, MyHash> m;
    ArgCapture::parse_from(arr[0], m, "d");
    CHECK(m.size() == 1);
    CHECK(m.begin()->second.dims[1] == big);
    return 0;
}
'''),
    dict(id="a01_index_empty_payload", property="A01", lib="capture",
         edits=[(IO, '    if (data) {\n', '    if (data && (!data->empty() || !ext_file)) {\n')],
         needs="a capture with an empty inline payload and a payload file left from an earlier file capture",
         breaks="the index names a payload file instead of the (empty) inline payload",
         cpp=HDR + r'''
int main() {
    nlohmann::json arr = nlohmann::json::array();
    ArgCapture c(0, false, 1, {4, 0});
    c.ext_file = std::make_shared<fs::path>("old.bin");
    c.data = std::make_shared<std::vector<uint8_t>>();
    c.serialize_into(arr);
    std::unordered_map<std::pair<int32_t, bool>, ArgCapture, MyHash> m;
    ArgCapture::parse_from(arr[0], m, "d");
    CHECK(m.begin()->second.data && m.begin()->second.data->empty());
    return 0;
}
'''),
    dict(id="a02_b64_slash_stops", property="A02", lib="capture",
         edits=[(B64, "return (isalnum(c) || (c == '+') || (c == '/'));", "return (isalnum(c) || (c >= '+' && c < '/'));")],
         needs="a payload in which six consecutive aligned bits are all ones",
         breaks="decoding stops at the character '/'",
         cpp=HDR + r'''
int main() {
    for (size_t n = 0; n < 8; n++)
        for (int b = 0; b < 256; b++) {
            std::vector<uint8_t> v(n, (uint8_t) b);
            CHECK(base64_decode(base64_encode(v.data(), v.size())) == v);
        }
    return 0;
}
'''),
    dict(id="a03_write_close_unchecked", property="A03", lib="capture",
         edits=[(IO, "    ofs.close();\n\n    if (ofs.fail()) {", "    ofs.close();\n\n    if (!ofs.is_open() && ofs.bad()) {")],
         needs="a write that fails only when the buffered bytes are flushed on close (for example a full device)",
         breaks="a payload that never reached the disk is reported as written",
         cpp=HDR + r'''
int main() {
    char buf[16] = {1, 2, 3};
    CHECK(!ArgCaptureIO::write_data_to_raw_file("/dev/full", buf, sizeof buf));
    return 0;
}
'''),
    dict(id="a04_3d_dims_merged", property="A04", lib="capture",
         edits=[(CP, "{size, num_x, num_y, num_z}", "{size, num_x, num_y, num_y == num_z ? num_y : num_z > 1 ? num_z : num_y}")],
         needs="a three-dimensional capture whose innermost extent is 1 and differs from the middle one",
         breaks="more bytes than the argument has are captured and the recorded shape is wrong",
         cpp=HDR + r'''
int main() {
    setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all", 1);
    unsetenv("__DAISY_CAPTURE_BASE_DIR");
    std::vector<double> v(64, 1.5);
    auto* c = __daisy_capture_init("t", "caps");
    CHECK(__daisy_capture_enter(c, 1));
    __daisy_capture_3d(c, 0, v.data(), 8, 14, 2, 3, 1, false, 1);
    __daisy_capture_end(c);
    auto io = ArgCaptureIO::from_index("caps/t_inv0_1.index.json");
    auto& cap = io->get_captures().at("1").begin()->second;
    CHECK((cap.dims == std::vector<size_t>{8, 2, 3, 1}));
    CHECK(fs::file_size(*cap.ext_file) == 48);
    return 0;
}
'''),
    dict(id="a05_payload_name_collision", property="A05", lib="capture",
         edits=[(CP, '"_arg" + std::to_string(arg_idx) +\n                          "_" + capType + "_" + element_id + ".bin"',
                 '"_arg" + std::to_string(arg_idx) +\n                          (after ? "_out_" : "_in_") + element_id.substr(0, 4) + ".bin"')],
         needs="two regions whose element ids agree in their first four digits, captured in the same invocation",
         breaks="both captures go to one payload file and the later one overwrites the earlier",
         cpp=HDR + r'''
int main() {
    setenv("__DAISY_CAPTURE_STRATEGY_DEFAULT", "all", 1);
    unsetenv("__DAISY_CAPTURE_BASE_DIR");
    std::vector<double> a(8, 1.0), b(8, 2.0);
    auto* c = __daisy_capture_init("t", "caps");
    CHECK(__daisy_capture_enter(c, 12345));
    __daisy_capture_1d(c, 0, a.data(), 8, 14, 8, false, 12345);
    __daisy_capture_end(c);
    CHECK(__daisy_capture_enter(c, 12346));
    __daisy_capture_1d(c, 0, b.data(), 8, 14, 8, false, 12346);
    __daisy_capture_end(c);
    auto io = ArgCaptureIO::from_index("caps/t_inv0_12345.index.json");
    auto& cap = io->get_captures().at("12345").begin()->second;
    std::vector<double> r(8);
    ArgCaptureIO::read_data_from_raw_file(*cap.ext_file, r.data(), 64);
    CHECK(r == a);
    return 0;
}
'''),
    dict(id="a05_stale_record_kept", property="A05", lib="capture",
         edits=[(IO, "    // Erase same as above\n    current_captures_[element_id].erase(key);\n", "    // Erase same as above\n    if (auto old = current_captures_[element_id].find(key);\n        old != current_captures_[element_id].end() && (old->second.data || !old->second.ext_file || old->second.dims.size() != dims.size())) {\n        current_captures_[element_id].erase(old);\n    }\n")],
         needs="the same argument captured twice with different extents of the same rank before the index is written",
         breaks="the record keeps the extents of the first capture",
         cpp=HDR + r'''
int main() {
    ArgCaptureIO io("t");
    io.invocation("1");
    std::vector<double> v(8, 1.0);
    fs::path f = "caps/p.bin";
    CHECK(io.create_and_capture_to_file(0, false, 14, {8, 2}, f, v.data(), "1"));
    CHECK(io.create_and_capture_to_file(0, false, 14, {8, 6}, f, v.data(), "1"));
    auto& cap = io.get_captures().at("1").begin()->second;
    CHECK((cap.dims == std::vector<size_t>{8, 6}));
    CHECK(fs::file_size(f) == 48);
    return 0;
}
'''),
    dict(id="a06_once_per_context", property="A06", lib="capture",
         edits=[(CP, "(invokes_.at(element_id) == specific_invocation_only);", "(invokes_.size() == 1 && invokes_.at(element_id) == specific_invocation_only);")],
         needs="strategy 'once' and a context that captures more than one region",
         breaks="the first invocation of every region after the first is not captured",
         cpp=HDR + r'''
int main() {
    unsetenv("__DAISY_CAPTURE_STRATEGY_DEFAULT");
    unsetenv("__DAISY_CAPTURE_BASE_DIR");
    auto* c = __daisy_capture_init("t", "caps");
    CHECK(__daisy_capture_enter(c, 1));
    __daisy_capture_end(c);
    CHECK(__daisy_capture_enter(c, 2));
    __daisy_capture_end(c);
    CHECK(!__daisy_capture_enter(c, 1));
    return 0;
}
'''),
]
