From 97999f2ef4ae9c7730dba15733143cfa34400362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 01/50] fix: base64 payload lengths were truncated to 32 bits

---
 arg-capture-io/include/daisy_rtl/base64.h | 3 ++-
 arg-capture-io/src/base64.cpp             | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/arg-capture-io/include/daisy_rtl/base64.h b/arg-capture-io/include/daisy_rtl/base64.h
index 67db41f..6765614 100644
--- a/arg-capture-io/include/daisy_rtl/base64.h
+++ b/arg-capture-io/include/daisy_rtl/base64.h
@@ -6,11 +6,12 @@
 #ifndef BASE64_H_C0CE2A47_D10E_42C9_A27C_C883944E704A
 #define BASE64_H_C0CE2A47_D10E_42C9_A27C_C883944E704A
 
+#include <cstddef>
 #include <cstdint>
 #include <string>
 #include <vector>
 
-std::string base64_encode(unsigned char const* bytes_to_encode, unsigned int in_len);
+std::string base64_encode(unsigned char const* bytes_to_encode, size_t in_len);
 
 std::vector<uint8_t> base64_decode(std::string const& encoded_string);
 
diff --git a/arg-capture-io/src/base64.cpp b/arg-capture-io/src/base64.cpp
index fe3333e..5fdb4e0 100644
--- a/arg-capture-io/src/base64.cpp
+++ b/arg-capture-io/src/base64.cpp
@@ -38,7 +38,7 @@ static const std::string base64_chars =
 
 static inline bool is_base64(unsigned char c) { return (isalnum(c) || (c == '+') || (c == '/')); }
 
-std::string base64_encode(unsigned char const* bytes_to_encode, unsigned int in_len) {
+std::string base64_encode(unsigned char const* bytes_to_encode, size_t in_len) {
     std::string ret;
     int i = 0;
     int j = 0;
@@ -74,10 +74,10 @@ std::string base64_encode(unsigned char const* bytes_to_encode, unsigned int in_
     return ret;
 }
 std::vector<uint8_t> base64_decode(std::string const& encoded_string) {
-    int in_len = encoded_string.size();
+    size_t in_len = encoded_string.size();
     int i = 0;
     int j = 0;
-    int in_ = 0;
+    size_t in_ = 0;
     unsigned char char_array_4[4], char_array_3[3];
     std::vector<uint8_t> ret;
 
-- 
2.43.0


From 0fefc9a64b73aca9febc6eb14dd8670f33b5726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 02/50] fix: inline capture size was accumulated in 32-bit int

---
 arg-capture-io/src/arg_capture_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index cb4a9ca..afa9295 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -129,7 +129,7 @@ bool ArgCaptureIO::create_and_capture_to_file(
 }
 
 bool ArgCaptureIO::capture_inline(ArgCapture& capture, const void* data, std::string element_id) {
-    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), 1, std::multiplies<size_t>());
+    auto size = std::accumulate(capture.dims.begin(), capture.dims.end(), size_t{1}, std::multiplies<size_t>());
 
     DEBUG_PRINT(
         "Capturing " << (capture.dims.size() - 1) << "D arg" << capture.arg_idx << ": type "
-- 
2.43.0


From ab3a3f6af4b07bcee7a3902c6db7b0382e605927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 03/50] fix: a failed index write was reported as success

---
 arg-capture-io/src/arg_capture_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index afa9295..739e277 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -285,6 +285,9 @@ void ArgCaptureIO::write_index(std::filesystem::path base_path) {
         ofs << j;
 
         ofs.close();
+        if (ofs.fail()) {
+            throw std::runtime_error("Failed to write index file: " + file.string());
+        }
 
         DEBUG_PRINTLN("Wrote capture index to " << file.string());
     }
-- 
2.43.0


From 2b72a7c81212df3e72e6771543b603d2a5b5a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 04/50] fix: a short or failed payload read was reported as
 success

---
 arg-capture-io/src/arg_capture_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg-capture-io/src/arg_capture_io.cpp b/arg-capture-io/src/arg_capture_io.cpp
index 739e277..78d18f1 100644
--- a/arg-capture-io/src/arg_capture_io.cpp
+++ b/arg-capture-io/src/arg_capture_io.cpp
@@ -249,6 +249,9 @@ void ArgCaptureIO::read_data_from_raw_file(const std::filesystem::path& file, vo
     }
 
     ifs.read(reinterpret_cast<char*>(write_ptr), size);
+    if (ifs.fail()) {
+        throw std::runtime_error("Failed to read " + std::to_string(size) + " bytes from file: " + file.string());
+    }
     ifs.close();
 }
 
-- 
2.43.0


From e1b172bd7ae73550a72cb30e06ddcc1da87bfafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 05/50] fix: post_dominator_tree leaves its synthetic exit
 vertex in the graph and in the result

---
 sdfg/src/graph/graph.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index f889f9a..1825599 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -171,12 +171,23 @@ const std::unordered_map<Vertex, Vertex> post_dominator_tree(Graph& graph) {
     );
 
     for (const auto& entry : vertex_index_map) {
-        pdom_tree.insert({entry.first, pdom_tree_vec[entry.second]});
+        auto ipdom = pdom_tree_vec[entry.second];
+        if (modified) {
+            // The synthetic super-terminal is not part of the caller's graph
+            if (entry.first == src) {
+                continue;
+            }
+            if (ipdom == src) {
+                ipdom = boost::graph_traits<Graph>::null_vertex();
+            }
+        }
+        pdom_tree.insert({entry.first, ipdom});
     }
 
     // Remove synthetic super-terminal if added
     if (modified) {
         boost::clear_vertex(src, graph);
+        boost::remove_vertex(src, graph);
     }
 
     return pdom_tree;
-- 
2.43.0


From 5a585a99a9f9e6725d1a8dfaa518136e1eb2dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 06/50] fix: all_simple_paths must not walk back through its
 source

---
 sdfg/src/graph/graph.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdfg/src/graph/graph.cpp b/sdfg/src/graph/graph.cpp
index 1825599..3d44085 100644
--- a/sdfg/src/graph/graph.cpp
+++ b/sdfg/src/graph/graph.cpp
@@ -263,6 +263,11 @@ const std::list<std::list<Edge>> all_simple_paths(const Graph& graph, const Vert
     std::set<Vertex> visited;
     std::list<Edge> current_path;
 
+    // A simple path must not return to its source, unless the source is also its target.
+    if (src != dst) {
+        visited.insert(src);
+    }
+
     auto [eb, ee] = boost::out_edges(src, graph);
     auto edges = std::ranges::subrange(eb, ee);
     for (auto edge : edges) {
-- 
2.43.0


From 788c3cee62913bd5388f8e1b9b4b62492876fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 07/50] fix: a failed transfer left HttpResult::http_status
 uninitialised

---
 rpc/include/sdfg/util/utils_curl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpc/include/sdfg/util/utils_curl.h b/rpc/include/sdfg/util/utils_curl.h
index 8efcc53..74896f3 100644
--- a/rpc/include/sdfg/util/utils_curl.h
+++ b/rpc/include/sdfg/util/utils_curl.h
@@ -4,8 +4,8 @@
 #include <string>
 
 struct HttpResult {
-    CURLcode curl_code;
-    long http_status;
+    CURLcode curl_code = CURLE_OK;
+    long http_status = 0;
     std::string body;
     std::string error_message;
 };
-- 
2.43.0


From 4c35db0719f5b1c6553e235f94695eaacce35e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 08/50] fix: trace entries of regions without an SDFG had a
 trailing comma in "docc"

---
 rtl/src/instrumentation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 8650db4..b80caeb 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -247,12 +247,14 @@ private:
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\",";
+            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
         } else {
-            entry << "\"opt_report_file\":\"\",";
+            entry << "\"opt_report_file\":\"\"";
         }
 
         if (md.sdfg_name && md.sdfg_file) {
+            entry << ",";
+
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
             entry << "\"element_type\":\"" << md.element_type << "\",";
-- 
2.43.0


From c19b44a2dd10b29410414c33561702d3ba32afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 09/50] fix: a region that was never entered left a stray comma
 in the trace

---
 rtl/src/instrumentation.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index b80caeb..f6f3f3d 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -543,6 +543,7 @@ public:
         std::fprintf(f, "{\"traceEvents\":[\n");
 
         // Output all events
+        bool first_event = true;
         for (auto iter = regions.begin(); iter != regions.end(); ++iter) {
             auto& region = iter->second;
 
@@ -554,11 +555,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event_aggregated(f, region, event_names);
-
-                if (std::next(iter) != regions.end()) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
+                first_event = false;
+                append_event_aggregated(f, region, event_names);
                 continue;
             }
 
@@ -570,13 +571,11 @@ public:
                 } else if (region.event_set == __DAISY_EVENT_SET_CUDA) {
                     event_names = this->event_names_cuda;
                 }
-                append_event(f, region, event_index, event_names);
-                if (event_index < region.starts.size() - 1) {
+                if (!first_event) {
                     std::fprintf(f, ",\n");
                 }
-            }
-            if (std::next(iter) != regions.end()) {
-                std::fprintf(f, ",\n");
+                first_event = false;
+                append_event(f, region, event_index, event_names);
             }
         }
 
-- 
2.43.0


From 42867d95e60b3114ac824528be965ddf48303d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 10/50] fix: aggregating a region that was never exited read
 counters that do not exist

---
 rtl/src/instrumentation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index f6f3f3d..8089183 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -102,12 +102,12 @@ struct DaisyRegion {
 
     // Runtime
     long long first_start = 0;
-    long long last_start;
+    long long last_start = 0;
     long long runtime_n = 0;
     double runtime_mean = 0.0;
     double runtime_variance = 0.0;
-    long long runtime_min;
-    long long runtime_max;
+    long long runtime_min = 0;
+    long long runtime_max = 0;
 
     // Counters
     std::vector<long long> n;
@@ -417,7 +417,7 @@ private:
 
         entry << "\"metrics\":{";
         // PAPI counters
-        for (size_t i = 0; i < event_names.size(); ++i) {
+        for (size_t i = 0; i < event_names.size() && i < region.mean.size(); ++i) {
             entry << "\"" << event_names[i] << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
-- 
2.43.0


From bfbdd742d13f13046107cde8a7a2cd26a48c290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 11/50] fix: names with quotes, backslashes or control
 characters broke the trace file

---
 rtl/src/instrumentation.cpp | 72 ++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/rtl/src/instrumentation.cpp b/rtl/src/instrumentation.cpp
index 8089183..a99438b 100644
--- a/rtl/src/instrumentation.cpp
+++ b/rtl/src/instrumentation.cpp
@@ -138,6 +138,26 @@ static std::ostream& operator<<(std::ostream& os, JsSafeDouble val) {
     return os;
 }
 
+struct JsSafeString {
+    const char* value;
+    explicit JsSafeString(const char* value) : value(value ? value : "") {}
+};
+
+static std::ostream& operator<<(std::ostream& os, JsSafeString val) {
+    for (const char* c = val.value; *c; ++c) {
+        if (*c == '"' || *c == '\\') {
+            os << '\\' << *c;
+        } else if (static_cast<unsigned char>(*c) < 0x20) {
+            char escaped[7];
+            std::snprintf(escaped, sizeof(escaped), "\\u%04x", static_cast<unsigned>(*c));
+            os << escaped;
+        } else {
+            os << *c;
+        }
+    }
+    return os;
+}
+
 class DaisyInstrumentationState {
 private:
     size_t next_region_id = 1;
@@ -203,7 +223,8 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << JsSafeString(md.function_name) << " [L" << md.line_begin << "-" << md.line_end
+              << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         if (region.starts.size() > index) {
@@ -215,10 +236,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << JsSafeString(md.function_name) << "\",";
+        entry << "\"module\":\"" << JsSafeString(std::filesystem::path(md.file_name).filename().c_str()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << JsSafeString(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -227,27 +248,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << JsSafeString(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << JsSafeString(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << JsSafeString(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << JsSafeString(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << JsSafeString(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -257,7 +278,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << JsSafeString(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -279,7 +300,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << JsSafeString(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -289,7 +310,7 @@ private:
         if (index < region.counts.size()) {
             auto& counts = region.counts.at(index);
             for (size_t i = 0; i < counts.size(); ++i) {
-                entry << "\"" << event_names[i] << "\":" << counts[i];
+                entry << "\"" << JsSafeString(event_names[i].c_str()) << "\":" << counts[i];
                 if (i < counts.size() - 1) {
                     entry << ",";
                 }
@@ -335,7 +356,8 @@ private:
         entry << "{";
         entry << "\"ph\":\"X\",";
         entry << "\"cat\":\"aggregated_region,daisy\",";
-        entry << "\"name\":\"" << md.function_name << " [L" << md.line_begin << "-" << md.line_end << "]\",";
+        entry << "\"name\":\"" << JsSafeString(md.function_name) << " [L" << md.line_begin << "-" << md.line_end
+              << "]\",";
         entry << "\"pid\":" << getpid() << ",";
         entry << "\"tid\":" << gettid() << ",";
         // First start
@@ -345,10 +367,10 @@ private:
         entry << "\"args\":{";
 
         // Source location
-        entry << "\"function\":\"" << md.function_name << "\",";
-        entry << "\"module\":\"" << std::filesystem::path(md.file_name).filename().string() << "\",";
+        entry << "\"function\":\"" << JsSafeString(md.function_name) << "\",";
+        entry << "\"module\":\"" << JsSafeString(std::filesystem::path(md.file_name).filename().c_str()) << "\",";
         entry << "\"source_ranges\":[";
-        entry << "{\"file\":\"" << md.file_name << "\",";
+        entry << "{\"file\":\"" << JsSafeString(md.file_name) << "\",";
         entry << "\"from\":{\"line\":" << md.line_begin << ",\"col\":" << md.column_begin << "},";
         entry << "\"to\":{\"line\":" << md.line_end << ",\"col\":" << md.column_end << "}";
         entry << "}],";
@@ -358,27 +380,27 @@ private:
         entry << "\"docc\":";
         entry << "{";
         if (md.sdfg_name) {
-            entry << "\"sdfg_name\":\"" << md.sdfg_name << "\",";
+            entry << "\"sdfg_name\":\"" << JsSafeString(md.sdfg_name) << "\",";
         } else {
             entry << "\"sdfg_name\":\"\",";
         }
         if (md.sdfg_file) {
-            entry << "\"sdfg_file\":\"" << md.sdfg_file << "\",";
+            entry << "\"sdfg_file\":\"" << JsSafeString(md.sdfg_file) << "\",";
         } else {
             entry << "\"sdfg_file\":\"\",";
         }
         if (md.arg_capture_path) {
-            entry << "\"arg_capture_path\":\"" << md.arg_capture_path << "\",";
+            entry << "\"arg_capture_path\":\"" << JsSafeString(md.arg_capture_path) << "\",";
         } else {
             entry << "\"arg_capture_path\":\"\",";
         }
         if (md.features_file) {
-            entry << "\"features_file\":\"" << md.features_file << "\",";
+            entry << "\"features_file\":\"" << JsSafeString(md.features_file) << "\",";
         } else {
             entry << "\"features_file\":\"\",";
         }
         if (md.opt_report_file) {
-            entry << "\"opt_report_file\":\"" << md.opt_report_file << "\"";
+            entry << "\"opt_report_file\":\"" << JsSafeString(md.opt_report_file) << "\"";
         } else {
             entry << "\"opt_report_file\":\"\"";
         }
@@ -388,7 +410,7 @@ private:
 
             // Element metadata
             entry << "\"element_id\":" << md.element_id << ",";
-            entry << "\"element_type\":\"" << md.element_type << "\",";
+            entry << "\"element_type\":\"" << JsSafeString(md.element_type) << "\",";
 
             // Deprecated, is also inside loop info
             entry << "\"loopnest_index\":" << md.loopnest_index << ",";
@@ -410,7 +432,7 @@ private:
         entry << "},";
 
         if (md.target_type) {
-            entry << "\"target_type\":\"" << md.target_type << "\",";
+            entry << "\"target_type\":\"" << JsSafeString(md.target_type) << "\",";
         } else {
             entry << "\"target_type\":\"\",";
         }
@@ -418,7 +440,7 @@ private:
         entry << "\"metrics\":{";
         // PAPI counters
         for (size_t i = 0; i < event_names.size() && i < region.mean.size(); ++i) {
-            entry << "\"" << event_names[i] << "\":{";
+            entry << "\"" << JsSafeString(event_names[i].c_str()) << "\":{";
             entry << "\"mean\":" << region.mean[i] << ",";
             entry << "\"variance\":" << region.variance[i] << ",";
             entry << "\"count\":" << region.n[i] << ",";
@@ -429,7 +451,7 @@ private:
         }
         // Static counters
         for (auto& [name, mean] : region.static_counters_mean) {
-            entry << "\"static:::" << name << "\":{";
+            entry << "\"static:::" << JsSafeString(name.c_str()) << "\":{";
             entry << "\"mean\":" << JsSafeDouble(mean) << ", ";
             entry << "\"variance\":" << JsSafeDouble(region.static_counters_variance[name]) << ", ";
             entry << "\"count\":" << region.static_counters_n[name] << ", ";
-- 
2.43.0


From 1005d9a94502038f8eda84de53fa053e226db960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 12/50] fix: __daisy_fma did not parenthesise its operands and
 its result

---
 rtl/include/daisy_rtl/daisy_rtl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 2251794..4d68cca 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -130,7 +130,7 @@ void __daisy_capture_3d(
 
 #define __daisy_min(a, b) ((a) < (b) ? (a) : (b))
 #define __daisy_max(a, b) ((a) > (b) ? (a) : (b))
-#define __daisy_fma(a, b, c) a* b + c
+#define __daisy_fma(a, b, c) ((a) * (b) + (c))
 
 // Implementation of integer functions for symbolic expressions
 inline int __daisy_sym_pow(int base, int exp) {
-- 
2.43.0


From 957c504fd09135acdb93f995554be9a3b072f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 13/50] fix: __daisy_sym_pow squared its base once too often
 and overflowed

---
 rtl/include/daisy_rtl/daisy_rtl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 4d68cca..788eddb 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -144,7 +144,9 @@ inline int __daisy_sym_pow(int base, int exp) {
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if (exp) {
+            base *= base;
+        }
     }
     return result;
 }
-- 
2.43.0


From 3c06f6e2cce7410ebe6a71ff7fe5f85ca9720cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 14/50] fix: __daisy_sym_pow computed 64-bit symbolic powers in
 32 bits

---
 rtl/include/daisy_rtl/daisy_rtl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtl/include/daisy_rtl/daisy_rtl.h b/rtl/include/daisy_rtl/daisy_rtl.h
index 788eddb..774bda2 100644
--- a/rtl/include/daisy_rtl/daisy_rtl.h
+++ b/rtl/include/daisy_rtl/daisy_rtl.h
@@ -133,12 +133,12 @@ void __daisy_capture_3d(
 #define __daisy_fma(a, b, c) ((a) * (b) + (c))
 
 // Implementation of integer functions for symbolic expressions
-inline int __daisy_sym_pow(int base, int exp) {
+inline long long __daisy_sym_pow(long long base, long long exp) {
     if (exp < 0) {
         return 0;
     }
 
-    int result = 1;
+    long long result = 1;
     while (exp) {
         if (exp & 1) {
             result *= base;
-- 
2.43.0


From e1dc2c77fc7f44e496139ac6c4672f3e1437b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 15/50] fix: keep the debug info of a barrier when it is
 deserialized

---
 sdfg/src/data_flow/library_nodes/barrier_local_node.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp b/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
index b2d590f..32a2e3f 100644
--- a/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/barrier_local_node.cpp
@@ -47,7 +47,14 @@ data_flow::LibraryNode& BarrierLocalNodeSerializer::deserialize(
     if (code != data_flow::LibraryNodeType_BarrierLocal.value()) {
         throw std::runtime_error("Invalid library node code");
     }
-    return builder.add_library_node<data_flow::BarrierLocalNode>(parent, DebugInfo());
+
+    DebugInfo debug_info;
+    if (j.contains("debug_info")) {
+        sdfg::serializer::JSONSerializer serializer;
+        debug_info = serializer.json_to_debug_info(j["debug_info"]);
+    }
+
+    return builder.add_library_node<data_flow::BarrierLocalNode>(parent, debug_info);
 };
 
 BarrierLocalNodeDispatcher::BarrierLocalNodeDispatcher(
-- 
2.43.0


From 75181c384f505354c2149ed6274ef14a7d365683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 16/50] fix: do not add a second unwind output to copied and
 deserialized invoke nodes

---
 sdfg/src/data_flow/library_nodes/invoke_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdfg/src/data_flow/library_nodes/invoke_node.cpp b/sdfg/src/data_flow/library_nodes/invoke_node.cpp
index 969510e..cdb3f17 100644
--- a/sdfg/src/data_flow/library_nodes/invoke_node.cpp
+++ b/sdfg/src/data_flow/library_nodes/invoke_node.cpp
@@ -24,7 +24,10 @@ InvokeNode::InvokeNode(
           data_flow::ImplementationType_NONE
       ),
       callee_name_(callee_name) {
-    this->outputs_.push_back("_unwind"); // Add unwind output
+    // Add unwind output, unless it is already there (copies and deserialized nodes)
+    if (this->outputs_.empty() || this->outputs_.back() != "_unwind") {
+        this->outputs_.push_back("_unwind");
+    }
 }
 
 const std::string& InvokeNode::callee_name() const { return this->callee_name_; }
-- 
2.43.0


From 18fbcc343a8bc9b67d4fb1c090f1e0c4bd173dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 17/50] fix: register the serializer of cast nodes

---
 sdfg/src/serializer/json_serializer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdfg/src/serializer/json_serializer.cpp b/sdfg/src/serializer/json_serializer.cpp
index d6614b2..32ad1bd 100644
--- a/sdfg/src/serializer/json_serializer.cpp
+++ b/sdfg/src/serializer/json_serializer.cpp
@@ -1379,6 +1379,10 @@ void register_default_serializers() {
         .register_library_node_serializer(math::tensor::LibraryNodeType_Add.value(), []() {
             return std::make_unique<math::tensor::AddNodeSerializer>();
         });
+    LibraryNodeSerializerRegistry::instance()
+        .register_library_node_serializer(math::tensor::LibraryNodeType_Cast.value(), []() {
+            return std::make_unique<math::tensor::CastNodeSerializer>();
+        });
     LibraryNodeSerializerRegistry::instance()
         .register_library_node_serializer(math::tensor::LibraryNodeType_Div.value(), []() {
             return std::make_unique<math::tensor::DivNodeSerializer>();
-- 
2.43.0


From f93c81d1fc9bcdd51b025340a439b9db7a8643b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 18/50] fix: keep the implementation type of library nodes
 copied by the builder

---
 sdfg/include/sdfg/builder/structured_sdfg_builder.h | 4 ++++
 sdfg/src/builder/structured_sdfg_builder.cpp        | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/sdfg/include/sdfg/builder/structured_sdfg_builder.h b/sdfg/include/sdfg/builder/structured_sdfg_builder.h
index ed15b46..a87c40c 100644
--- a/sdfg/include/sdfg/builder/structured_sdfg_builder.h
+++ b/sdfg/include/sdfg/builder/structured_sdfg_builder.h
@@ -487,6 +487,10 @@ public:
         auto& dataflow = block.dataflow();
         auto vertex = boost::add_vertex(dataflow.graph_);
         auto node_clone = node.clone(this->new_element_id(), vertex, dataflow);
+        if (auto library_node = dynamic_cast<const data_flow::LibraryNode*>(&node)) {
+            static_cast<data_flow::LibraryNode&>(*node_clone).implementation_type() =
+                library_node->implementation_type();
+        }
         auto res = dataflow.nodes_.insert({vertex, std::move(node_clone)});
         return *res.first->second;
     };
diff --git a/sdfg/src/builder/structured_sdfg_builder.cpp b/sdfg/src/builder/structured_sdfg_builder.cpp
index 6e20e78..002dfa3 100644
--- a/sdfg/src/builder/structured_sdfg_builder.cpp
+++ b/sdfg/src/builder/structured_sdfg_builder.cpp
@@ -1600,7 +1600,12 @@ void StructuredSDFGBuilder::add_dataflow(const data_flow::DataFlowGraph& from, B
     std::unordered_map<graph::Vertex, graph::Vertex> node_mapping;
     for (auto& entry : from.nodes_) {
         auto vertex = boost::add_vertex(to_dataflow.graph_);
-        to_dataflow.nodes_.insert({vertex, entry.second->clone(this->new_element_id(), vertex, to_dataflow)});
+        auto node_clone = entry.second->clone(this->new_element_id(), vertex, to_dataflow);
+        if (auto library_node = dynamic_cast<const data_flow::LibraryNode*>(entry.second.get())) {
+            static_cast<data_flow::LibraryNode&>(*node_clone).implementation_type() =
+                library_node->implementation_type();
+        }
+        to_dataflow.nodes_.insert({vertex, std::move(node_clone)});
         node_mapping.insert({entry.first, vertex});
     }
 
-- 
2.43.0


From ecadc397946bd8582793b2d040d24cfacb3573ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:06 +0000
Subject: [PATCH 19/50] fix: keep the debug info of an if-else copied as a
 whole

---
 sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp b/sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp
index 495f4d8..74683f1 100644
--- a/sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp
+++ b/sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp
@@ -90,7 +90,7 @@ void StructuredSDFGDeepCopy::
         this->node_mapping[sequence_stmt] = &new_seq;
         this->append(new_seq, *sequence_stmt);
     } else if (auto if_else_stmt = dynamic_cast<structured_control_flow::IfElse*>(&source)) {
-        auto& new_scope = this->builder_.add_if_else(root);
+        auto& new_scope = this->builder_.add_if_else(root, {}, if_else_stmt->debug_info());
         this->node_mapping[if_else_stmt] = &new_scope;
         for (size_t i = 0; i < if_else_stmt->size(); i++) {
             auto branch = if_else_stmt->at(i);
-- 
2.43.0


From 21da6d93594543252947561db467aefa2ed4489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:03 +0000
Subject: [PATCH 20/50] fix: python frontend: refuse syntax it does not support
 instead of dropping it

---
 python/docc/python/ast_parser.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 5f2c562..9c1dd66 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -82,6 +82,22 @@ class ASTParser(ast.NodeVisitor):
         self.python_handler = PythonHandler(self)
         self.scipy_handler = SciPyHandler(self)
 
+    def generic_visit(self, node):
+        raise NotImplementedError(
+            f"Unsupported syntax: {type(node).__name__} "
+            f"(line {getattr(node, 'lineno', '?')})"
+        )
+
+    def visit_Pass(self, node):
+        pass
+
+    def visit_Import(self, node):
+        # Modules are resolved by name, an import has no effect of its own
+        pass
+
+    def visit_ImportFrom(self, node):
+        pass
+
     def visit_Constant(self, node):
         if isinstance(node.value, bool):
             return "true" if node.value else "false"
@@ -899,6 +915,13 @@ class ASTParser(ast.NodeVisitor):
                 block, t_task, "_out", t_dst, "void", "", None, debug_info
             )
 
+    def visit_AnnAssign(self, node):
+        if node.value is None:
+            return
+        assign = ast.Assign(targets=[node.target], value=node.value)
+        ast.copy_location(assign, node)
+        self.visit_Assign(assign)
+
     def visit_Expr(self, node):
         self.visit(node.value)
 
-- 
2.43.0


From 8e2f15a5040a697cc9d38d9bbe8b947f020aceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 21/50] fix: python frontend: refuse arguments of calls that
 are not supported instead of ignoring them

---
 python/docc/python/ast_parser.py       |  2 ++
 python/docc/python/ast_utils.py        | 14 ++++++++++++++
 python/docc/python/functions/math.py   |  2 ++
 python/docc/python/functions/numpy.py  | 26 +++++++++++++++++++++++++-
 python/docc/python/functions/python.py |  3 +++
 python/docc/python/functions/scipy.py  |  4 +++-
 6 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 9c1dd66..525accc 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -13,6 +13,7 @@ from docc.sdfg import (
     Tensor,
 )
 from docc.python.ast_utils import (
+    check_call,
     SliceRewriter,
     get_debug_info,
     contains_ufunc_outer,
@@ -1312,6 +1313,7 @@ class ASTParser(ast.NodeVisitor):
                 f"Could not parse function {func_obj.__name__}: {e}"
             )
 
+        check_call(node, len(func_def.args.args))
         arg_vars = [self.visit(arg) for arg in node.args]
 
         if len(arg_vars) != len(func_def.args.args):
diff --git a/python/docc/python/ast_utils.py b/python/docc/python/ast_utils.py
index 807e8e8..a8bd71f 100644
--- a/python/docc/python/ast_utils.py
+++ b/python/docc/python/ast_utils.py
@@ -298,3 +298,17 @@ class SliceRewriter(ast.NodeTransformer):
 def get_unique_id(counter_ref):
     counter_ref[0] += 1
     return counter_ref[0]
+
+
+def check_call(node, max_args, keywords=()):
+    """Refuse arguments of a call that the handler would otherwise ignore."""
+    if len(node.args) > max_args:
+        raise NotImplementedError(
+            f"Only the first {max_args} positional arguments are supported: "
+            f"{ast.unparse(node)}"
+        )
+    for kw in node.keywords:
+        if kw.arg not in keywords:
+            raise NotImplementedError(
+                f"Keyword argument {kw.arg} is not supported: {ast.unparse(node)}"
+            )
diff --git a/python/docc/python/functions/math.py b/python/docc/python/functions/math.py
index 1216078..0f8a613 100644
--- a/python/docc/python/functions/math.py
+++ b/python/docc/python/functions/math.py
@@ -3,6 +3,7 @@ from docc.sdfg import (
     PrimitiveType,
     CMathFunction,
 )
+from docc.python.ast_utils import check_call
 
 
 class MathHandler:
@@ -79,6 +80,7 @@ class MathHandler:
         if func_name not in self.math_funcs:
             raise NotImplementedError(f"Math function {func_name} not supported")
 
+        check_call(node, 3)
         args = [self.visit(arg) for arg in node.args]
 
         tmp_name = self.builder.find_new_name("_tmp_")
diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index c6ef2bc..d93ce9d 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -12,7 +12,7 @@ from docc.python.types import (
     element_type_from_ast_node,
     promote_element_types,
 )
-from docc.python.ast_utils import get_debug_info
+from docc.python.ast_utils import check_call, get_debug_info
 from docc.python.memory import ManagedMemoryHandler
 
 
@@ -764,6 +764,7 @@ class NumPyHandler:
         elif isinstance(value_node, ast.Call):
             args = value_node.args
             keywords = value_node.keywords
+            check_call(value_node, 2, ("axes",))
 
             is_numpy_func = False
             if isinstance(value_node.func, ast.Attribute):
@@ -789,6 +790,10 @@ class NumPyHandler:
                     input_node = value_node.func.value
                 else:
                     return False
+                if len(args) > 1 or keywords:
+                    raise NotImplementedError(
+                        "transpose method is only supported with a tuple of axes"
+                    )
                 if len(args) > 0:
                     perm = self._parse_perm(args[0])
                 for kw in keywords:
@@ -869,6 +874,7 @@ class NumPyHandler:
 
     def _handle_numpy_transpose(self, node, func_name):
         """Handle np.transpose(arr, axes=...) function call."""
+        check_call(node, 2, ("axes",))
         if len(node.args) < 1:
             raise ValueError("np.transpose requires at least one argument")
 
@@ -938,6 +944,7 @@ class NumPyHandler:
 
         Uses negative strides and offset to create a view without copying.
         """
+        check_call(node, 2, ("axis",))
         if len(node.args) < 1:
             raise ValueError("np.flip requires at least one argument")
 
@@ -983,6 +990,7 @@ class NumPyHandler:
 
     def _handle_numpy_fliplr(self, node, func_name):
         """Handle np.fliplr(arr) - flip array left-right (axis=1)."""
+        check_call(node, 1)
         if len(node.args) < 1:
             raise ValueError("np.fliplr requires one argument")
 
@@ -998,6 +1006,7 @@ class NumPyHandler:
 
     def _handle_numpy_flipud(self, node, func_name):
         """Handle np.flipud(arr) - flip array up-down (axis=0)."""
+        check_call(node, 1)
         if len(node.args) < 1:
             raise ValueError("np.flipud requires one argument")
 
@@ -1042,6 +1051,7 @@ class NumPyHandler:
 
         Only works for contiguous arrays; creates a view with new shape/strides.
         """
+        check_call(node, 2)
         if len(node.args) < 2:
             raise ValueError("np.reshape requires array and new shape")
 
@@ -1435,6 +1445,7 @@ class NumPyHandler:
 
     def _handle_numpy_alloc(self, node, func_name):
         """Handle np.empty, np.zeros, np.ones, np.ndarray."""
+        check_call(node, 2, ("dtype", "order", "strides"))
         shape_arg = node.args[0]
         dims = []
         dims_runtime = []
@@ -1500,6 +1511,7 @@ class NumPyHandler:
 
     def _handle_numpy_empty_like(self, node, func_name):
         """Handle np.empty_like."""
+        check_call(node, 2, ("dtype", "order"))
         prototype_arg = node.args[0]
         prototype_name = self.visit(prototype_arg)
 
@@ -1538,6 +1550,7 @@ class NumPyHandler:
 
     def _handle_numpy_zeros_like(self, node, func_name):
         """Handle np.zeros_like."""
+        check_call(node, 2, ("dtype", "order"))
         prototype_arg = node.args[0]
         prototype_name = self.visit(prototype_arg)
 
@@ -1576,6 +1589,7 @@ class NumPyHandler:
 
     def _handle_numpy_eye(self, node, func_name):
         """Handle np.eye."""
+        check_call(node, 3, ("M", "k", "dtype"))
         N_arg = node.args[0]
         N_str = self.visit(N_arg)
         N_runtime = self._shape_to_runtime_expr(N_arg)
@@ -1658,6 +1672,7 @@ class NumPyHandler:
 
     def _handle_numpy_binary_op(self, node, func_name):
         """Handle np.add, np.subtract, np.multiply, np.divide, etc."""
+        check_call(node, 2)
         args = [self.visit(arg) for arg in node.args]
         if len(args) != 2:
             raise NotImplementedError(
@@ -1677,6 +1692,7 @@ class NumPyHandler:
 
     def _handle_numpy_unary_op(self, node, func_name):
         """Handle np.exp, np.sqrt, np.abs, etc."""
+        check_call(node, 1)
         args = [self.visit(arg) for arg in node.args]
         if len(args) != 1:
             raise NotImplementedError(f"Numpy function {func_name} requires 1 argument")
@@ -1689,6 +1705,7 @@ class NumPyHandler:
 
     def _handle_numpy_where(self, node, func_name):
         """Handle np.where(condition, x, y) - elementwise ternary selection."""
+        check_call(node, 3)
         if len(node.args) != 3:
             raise NotImplementedError("np.where requires 3 arguments (condition, x, y)")
 
@@ -1844,6 +1861,7 @@ class NumPyHandler:
 
     def _handle_numpy_clip(self, node, func_name):
         """Handle np.clip(a, a_min, a_max) - elementwise clipping."""
+        check_call(node, 3)
         if len(node.args) != 3:
             raise NotImplementedError("np.clip requires 3 arguments (a, a_min, a_max)")
 
@@ -1858,6 +1876,7 @@ class NumPyHandler:
 
     def _handle_numpy_matmul(self, node, func_name):
         """Handle np.matmul, np.dot."""
+        check_call(node, 2)
         if len(node.args) != 2:
             raise NotImplementedError("matmul/dot requires 2 arguments")
         return self._handle_matmul_helper(node.args[0], node.args[1])
@@ -1981,6 +2000,7 @@ class NumPyHandler:
 
     def _handle_numpy_outer(self, node, func_name):
         """Handle np.outer."""
+        check_call(node, 2)
         if len(node.args) != 2:
             raise NotImplementedError("outer requires 2 arguments")
 
@@ -2034,6 +2054,7 @@ class NumPyHandler:
 
     def handle_ufunc_outer(self, node, ufunc_name):
         """Handle np.add.outer, np.subtract.outer, np.multiply.outer, etc."""
+        check_call(node, 2)
         if len(node.args) != 2:
             raise NotImplementedError(f"{ufunc_name}.outer requires 2 arguments")
 
@@ -2207,6 +2228,7 @@ class NumPyHandler:
 
     def _handle_numpy_reduce(self, node, func_name):
         """Handle np.sum, np.max, np.min, np.mean, np.std."""
+        check_call(node, 2, ("axis", "keepdims"))
         args = node.args
         keywords = {kw.arg: kw.value for kw in node.keywords}
 
@@ -2295,6 +2317,7 @@ class NumPyHandler:
 
     def handle_numpy_astype(self, node, array_name):
         """Handle numpy array.astype(dtype) method calls."""
+        check_call(node, 1, ("copy",))
         if len(node.args) < 1:
             raise ValueError("astype requires at least one argument (dtype)")
 
@@ -2334,6 +2357,7 @@ class NumPyHandler:
 
     def handle_numpy_copy(self, node, array_name):
         """Handle numpy array.copy() method calls using memcpy."""
+        check_call(node, 0)
         if array_name not in self.tensor_table:
             raise ValueError(f"Array {array_name} not found in tensor_table")
 
diff --git a/python/docc/python/functions/python.py b/python/docc/python/functions/python.py
index 2df1513..c9f0bcc 100644
--- a/python/docc/python/functions/python.py
+++ b/python/docc/python/functions/python.py
@@ -5,6 +5,7 @@ from docc.sdfg import (
     TaskletCode,
     CMathFunction,
 )
+from docc.python.ast_utils import check_call
 
 
 class PythonHandler:
@@ -50,6 +51,7 @@ class PythonHandler:
 
     def _handle_min_max(self, node, func_name):
         """Handle Python's built-in min() and max() functions."""
+        check_call(node, 2)
         args = [self.visit(arg) for arg in node.args]
         if len(args) != 2:
             raise NotImplementedError(f"{func_name} only supported with 2 arguments")
@@ -140,6 +142,7 @@ class PythonHandler:
 
     def _handle_python_cast(self, node, func_name):
         """Handle Python type casts: int(), float(), bool()"""
+        check_call(node, 1)
         if len(node.args) != 1:
             raise NotImplementedError(f"{func_name}() cast requires exactly 1 argument")
 
diff --git a/python/docc/python/functions/scipy.py b/python/docc/python/functions/scipy.py
index ed99ebb..b5b6d36 100644
--- a/python/docc/python/functions/scipy.py
+++ b/python/docc/python/functions/scipy.py
@@ -1,6 +1,6 @@
 import ast
 from docc.sdfg import Scalar, PrimitiveType, Pointer, Tensor
-from docc.python.ast_utils import get_debug_info
+from docc.python.ast_utils import check_call, get_debug_info
 
 
 class SciPyHandler:
@@ -60,6 +60,7 @@ class SciPyHandler:
 
     def _handle_softmax(self, node, func_name):
         """Handle scipy.special.softmax."""
+        check_call(node, 2, ("axis",))
         args = node.args
         keywords = {kw.arg: kw.value for kw in node.keywords}
 
@@ -152,6 +153,7 @@ class SciPyHandler:
         if not self.is_correlate2d(value_node):
             return False
 
+        check_call(value_node, 3, ("mode",))
         args = value_node.args
         if len(args) < 2:
             return False
-- 
2.43.0


From 0f8ec5fa5208e78515449c0d0011d052add4c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:04 +0000
Subject: [PATCH 22/50] fix: python frontend: refuse steps, axes and options of
 unsupported form instead of ignoring them

---
 python/docc/python/ast_utils.py       | 13 +++++++
 python/docc/python/functions/numpy.py | 53 ++++++++++-----------------
 python/docc/python/functions/scipy.py | 19 +++++-----
 3 files changed, 42 insertions(+), 43 deletions(-)

diff --git a/python/docc/python/ast_utils.py b/python/docc/python/ast_utils.py
index a8bd71f..ca0e057 100644
--- a/python/docc/python/ast_utils.py
+++ b/python/docc/python/ast_utils.py
@@ -312,3 +312,16 @@ def check_call(node, max_args, keywords=()):
             raise NotImplementedError(
                 f"Keyword argument {kw.arg} is not supported: {ast.unparse(node)}"
             )
+
+
+def constant_value(node):
+    """The value of a literal, or refuse an argument that is not one."""
+    if isinstance(node, ast.Constant):
+        return node.value
+    if (
+        isinstance(node, ast.UnaryOp)
+        and isinstance(node.op, ast.USub)
+        and isinstance(node.operand, ast.Constant)
+    ):
+        return -node.operand.value
+    raise NotImplementedError(f"Only constants are supported: {ast.unparse(node)}")
diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index d93ce9d..1e063d0 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -12,7 +12,7 @@ from docc.python.types import (
     element_type_from_ast_node,
     promote_element_types,
 )
-from docc.python.ast_utils import check_call, get_debug_info
+from docc.python.ast_utils import check_call, constant_value, get_debug_info
 from docc.python.memory import ManagedMemoryHandler
 
 
@@ -126,6 +126,9 @@ class NumPyHandler:
 
                 for i, idx in enumerate(indices):
                     if isinstance(idx, ast.Slice):
+                        if idx.step is not None:
+                            # Not a contiguous sub-array
+                            return None, None, None, None
                         start = "0"
                         if idx.lower:
                             start = self._ev.visit(idx.lower)
@@ -732,7 +735,9 @@ class NumPyHandler:
                 val = self._ev.visit(elt)
                 res.append(int(val))
             return res
-        return []
+        if isinstance(node, ast.Constant) and node.value is None:
+            return []
+        raise NotImplementedError(f"Unsupported axes: {ast.unparse(node)}")
 
     def is_transpose(self, node):
         """Check if a node represents a transpose operation."""
@@ -959,23 +964,10 @@ class NumPyHandler:
         # Parse axis argument
         axis = None
         if len(node.args) > 1:
-            axis_node = node.args[1]
-            if isinstance(axis_node, ast.Constant):
-                axis = axis_node.value
-            elif isinstance(axis_node, ast.UnaryOp) and isinstance(
-                axis_node.op, ast.USub
-            ):
-                if isinstance(axis_node.operand, ast.Constant):
-                    axis = -axis_node.operand.value
+            axis = constant_value(node.args[1])
         for kw in node.keywords:
             if kw.arg == "axis":
-                if isinstance(kw.value, ast.Constant):
-                    axis = kw.value.value
-                elif isinstance(kw.value, ast.UnaryOp) and isinstance(
-                    kw.value.op, ast.USub
-                ):
-                    if isinstance(kw.value.operand, ast.Constant):
-                        axis = -kw.value.operand.value
+                axis = constant_value(kw.value)
 
         # Determine which axes to flip
         if axis is None:
@@ -1115,8 +1107,7 @@ class NumPyHandler:
                 elif isinstance(elt, ast.Name):
                     result.append(elt.id)
                 elif isinstance(elt, ast.UnaryOp) and isinstance(elt.op, ast.USub):
-                    if isinstance(elt.operand, ast.Constant):
-                        result.append(str(-elt.operand.value))
+                    result.append(str(constant_value(elt)))
                 else:
                     result.append(self._shape_to_runtime_expr(elt))
             return result
@@ -1481,14 +1472,15 @@ class NumPyHandler:
             if kw.arg == "dtype":
                 dtype_arg = kw.value
             elif kw.arg == "order":
-                if isinstance(kw.value, ast.Constant):
-                    order = kw.value.value
+                order = constant_value(kw.value)
             elif kw.arg == "strides":
                 # Parse explicit strides tuple/list
                 if isinstance(kw.value, (ast.Tuple, ast.List)):
                     explicit_strides = [
                         self._shape_to_runtime_expr(elt) for elt in kw.value.elts
                     ]
+                else:
+                    raise NotImplementedError("strides must be a literal tuple or list")
 
         element_type = element_type_from_ast_node(dtype_arg, self.container_table)
 
@@ -1528,8 +1520,7 @@ class NumPyHandler:
             if kw.arg == "dtype":
                 dtype_arg = kw.value
             elif kw.arg == "order":
-                if isinstance(kw.value, ast.Constant):
-                    order = kw.value.value
+                order = constant_value(kw.value)
 
         element_type = None
         if dtype_arg:
@@ -1567,8 +1558,7 @@ class NumPyHandler:
             if kw.arg == "dtype":
                 dtype_arg = kw.value
             elif kw.arg == "order":
-                if isinstance(kw.value, ast.Constant):
-                    order = kw.value.value
+                order = constant_value(kw.value)
 
         element_type = None
         if dtype_arg:
@@ -2250,9 +2240,7 @@ class NumPyHandler:
 
         keepdims = False
         if "keepdims" in keywords:
-            keepdims_node = keywords["keepdims"]
-            if isinstance(keepdims_node, ast.Constant):
-                keepdims = bool(keepdims_node.value)
+            keepdims = bool(constant_value(keywords["keepdims"]))
 
         axes = []
         if axis is None:
@@ -2264,11 +2252,10 @@ class NumPyHandler:
             axes = [val]
         elif isinstance(axis, ast.Tuple):
             for elt in axis.elts:
-                if isinstance(elt, ast.Constant):
-                    val = elt.value
-                    if val < 0:
-                        val += ndim
-                    axes.append(val)
+                val = constant_value(elt)
+                if val < 0:
+                    val += ndim
+                axes.append(val)
         elif (
             isinstance(axis, ast.UnaryOp)
             and isinstance(axis.op, ast.USub)
diff --git a/python/docc/python/functions/scipy.py b/python/docc/python/functions/scipy.py
index b5b6d36..930eca5 100644
--- a/python/docc/python/functions/scipy.py
+++ b/python/docc/python/functions/scipy.py
@@ -1,6 +1,6 @@
 import ast
 from docc.sdfg import Scalar, PrimitiveType, Pointer, Tensor
-from docc.python.ast_utils import check_call, get_debug_info
+from docc.python.ast_utils import check_call, constant_value, get_debug_info
 
 
 class SciPyHandler:
@@ -90,11 +90,10 @@ class SciPyHandler:
             axes = [val]
         elif isinstance(axis, ast.Tuple):
             for elt in axis.elts:
-                if isinstance(elt, ast.Constant):
-                    val = elt.value
-                    if val < 0:
-                        val += ndim
-                    axes.append(val)
+                val = constant_value(elt)
+                if val < 0:
+                    val += ndim
+                axes.append(val)
         elif (
             isinstance(axis, ast.UnaryOp)
             and isinstance(axis.op, ast.USub)
@@ -187,12 +186,12 @@ class SciPyHandler:
         mode = "full"
         # Parse kwargs
         for keyword in value_node.keywords:
-            if keyword.arg == "mode" and isinstance(keyword.value, ast.Constant):
-                mode = keyword.value.value
+            if keyword.arg == "mode":
+                mode = constant_value(keyword.value)
 
         # Also check positional args for mode
-        if len(args) > 2 and isinstance(args[2], ast.Constant):
-            mode = args[2].value
+        if len(args) > 2:
+            mode = constant_value(args[2])
 
         if mode != "valid" and mode != "full" and mode != "same":
             raise NotImplementedError(f"Unsupported convolution mode: {mode}")
-- 
2.43.0


From 04f3fa6fc8bf1cad5883ad17aec33de45be1dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:17 +0000
Subject: [PATCH 23/50] fix: python frontend: key compiled kernels by
 everything their code depends on

---
 python/docc/python/python_program.py | 42 ++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/python/docc/python/python_program.py b/python/docc/python/python_program.py
index a18a5ef..4a394f7 100644
--- a/python/docc/python/python_program.py
+++ b/python/docc/python/python_program.py
@@ -242,11 +242,17 @@ class PythonProgram(DoccProgram):
         mapping_sig = sorted(arg_shape_mapping.items())
         equiv_sig = sorted(shape_to_scalar.items())
         type_sig = ", ".join(self._type_to_str(t) for t in arg_types)
-        signature = f"{type_sig}|{mapping_sig}|{equiv_sig}"
+        # Facts of the arguments that the generated code is specialized for
+        layout_sig = [self._layout_to_str(arg) for arg in args]
+        signature = (
+            f"{type_sig}|{mapping_sig}|{equiv_sig}|{layout_sig}"
+            f"|{instrumentation_mode}|{capture_args}"
+        )
 
         if output_folder is None:
             filename = inspect.getsourcefile(self.func)
-            hash_input = f"{filename}|{self.name}|{self.target}|{self.category}|{self.capture_args}|{self.instrumentation_mode}|{self.remote_tuning}|{signature}".encode(
+            constants_sig = self._constants_to_str()
+            hash_input = f"{filename}|{self.name}|{constants_sig}|{self.target}|{self.category}|{self.remote_tuning}|{signature}".encode(
                 "utf-8"
             )
             stable_id = hashlib.sha256(hash_input).hexdigest()[:16]
@@ -398,6 +404,38 @@ class PythonProgram(DoccProgram):
             return f"Structure({t.name})"
         return str(t)
 
+    def _layout_to_str(self, arg):
+        """The facts of an argument, besides its type and shape equalities, that
+        the generated code depends on."""
+        if isinstance(arg, np.ndarray):
+            ones = [dim == 1 for dim in arg.shape]
+            if arg.flags["C_CONTIGUOUS"]:
+                return f"C{ones}"
+            if arg.flags["F_CONTIGUOUS"]:
+                return f"F{ones}"
+            return f"{[s // arg.itemsize for s in arg.strides]}{ones}"
+        if hasattr(arg, "__dict__"):
+            members = [(n, type(v).__name__) for n, v in arg.__dict__.items()]
+            return str(sorted(members))
+        return ""
+
+    def _constants_to_str(self):
+        """The code of the function and the numbers it takes from its surroundings,
+        which are compiled into the library."""
+        code = self.func.__code__
+        names = dict(self.func.__globals__)
+        if self.func.__closure__ is not None:
+            names.update(
+                (n, c.cell_contents)
+                for n, c in zip(code.co_freevars, self.func.__closure__)
+            )
+        constants = sorted(
+            (n, names[n])
+            for n in code.co_names + code.co_freevars
+            if isinstance(names.get(n), (int, float))
+        )
+        return f"{code.co_firstlineno}|{constants}"
+
     def _infer_type(self, arg):
         if isinstance(arg, (float, np.float64)):
             return Scalar(PrimitiveType.Double)
-- 
2.43.0


From 7308ba0c49011fbee60e003f00e1878b1412a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:12 +0000
Subject: [PATCH 24/50] fix: python frontend: product patterns no longer drop
 summands, factors, subscripts or keywords

C[:] = A @ B + D, s = a @ b + t, (A * 2.0) @ B * 3.0, C[0:2] = A[0:2] @ B + C[2:4],
C[:] = C + C + np.outer(a, b) and np.dot(a, b, out=t) were matched as products and the part
that did not fit the pattern was silently left out. Such expressions now take the general path.
---
 python/docc/python/functions/numpy.py | 119 ++++++++++++++------------
 1 file changed, 65 insertions(+), 54 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index 1e063d0..3d9110e 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -233,17 +233,32 @@ class NumPyHandler:
 
         return sliced_dim == ndim - 1
 
-    def _is_target(self, node, target_name):
-        """Check if node refers to the target."""
-        if isinstance(target_name, ast.AST):
-            return self._ev.visit(node) == self._ev.visit(target_name)
-
-        if isinstance(node, ast.Name) and node.id == target_name:
-            return True
-        if isinstance(node, ast.Subscript):
-            if isinstance(node.value, ast.Name) and node.value.id == target_name:
-                return True
-        return False
+    def _location(self, node):
+        """Canonical (name, subscript) of what a node refers to; the subscript is None for a whole container."""
+        if isinstance(node, str):
+            return node, None
+        if isinstance(node, ast.Name):
+            return node.id, None
+        if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Name):
+            indices = (
+                node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
+            )
+            subscript = [ast.dump(idx) for idx in indices]
+            if all(text == ast.dump(ast.Slice()) for text in subscript):
+                return node.value.id, None
+            return node.value.id, subscript
+        return None
+
+    def _is_target(self, node, target):
+        """Check if node refers to the same elements as the target."""
+        location = self._location(target)
+        return location is not None and self._location(node) == location
+
+    def _product_args(self, node):
+        """The two operands of a product call, or None if it has any other arguments."""
+        if len(node.args) != 2 or node.keywords:
+            return None
+        return node.args
 
     def _is_dot_call(self, node):
         """Check if node is a dot product call."""
@@ -271,8 +286,6 @@ class NumPyHandler:
                 if res[0]:
                     target_name = res[0]
                     target_subset = self.flatten_subset(target_name, res[1])
-                else:
-                    target_name = target.value.id
 
         if not target_name or target_name not in self.tensor_table:
             return False
@@ -324,49 +337,46 @@ class NumPyHandler:
                 ]:
                     is_gemm_call = True
 
-                if is_gemm_call and len(node.args) == 2:
-                    return node.args[0], node.args[1], "1.0"
+                args = self._product_args(node)
+                if is_gemm_call and args:
+                    return args[0], args[1], "1.0"
 
             if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mult):
                 l, r, a = parse_term(node.left)
+                other = node.right
+                if not l:
+                    l, r, a = parse_term(node.right)
+                    other = node.left
                 if l:
-                    return l, r, self._ev.visit(node.right)
-                l, r, a = parse_term(node.right)
-                if l:
-                    return l, r, self._ev.visit(node.left)
+                    f = self._ev.visit(other)
+                    return l, r, f if a == "1.0" else f"({a} * {f})"
 
             return None, None, None
 
+        def parse_beta(node):
+            """Factor of the target in the remaining term; None if it is not a multiple of the target."""
+            if self._is_target(node, target):
+                return "1.0"
+            if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Mult):
+                if self._is_target(node.left, target):
+                    return self._ev.visit(node.right)
+                if self._is_target(node.right, target):
+                    return self._ev.visit(node.left)
+            return None
+
         if isinstance(value_node, ast.BinOp) and isinstance(value_node.op, ast.Add):
             l, r, a = parse_term(value_node.left)
+            rest = value_node.right
+            if not l:
+                l, r, a = parse_term(value_node.right)
+                rest = value_node.left
             if l:
                 A = l
                 B = r
                 alpha = a
-                if isinstance(value_node.right, ast.BinOp) and isinstance(
-                    value_node.right.op, ast.Mult
-                ):
-                    if self._is_target(value_node.right.left, target_name):
-                        beta = self._ev.visit(value_node.right.right)
-                    elif self._is_target(value_node.right.right, target_name):
-                        beta = self._ev.visit(value_node.right.left)
-                elif self._is_target(value_node.right, target_name):
-                    beta = "1.0"
-            else:
-                l, r, a = parse_term(value_node.right)
-                if l:
-                    A = l
-                    B = r
-                    alpha = a
-                    if isinstance(value_node.left, ast.BinOp) and isinstance(
-                        value_node.left.op, ast.Mult
-                    ):
-                        if self._is_target(value_node.left.left, target_name):
-                            beta = self._ev.visit(value_node.left.right)
-                        elif self._is_target(value_node.left.right, target_name):
-                            beta = self._ev.visit(value_node.left.left)
-                    elif self._is_target(value_node.left, target_name):
-                        beta = "1.0"
+                beta = parse_beta(rest)
+                if beta is None:
+                    return False
         else:
             l, r, a = parse_term(value_node)
             if l:
@@ -491,12 +501,14 @@ class NumPyHandler:
         elif isinstance(value_node, ast.BinOp) and isinstance(value_node.op, ast.Add):
             if self._is_dot_call(value_node.left):
                 dot_node = value_node.left
-                if self._is_target(value_node.right, target):
-                    is_accumulate = True
+                if not self._is_target(value_node.right, target):
+                    return False
+                is_accumulate = True
             elif self._is_dot_call(value_node.right):
                 dot_node = value_node.right
-                if self._is_target(value_node.left, target):
-                    is_accumulate = True
+                if not self._is_target(value_node.left, target):
+                    return False
+                is_accumulate = True
 
         if not dot_node:
             return False
@@ -505,8 +517,8 @@ class NumPyHandler:
         arg1 = None
 
         if isinstance(dot_node, ast.Call):
-            args = dot_node.args
-            if len(args) != 2:
+            args = self._product_args(dot_node)
+            if not args:
                 return False
             arg0 = args[0]
             arg1 = args[1]
@@ -616,9 +628,6 @@ class NumPyHandler:
             if res[0]:
                 target_name = res[0]
                 target_subset = self.flatten_subset(target_name, res[1])
-            else:
-                if isinstance(target.value, ast.Name):
-                    target_name = target.value.id
 
         if not target_name:
             return False
@@ -637,13 +646,15 @@ class NumPyHandler:
         collect_terms(value_node)
 
         for term in terms:
-            if self._is_target(term, target_name):
+            if self._is_target(term, target):
+                if target_found:
+                    return False
                 target_found = True
             elif isinstance(term, ast.Call) and (
                 (isinstance(term.func, ast.Attribute) and term.func.attr == "outer")
                 or (isinstance(term.func, ast.Name) and term.func.id == "outer")
             ):
-                if len(term.args) != 2:
+                if not self._product_args(term):
                     return False
                 outer_calls.append(term)
             else:
-- 
2.43.0


From c89448a9a45bc8606a90d5fd3d4f24034c647621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:52 +0000
Subject: [PATCH 25/50] fix: ordered comparisons in generated code and the
 operand count of scalbn

fp_one is false and fp_ord is true unless an operand is NaN; scalbn and scalbln take two operands.
---
 .../sdfg/data_flow/library_nodes/math/cmath/cmath_node.h     | 4 ++--
 .../src/codegen/language_extensions/c_language_extension.cpp | 5 +++--
 .../codegen/language_extensions/cpp_language_extension.cpp   | 5 +++--
 .../codegen/language_extensions/cuda_language_extension.cpp  | 5 +++--
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h b/sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h
index 9333f80..53781c6 100644
--- a/sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h
+++ b/sdfg/include/sdfg/data_flow/library_nodes/math/cmath/cmath_node.h
@@ -195,9 +195,9 @@ constexpr size_t cmath_function_to_arity(CMathFunction func) {
         case CMathFunction::modf:
             return 1;
         case CMathFunction::scalbn:
-            return 1;
+            return 2;
         case CMathFunction::scalbln:
-            return 1;
+            return 2;
         case CMathFunction::ilogb:
             return 1;
         case CMathFunction::logb:
diff --git a/sdfg/src/codegen/language_extensions/c_language_extension.cpp b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
index 8cdda02..1e8d00b 100644
--- a/sdfg/src/codegen/language_extensions/c_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/c_language_extension.cpp
@@ -212,7 +212,8 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -222,7 +223,7 @@ std::string CLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "isnan(" + tasklet.inputs().at(0) + ") && isnan(" + tasklet.inputs().at(1) + ")";
+            return "!isnan(" + tasklet.inputs().at(0) + ") && !isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "isnan(" + tasklet.inputs().at(0) + ") || isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
index f59377a..07b5951 100644
--- a/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cpp_language_extension.cpp
@@ -206,7 +206,8 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -216,7 +217,7 @@ std::string CPPLanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
diff --git a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
index 9c3d3c5..9e0b2d4 100644
--- a/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
+++ b/sdfg/src/codegen/language_extensions/cuda_language_extension.cpp
@@ -222,7 +222,8 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_oeq:
             return tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_one:
-            return tasklet.inputs().at(0) + " != " + tasklet.inputs().at(1);
+            return tasklet.inputs().at(0) + " < " + tasklet.inputs().at(1) + " || " + tasklet.inputs().at(0) + " > " +
+                   tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ogt:
             return tasklet.inputs().at(0) + " > " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_oge:
@@ -232,7 +233,7 @@ std::string CUDALanguageExtension::tasklet(const data_flow::Tasklet& tasklet) {
         case data_flow::TaskletCode::fp_ole:
             return tasklet.inputs().at(0) + " <= " + tasklet.inputs().at(1);
         case data_flow::TaskletCode::fp_ord:
-            return "std::isnan(" + tasklet.inputs().at(0) + ") && std::isnan(" + tasklet.inputs().at(1) + ")";
+            return "!std::isnan(" + tasklet.inputs().at(0) + ") && !std::isnan(" + tasklet.inputs().at(1) + ")";
         case data_flow::TaskletCode::fp_ueq:
             return "std::isnan(" + tasklet.inputs().at(0) + ") || std::isnan(" + tasklet.inputs().at(1) + ")" + " || " +
                    tasklet.inputs().at(0) + " == " + tasklet.inputs().at(1);
-- 
2.43.0


From 14054504de947503e255a6f1c32a9720f50c0326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:52 +0000
Subject: [PATCH 26/50] fix: != of floating-point values is true for NaN in the
 python frontend

---
 python/docc/python/functions/numpy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index 3d9110e..aec8f56 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -1338,7 +1338,7 @@ class NumPyHandler:
                 "<": TaskletCode.fp_olt,
                 "<=": TaskletCode.fp_ole,
                 "==": TaskletCode.fp_oeq,
-                "!=": TaskletCode.fp_one,
+                "!=": TaskletCode.fp_une,
             }
 
         if op not in cmp_ops:
-- 
2.43.0


From 965d387d8fbba33df7c7b6f4c7d04fb421ee8e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:51 +0000
Subject: [PATCH 27/50] fix: python frontend: // floors

---
 python/docc/python/ast_parser.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 525accc..efee6ce 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -342,6 +342,16 @@ class ASTParser(ast.NodeVisitor):
 
                 real_right = right_cast
 
+        if op == "//":
+            # Division floors: (left - left % right) is a multiple of right, as
+            # the remainder has the sign of the divisor.
+            left_node = ast.Name(id=real_left, ctx=ast.Load())
+            right_node = ast.Name(id=real_right, ctx=ast.Load())
+            remainder = ast.BinOp(left=left_node, op=ast.Mod(), right=right_node)
+            real_left = self.visit(
+                ast.BinOp(left=left_node, op=ast.Sub(), right=remainder)
+            )
+
         if op == "**":
             block = self.builder.add_block()
             t_left, left_sub = self._add_read(block, real_left)
@@ -493,6 +503,21 @@ class ASTParser(ast.NodeVisitor):
         )
         self.builder.add_memlet(block, t_task, "_out", t_out, "void", "")
 
+        if op == "//" and dtype.primitive_type == PrimitiveType.Double:
+            # The quotient is a whole number up to rounding errors
+            quotient_name = self.builder.find_new_name()
+            self.builder.add_container(quotient_name, dtype, False)
+            self.container_table[quotient_name] = dtype
+
+            r_block = self.builder.add_block()
+            t_src, src_sub = self._add_read(r_block, tmp_name)
+            t_dst = self.builder.add_access(r_block, quotient_name)
+            t_round = self.builder.add_cmath(r_block, CMathFunction.round)
+            self.builder.add_memlet(r_block, t_src, "void", t_round, "_in1", src_sub)
+            self.builder.add_memlet(r_block, t_round, "_out", t_dst, "void", "")
+
+            return quotient_name
+
         return tmp_name
 
     def visit_Attribute(self, node):
-- 
2.43.0


From 84dfc26d2ebc285c917920f539a7271df55529b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:51 +0000
Subject: [PATCH 28/50] fix: python frontend: >> keeps the sign

---
 python/docc/python/ast_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index efee6ce..c0779b2 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -466,7 +466,7 @@ class ASTParser(ast.NodeVisitor):
             elif op == "<<":
                 tasklet_code = TaskletCode.int_shl
             elif op == ">>":
-                tasklet_code = TaskletCode.int_lshr
+                tasklet_code = TaskletCode.int_ashr
         else:
             if op == "+":
                 tasklet_code = TaskletCode.fp_add
-- 
2.43.0


From 0ac6778a9ed07298fe7b44fbe128a7eb18fe448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:51 +0000
Subject: [PATCH 29/50] fix: python frontend: unary minus of integers other
 than Int64 and of True

---
 python/docc/python/ast_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index c0779b2..4a49921 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -208,6 +208,7 @@ class ASTParser(ast.NodeVisitor):
             isinstance(node.op, ast.USub)
             and isinstance(node.operand, ast.Constant)
             and isinstance(node.operand.value, (int, float))
+            and not isinstance(node.operand.value, bool)
         ):
             return f"-{node.operand.value}"
 
@@ -238,7 +239,7 @@ class ASTParser(ast.NodeVisitor):
             self.builder.add_memlet(block, t_const, "void", t_task, "_in2", "")
             self.builder.add_memlet(block, t_task, "_out", t_dst, "void", "")
         elif op == "-":
-            if dtype.primitive_type == PrimitiveType.Int64:
+            if self._is_int(operand):
                 t_const = self.builder.add_constant(block, "0", dtype)
                 t_task = self.builder.add_tasklet(
                     block, TaskletCode.int_sub, ["_in1", "_in2"], ["_out"]
-- 
2.43.0


From 92670c06ab047e7bf2de9bba4ab8e55dace19bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:51 +0000
Subject: [PATCH 30/50] fix: python frontend: not yields a truth value

---
 python/docc/python/ast_parser.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 4a49921..83a1af2 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -218,6 +218,22 @@ class ASTParser(ast.NodeVisitor):
         if operand in self.tensor_table and op == "-":
             return self.numpy_visitor.handle_array_negate(operand)
 
+        if isinstance(node.op, ast.Not):
+            if operand in self.tensor_table:
+                raise NotImplementedError("not of an array is not supported")
+
+            # The result is a truth value whatever the type of the operand
+            tmp_name = self.builder.find_new_name()
+            dtype = Scalar(PrimitiveType.Bool)
+            self.builder.add_container(tmp_name, dtype, False)
+            self.builder.begin_if(f"{operand} != 0")
+            self._add_assign_constant(tmp_name, "false", dtype)
+            self.builder.begin_else()
+            self._add_assign_constant(tmp_name, "true", dtype)
+            self.builder.end_if()
+            self.container_table[tmp_name] = dtype
+            return tmp_name
+
         assert operand in self.container_table, f"Undefined variable: {operand}"
         tmp_name = self.builder.find_new_name()
         dtype = self.container_table[operand]
@@ -228,17 +244,7 @@ class ASTParser(ast.NodeVisitor):
         t_src, src_sub = self._add_read(block, operand)
         t_dst = self.builder.add_access(block, tmp_name)
 
-        if isinstance(node.op, ast.Not):
-            t_const = self.builder.add_constant(
-                block, "true", Scalar(PrimitiveType.Bool)
-            )
-            t_task = self.builder.add_tasklet(
-                block, TaskletCode.int_xor, ["_in1", "_in2"], ["_out"]
-            )
-            self.builder.add_memlet(block, t_src, "void", t_task, "_in1", src_sub)
-            self.builder.add_memlet(block, t_const, "void", t_task, "_in2", "")
-            self.builder.add_memlet(block, t_task, "_out", t_dst, "void", "")
-        elif op == "-":
+        if op == "-":
             if self._is_int(operand):
                 t_const = self.builder.add_constant(block, "0", dtype)
                 t_task = self.builder.add_tasklet(
-- 
2.43.0


From d97c7cb7c87686ab739505a3f375773b6062bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:16 +0000
Subject: [PATCH 31/50] fix: python frontend: truth values of module constants

---
 python/docc/python/ast_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 83a1af2..3b2bd9c 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -109,6 +109,8 @@ class ASTParser(ast.NodeVisitor):
         if name not in self.container_table and self.globals_dict is not None:
             if name in self.globals_dict:
                 val = self.globals_dict[name]
+                if isinstance(val, bool):
+                    return "true" if val else "false"
                 if isinstance(val, (int, float)):
                     return str(val)
         return name
-- 
2.43.0


From 9b2537a0dab5638dca72634e70a41ec217f321ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:16 +0000
Subject: [PATCH 32/50] fix: python frontend: tuple assignment evaluates its
 right side first

---
 python/docc/python/ast_parser.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 3b2bd9c..c857822 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -805,7 +805,26 @@ class ASTParser(ast.NodeVisitor):
             if isinstance(node.value, ast.Tuple):
                 if len(target.elts) != len(node.value.elts):
                     raise ValueError("Tuple unpacking size mismatch")
-                for tgt, val in zip(target.elts, node.value.elts):
+                # All values are evaluated before the first target is bound
+                values = list(node.value.elts)
+                bound = set()
+                for i, tgt in enumerate(target.elts):
+                    if any(
+                        isinstance(n, ast.Name) and n.id in bound
+                        for n in ast.walk(values[i])
+                    ):
+                        for k, val in enumerate(values):
+                            tmp_name = self.builder.find_new_name()
+                            assign = ast.Assign(
+                                targets=[ast.Name(id=tmp_name, ctx=ast.Store())],
+                                value=val,
+                            )
+                            ast.copy_location(assign, node)
+                            self.visit_Assign(assign)
+                            values[k] = ast.Name(id=tmp_name, ctx=ast.Load())
+                        break
+                    bound |= {n.id for n in ast.walk(tgt) if isinstance(n, ast.Name)}
+                for tgt, val in zip(target.elts, values):
                     assign = ast.Assign(targets=[tgt], value=val)
                     ast.copy_location(assign, node)
                     self.visit_Assign(assign)
-- 
2.43.0


From 35238941fa80d94261c1d9fb9540589507af5b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:33 +0000
Subject: [PATCH 33/50] fix: python frontend: slices of the leading dimensions
 keep the trailing ones

---
 python/docc/python/ast_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index c857822..965f455 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -692,6 +692,11 @@ class ASTParser(ast.NodeVisitor):
 
             has_slices = any(isinstance(idx, ast.Slice) for idx in indices_nodes)
             if has_slices:
+                # Dimensions without an index are taken whole
+                indices_nodes = list(indices_nodes) + [
+                    ast.Slice(lower=None, upper=None, step=None)
+                    for _ in range(ndim - len(indices_nodes))
+                ]
                 return self._handle_expression_slicing(
                     node, value_str, indices_nodes, shapes, ndim
                 )
-- 
2.43.0


From 390646b2d83546e8169069e885b7bda6b51fa57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:29 +0000
Subject: [PATCH 34/50] fix: python frontend: / and the floating-point
 functions of integers are computed in floating point

---
 python/docc/python/functions/numpy.py | 44 +++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index aec8f56..ad02bcc 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -1145,7 +1145,47 @@ class NumPyHandler:
     def has_handler(self, func_name):
         return func_name in self.function_handlers
 
+    def _as_double(self, operand):
+        """The operand converted to floating point; itself if it is no integer."""
+        if not self._is_int_type(self._ev._element_type(operand)):
+            return operand
+
+        dtype = Scalar(PrimitiveType.Double)
+        tensor = self.tensor_table.get(operand)
+        if tensor is not None and len(tensor.shape) > 0:
+            tmp_name = self._create_array_temp(
+                tensor.shape,
+                dtype,
+                strides=self._get_contiguous_output_strides(
+                    tensor.shape, tensor.strides
+                ),
+            )
+            self.builder.add_cast_op(
+                operand, tensor, tmp_name, self.tensor_table[tmp_name]
+            )
+            return tmp_name
+
+        tmp_name = self._create_array_temp([], dtype)
+        block = self.builder.add_block()
+        t_src, src_sub = self._add_read(block, operand)
+        t_dst = self.builder.add_access(block, tmp_name)
+        t_task = self.builder.add_tasklet(
+            block, TaskletCode.assign, ["_in"], ["_out"]
+        )
+        self.builder.add_memlet(block, t_src, "void", t_task, "_in", src_sub)
+        self.builder.add_memlet(block, t_task, "_out", t_dst, "void", "")
+        return tmp_name
+
+    def _is_int_type(self, dtype):
+        return dtype.primitive_type not in (
+            PrimitiveType.Double,
+            PrimitiveType.Float,
+            PrimitiveType.Half,
+        )
+
     def handle_array_unary_op(self, op_type, operand):
+        if op_type not in ("abs", "absolute"):
+            operand = self._as_double(operand)
         dtype = self._ev._element_type(operand)
         if operand in self.tensor_table:
             tensor = self.tensor_table[operand]
@@ -1185,6 +1225,10 @@ class NumPyHandler:
         return tmp_name
 
     def handle_array_binary_op(self, op_type, left, right):
+        if op_type == "div":
+            left = self._as_double(left)
+            right = self._as_double(right)
+
         dtype_left = self._ev._element_type(left)
         dtype_right = self._ev._element_type(right)
         dtype = promote_element_types(dtype_left, dtype_right)
-- 
2.43.0


From d364a33b6698cb635fe1ea8620ceef58143f8f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:01 +0000
Subject: [PATCH 35/50] fix: python frontend: comparisons of arrays broadcast

---
 python/docc/python/functions/numpy.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index ad02bcc..c502677 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -1354,6 +1354,10 @@ class NumPyHandler:
         if left_is_array:
             shape = self.tensor_table[left].shape
             arr_name = left
+            if right_is_array:
+                shape = self._compute_broadcast_shape(
+                    shape, self.tensor_table[right].shape
+                )
         else:
             shape = self.tensor_table[right].shape
             arr_name = right
@@ -1443,17 +1447,23 @@ class NumPyHandler:
         # Multi-dimensional subset - TensorToPointerConversion handles strides/offset
         multi_dim_subset = ",".join(loop_vars)
 
+        def operand_subset(tensor):
+            # Broadcast: leading dimensions are missing, dimensions of size 1 repeat
+            dims = [str(d) for d in tensor.shape]
+            indices = loop_vars[len(loop_vars) - len(dims) :]
+            return ",".join("0" if d == "1" else v for d, v in zip(dims, indices))
+
         block = self.builder.add_block()
 
         if left_is_array:
             t_left = self.builder.add_access(block, left)
-            left_sub = multi_dim_subset
+            left_sub = operand_subset(left_tensor)
         else:
             t_left, left_sub = self._add_read(block, left)
 
         if right_is_array:
             t_right = self.builder.add_access(block, right)
-            right_sub = multi_dim_subset
+            right_sub = operand_subset(right_tensor)
         else:
             t_right, right_sub = self._add_read(block, right)
 
-- 
2.43.0


From 899e993eb32dbba6369c674fcb520dde909d74be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:47 +0000
Subject: [PATCH 36/50] fix: python frontend: transposes of views and slices
 with steps below -1

---
 python/docc/python/ast_parser.py      |  2 +-
 python/docc/python/functions/numpy.py | 13 ++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 965f455..48f9562 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -1668,7 +1668,7 @@ class ASTParser(ast.NodeVisitor):
                     if abs_step == 1:
                         dim_size = f"({start_str} - {stop_str})"
                     else:
-                        dim_size = f"(({start_str} - {stop_str} + {abs_step} - 1) / {abs_step})"
+                        dim_size = f"idiv({start_str} - {stop_str} + {abs_step} - 1, {abs_step})"
                     out_shape.append(dim_size)
 
                     # Stride for negative step: old_stride * step (negative)
diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index c502677..581b8db 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -836,12 +836,9 @@ class NumPyHandler:
         if in_strides is None:
             in_strides = self._compute_strides(in_shape, "C")
 
-        if self._is_contiguous(in_shape, in_strides):
-            # For contiguous inputs, output strides are permuted input strides
-            out_strides = [in_strides[p] for p in perm]
-        else:
-            # For non-contiguous inputs, output is C-order for the new shape
-            out_strides = self._compute_strides(out_shape, "C")
+        # The target is a view: permuted input strides, inherited offset
+        out_strides = [in_strides[p] for p in perm]
+        in_offset = getattr(in_info, "offset", "0") or "0"
 
         target_name = ""
         if isinstance(target, ast.Name):
@@ -863,7 +860,9 @@ class NumPyHandler:
         if not self.builder.exists(target_name):
             self.builder.add_container(target_name, ptr_type, False)
             self.container_table[target_name] = ptr_type
-        self.tensor_table[target_name] = Tensor(dtype, out_shape, out_strides)
+        self.tensor_table[target_name] = Tensor(
+            dtype, out_shape, out_strides, in_offset
+        )
 
         # Create reference memlet to alias the source array (view, not copy)
         block = self.builder.add_block()
-- 
2.43.0


From d0b449d93210d65e68155c1a65b4b106baee8f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:42 +0000
Subject: [PATCH 37/50] fix: python frontend: arrays of zeros are zeroed every
 time they are created

---
 python/docc/python/functions/numpy.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index 581b8db..90f2a30 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -2599,15 +2599,12 @@ class NumPyHandler:
         self.tensor_table[tmp_name] = tensor_entry
 
         # Try to hoist allocation to function entry
-        init_type = (
-            ManagedMemoryHandler.INIT_ZERO
-            if zero_init
-            else ManagedMemoryHandler.INIT_NONE
-        )
         if not ones_init and self.memory_handler.allocate(
-            tmp_name, ptr_type, total_size, init=init_type
+            tmp_name, ptr_type, total_size, init=ManagedMemoryHandler.INIT_NONE
         ):
-            pass  # Allocation registered for hoisting
+            # Only the allocation is hoisted: the array is zeroed every time it is created
+            if zero_init:
+                self._emit_memset(tmp_name, total_size, ptr_type)
         else:
             # Emit allocation immediately (size depends on loop variables or needs loop init)
             self._emit_malloc(
@@ -2616,6 +2613,12 @@ class NumPyHandler:
 
         return tmp_name
 
+    def _emit_memset(self, tmp_name, total_size, ptr_type):
+        block = self.builder.add_block()
+        t_memset = self.builder.add_memset(block, "0", total_size)
+        t_ptr = self.builder.add_access(block, tmp_name)
+        self.builder.add_memlet(block, t_memset, "_ptr", t_ptr, "void", "", ptr_type)
+
     def _emit_malloc(
         self, tmp_name, total_size, ptr_type, zero_init, ones_init, size_str, dtype
     ):
@@ -2626,12 +2629,7 @@ class NumPyHandler:
         self.builder.add_memlet(block1, t_malloc, "_ret", t_ptr1, "void", "", ptr_type)
 
         if zero_init:
-            block2 = self.builder.add_block()
-            t_memset = self.builder.add_memset(block2, "0", total_size)
-            t_ptr2 = self.builder.add_access(block2, tmp_name)
-            self.builder.add_memlet(
-                block2, t_memset, "_ptr", t_ptr2, "void", "", ptr_type
-            )
+            self._emit_memset(tmp_name, total_size, ptr_type)
         elif ones_init:
             loop_var = f"_i_{self._get_unique_id()}"
             if not self.builder.exists(loop_var):
-- 
2.43.0


From 2a88dc8140ba18f6fcceab3f5025c4879b1bf6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:42 +0000
Subject: [PATCH 38/50] fix: python frontend: mean and std of integers are
 computed in floating point

---
 python/docc/python/functions/numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index 90f2a30..05b3567 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -2292,6 +2292,9 @@ class NumPyHandler:
         if array_name not in self.tensor_table:
             raise ValueError(f"Reduction input must be an array, got {array_name}")
 
+        if func_name in ("mean", "std"):
+            array_name = self._as_double(array_name)
+
         input_tensor = self.tensor_table[array_name]
         input_shape = input_tensor.shape
         ndim = len(input_shape)
-- 
2.43.0


From 2f5105dac8fbb15327efd533c155aeec311fc0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:42 +0000
Subject: [PATCH 39/50] fix: python frontend: reshape infers -1 and takes the
 elements of views in C order

---
 python/docc/python/functions/numpy.py | 46 ++++++++++++++++-----------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index 05b3567..643a4b9 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -1067,26 +1067,21 @@ class NumPyHandler:
         # Parse new shape
         new_shape = self._parse_shape(node.args[1])
 
-        # Get input strides
-        in_strides = (
-            in_info.strides if hasattr(in_info, "strides") and in_info.strides else None
-        )
-        if in_strides is None:
-            in_strides = self._compute_strides(in_shape, "C")
+        # One dimension may be left to be inferred
+        if "-1" in new_shape:
+            total = " * ".join(f"({s})" for s in in_shape) or "1"
+            known = " * ".join(f"({s})" for s in new_shape if s != "-1") or "1"
+            new_shape[new_shape.index("-1")] = (
+                total if known == "1" else f"idiv({total}, {known})"
+            )
 
-        # Check if input is contiguous (C or F order)
-        c_contig = self._is_contiguous(in_shape, in_strides)
-        f_contig = self._is_contiguous_f(in_shape, in_strides)
+        # The elements are taken in C order
+        if not self._is_row_major(in_info):
+            input_name = self._row_major_copy(input_name)
+            in_info = self.tensor_table[input_name]
 
-        if c_contig:
-            out_strides = self._compute_strides(new_shape, "C")
-        elif f_contig:
-            out_strides = self._compute_strides(new_shape, "F")
-        else:
-            # Non-contiguous array cannot be reshaped without copy
-            raise NotImplementedError(
-                "np.reshape on non-contiguous array not supported (would require copy)"
-            )
+        out_strides = self._compute_strides(new_shape, "C")
+        in_offset = getattr(in_info, "offset", "0") or "0"
 
         # Create new pointer container
         tmp_name = f"_tmp_{self._get_unique_id()}"
@@ -1096,7 +1091,7 @@ class NumPyHandler:
 
         # Register tensor with new shape and computed strides
         self.tensor_table[tmp_name] = Tensor(
-            in_info.element_type, new_shape, out_strides
+            in_info.element_type, new_shape, out_strides, in_offset
         )
 
         # Create reference memlet to alias the source array (view, no copy)
@@ -1107,6 +1102,19 @@ class NumPyHandler:
 
         return tmp_name
 
+    def _is_row_major(self, info):
+        """Check if the elements are contiguous in C order, starting at the offset."""
+        strides = self._compute_strides(info.shape, "C")
+        row_major = Tensor(info.element_type, info.shape, strides)
+        return [str(s) for s in info.strides] == [str(s) for s in row_major.strides]
+
+    def _row_major_copy(self, name):
+        """Copy an array into a new one, contiguous in C order."""
+        info = self.tensor_table[name]
+        tmp_name = self._create_array_temp(info.shape, info.element_type)
+        self.builder.add_cast_op(name, info, tmp_name, self.tensor_table[tmp_name])
+        return tmp_name
+
     def _parse_shape(self, shape_node):
         """Parse a shape argument (tuple, list, or single int)."""
         if isinstance(shape_node, ast.Tuple) or isinstance(shape_node, ast.List):
-- 
2.43.0


From 9ac50339de573bd26faec0e213573ce625ca9b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:42 +0000
Subject: [PATCH 40/50] fix: python frontend: products of views and of
 sub-arrays

---
 python/docc/python/functions/numpy.py | 54 ++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index 643a4b9..f276973 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -110,10 +110,10 @@ class NumPyHandler:
     def parse_arg(self, node):
         """Parse an array argument, returning (name, start_indices, slice_shape, indices)."""
         if isinstance(node, ast.Name):
-            if node.id in self.tensor_table:
+            if self._is_plain(node.id):
                 return node.id, [], self.tensor_table[node.id].shape, []
         elif isinstance(node, ast.Subscript):
-            if isinstance(node.value, ast.Name) and node.value.id in self.tensor_table:
+            if isinstance(node.value, ast.Name) and self._is_plain(node.value.id):
                 name = node.value.id
                 indices = []
                 if isinstance(node.slice, ast.Tuple):
@@ -121,6 +121,17 @@ class NumPyHandler:
                 else:
                     indices = [node.slice]
 
+                # Add missing dimensions
+                indices = list(indices)
+                for _ in range(len(self.tensor_table[name].shape) - len(indices)):
+                    indices.append(ast.Slice())
+
+                def from_end(text, i):
+                    # Literal negative bounds count from the end
+                    if text.startswith("-") or text.startswith("(-"):
+                        return f"({self.tensor_table[name].shape[i]} + {text})"
+                    return text
+
                 start_indices = []
                 slice_shape = []
 
@@ -131,7 +142,7 @@ class NumPyHandler:
                             return None, None, None, None
                         start = "0"
                         if idx.lower:
-                            start = self._ev.visit(idx.lower)
+                            start = from_end(self._ev.visit(idx.lower), i)
                         start_indices.append(start)
 
                         shapes = self.tensor_table[name].shape
@@ -140,7 +151,7 @@ class NumPyHandler:
                         )
                         stop = dim_size
                         if idx.upper:
-                            stop = self._ev.visit(idx.upper)
+                            stop = from_end(self._ev.visit(idx.upper), i)
 
                         size = f"({stop} - {start})"
                         slice_shape.append(size)
@@ -148,13 +159,21 @@ class NumPyHandler:
                         if isinstance(idx, ast.Name) and idx.id in self.tensor_table:
                             # This is an array index (gather operation)
                             return None, None, None, None
-                        val = self._ev.visit(idx)
+                        val = from_end(self._ev.visit(idx), i)
                         start_indices.append(val)
 
                 return name, start_indices, slice_shape, indices
 
         return None, None, None, None
 
+    def _is_plain(self, name):
+        """Check if name is an array whose elements are contiguous in C order."""
+        if name not in self.tensor_table:
+            return False
+        info = self.tensor_table[name]
+        offset = getattr(info, "offset", "0") or "0"
+        return str(offset) == "0" and self._is_row_major(info)
+
     def flatten_subset(self, name, start_indices):
         """Convert multi-dimensional start indices to a flattened linear offset."""
         if not start_indices:
@@ -453,16 +472,21 @@ class NumPyHandler:
             else:
                 trans_b = False
 
-        def get_ld(name):
+        def get_ld(name, indices=()):
             if name not in self.tensor_table:
                 return ""
             shapes = self.tensor_table[name].shape
+            sliced_dims = [
+                i for i, idx in enumerate(indices) if isinstance(idx, ast.Slice)
+            ]
+            if len(shapes) > 2 and sliced_dims and sliced_dims[0] < len(shapes) - 1:
+                return " * ".join(f"({s})" for s in shapes[sliced_dims[0] + 1 :])
             if len(shapes) >= 2:
-                return str(shapes[1])
+                return str(shapes[-1])
             return "1"
 
-        lda = get_ld(A_name)
-        ldb = get_ld(B_name)
+        lda = get_ld(A_name, indices_a)
+        ldb = get_ld(B_name, indices_b)
 
         ldc = ""
         if target_name:
@@ -1954,11 +1978,15 @@ class NumPyHandler:
 
         if not res_a[0]:
             left_name = self.visit(left_node)
+            if left_name in self.tensor_table and not self._is_plain(left_name):
+                left_name = self._row_major_copy(left_name)
             left_node = ast.Name(id=left_name)
             res_a = self.parse_arg(left_node)
 
         if not res_b[0]:
             right_name = self.visit(right_node)
+            if right_name in self.tensor_table and not self._is_plain(right_name):
+                right_name = self._row_major_copy(right_name)
             right_node = ast.Name(id=right_name)
             res_b = self.parse_arg(right_node)
 
@@ -2074,11 +2102,15 @@ class NumPyHandler:
 
         if not res_a[0]:
             left_name = self.visit(arg0)
+            if left_name in self.tensor_table and not self._is_plain(left_name):
+                left_name = self._row_major_copy(left_name)
             arg0 = ast.Name(id=left_name)
             res_a = self.parse_arg(arg0)
 
         if not res_b[0]:
             right_name = self.visit(arg1)
+            if right_name in self.tensor_table and not self._is_plain(right_name):
+                right_name = self._row_major_copy(right_name)
             arg1 = ast.Name(id=right_name)
             res_b = self.parse_arg(arg1)
 
@@ -2144,11 +2176,15 @@ class NumPyHandler:
 
         if not res_a[0]:
             left_name = self.visit(arg0)
+            if left_name in self.tensor_table and not self._is_plain(left_name):
+                left_name = self._row_major_copy(left_name)
             arg0 = ast.Name(id=left_name)
             res_a = self.parse_arg(arg0)
 
         if not res_b[0]:
             right_name = self.visit(arg1)
+            if right_name in self.tensor_table and not self._is_plain(right_name):
+                right_name = self._row_major_copy(right_name)
             arg1 = ast.Name(id=right_name)
             res_b = self.parse_arg(arg1)
 
-- 
2.43.0


From c103328deddda9ad05defb51a2d85b95abc77988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:43 +0000
Subject: [PATCH 41/50] fix: python frontend: np.add.outer and the like are no
 products

---
 python/docc/python/functions/numpy.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index f276973..c9b594d 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -627,13 +627,21 @@ class NumPyHandler:
 
         return True
 
+    def _is_outer_call(self, node):
+        """Check if a node calls np.outer or np.multiply.outer (not another ufunc's outer)."""
+        if not isinstance(node, ast.Call):
+            return False
+        func = node.func
+        if isinstance(func, ast.Attribute) and func.attr == "outer":
+            return not isinstance(func.value, ast.Attribute) or (
+                func.value.attr == "multiply"
+            )
+        return isinstance(func, ast.Name) and func.id == "outer"
+
     def is_outer(self, node):
         """Check if a node represents an outer product operation."""
-        if isinstance(node, ast.Call):
-            if isinstance(node.func, ast.Attribute) and node.func.attr == "outer":
-                return True
-            if isinstance(node.func, ast.Name) and node.func.id == "outer":
-                return True
+        if self._is_outer_call(node):
+            return True
         if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
             return self.is_outer(node.left) or self.is_outer(node.right)
         return False
@@ -674,10 +682,7 @@ class NumPyHandler:
                 if target_found:
                     return False
                 target_found = True
-            elif isinstance(term, ast.Call) and (
-                (isinstance(term.func, ast.Attribute) and term.func.attr == "outer")
-                or (isinstance(term.func, ast.Name) and term.func.id == "outer")
-            ):
+            elif self._is_outer_call(term):
                 if not self._product_args(term):
                     return False
                 outer_calls.append(term)
-- 
2.43.0


From 855beb1c02be5a9ca9a7f529c837987d0985babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:43 +0000
Subject: [PATCH 42/50] fix: python frontend: slice assignments follow steps,
 negative bounds, broadcasting and overlap

---
 python/docc/python/ast_parser.py | 448 +++++--------------------------
 1 file changed, 68 insertions(+), 380 deletions(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 48f9562..0ca1c05 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -14,9 +14,7 @@ from docc.sdfg import (
 )
 from docc.python.ast_utils import (
     check_call,
-    SliceRewriter,
     get_debug_info,
-    contains_ufunc_outer,
     normalize_negative_index,
 )
 from docc.python.types import (
@@ -2085,102 +2083,48 @@ class ASTParser(ast.NodeVisitor):
 
         return tmp_name
 
-    def _get_max_array_ndim_in_expr(self, node):
-        """Get the maximum array dimensionality in an expression."""
-        max_ndim = 0
-
-        class NdimVisitor(ast.NodeVisitor):
-            def __init__(self, tensor_table):
-                self.tensor_table = tensor_table
-                self.max_ndim = 0
-
-            def visit_Name(self, node):
-                if node.id in self.tensor_table:
-                    ndim = len(self.tensor_table[node.id].shape)
-                    self.max_ndim = max(self.max_ndim, ndim)
-                return self.generic_visit(node)
-
-        visitor = NdimVisitor(self.tensor_table)
-        visitor.visit(node)
-        return visitor.max_ndim
-
-    def _handle_broadcast_slice_assignment(
-        self,
-        target,
-        materialized_rhs,
-        target_name,
-        indices,
-        target_ndim,
-        value_ndim,
-        debug_info,
-    ):
-        """Handle slice assignment with broadcasting (e.g., 2D[:,:] = 1D[:]).
-
-        materialized_rhs is the already-evaluated RHS array name (not AST node).
-        """
-        broadcast_dims = target_ndim - value_ndim
-        shapes = self.tensor_table[target_name].shape
-        rhs_tensor = self.tensor_table.get(materialized_rhs)
-        rhs_shapes = rhs_tensor.shape if rhs_tensor else []
-
-        # Create outer loops for broadcast dimensions
-        outer_loop_vars = []
-        for i in range(broadcast_dims):
-            loop_var = self.builder.find_new_name(f"_bcast_iter_{i}_")
-            outer_loop_vars.append(loop_var)
-
-            if not self.builder.exists(loop_var):
-                self.builder.add_container(loop_var, Scalar(PrimitiveType.Int64), False)
-                self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
-
-            dim_size = shapes[i] if i < len(shapes) else f"_{target_name}_shape_{i}"
-            self.builder.begin_for(loop_var, "0", str(dim_size), "1", debug_info)
-
-        # Create inner loops for value dimensions
-        inner_loop_vars = []
-        for i in range(value_ndim):
-            loop_var = self.builder.find_new_name(f"_inner_iter_{i}_")
-            inner_loop_vars.append(loop_var)
-
-            if not self.builder.exists(loop_var):
-                self.builder.add_container(loop_var, Scalar(PrimitiveType.Int64), False)
-                self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
+    def _slice_extent(self, idx, dim_size):
+        """First index, number of elements and step of a slice of a dimension."""
+
+        def bound(node, default):
+            if node is None or (isinstance(node, ast.Constant) and node.value is None):
+                return default
+            text = self.visit(node)
+            if text.startswith("-") or text.startswith("(-"):
+                # Literal negative bounds count from the end
+                text = f"({dim_size} + {text})"
+            return text
+
+        step = bound(None, "1") if idx.step is None else self.visit(idx.step)
+        if step.startswith("-") or step.startswith("(-"):
+            magnitude = step.strip("()")[1:]
+            start = bound(idx.lower, f"({dim_size} - 1)")
+            extent = f"{start} - {bound(idx.upper, '-1')}"
+        else:
+            magnitude = step
+            start = bound(idx.lower, "0")
+            extent = f"{bound(idx.upper, str(dim_size))} - {start}"
 
-            # Use RHS shape for inner dimension bounds
-            dim_size = (
-                rhs_shapes[i] if i < len(rhs_shapes) else shapes[broadcast_dims + i]
+        if magnitude == "1":
+            count = f"({extent})"
+        else:
+            count = f"idiv({extent} + {magnitude} - 1, {magnitude})"
+        return start, count, step
+
+    def _is_view_expr(self, node):
+        """Check if the value of an expression may share the memory of its operands."""
+        if isinstance(node, ast.Call):
+            return isinstance(node.func, ast.Attribute) and node.func.attr in (
+                "flip",
+                "fliplr",
+                "flipud",
+                "transpose",
+                "reshape",
+                "squeeze",
+                "expand_dims",
+                "ravel",
             )
-            self.builder.begin_for(loop_var, "0", str(dim_size), "1", debug_info)
-
-        # Create assignment block: target[outer_vars, inner_vars] = rhs[inner_vars]
-        block = self.builder.add_block(debug_info)
-        t_src = self.builder.add_access(block, materialized_rhs, debug_info)
-        t_dst = self.builder.add_access(block, target_name, debug_info)
-        t_task = self.builder.add_tasklet(
-            block, TaskletCode.assign, ["_in"], ["_out"], debug_info
-        )
-
-        # Source index: just inner loop vars
-        src_index = ",".join(inner_loop_vars) if inner_loop_vars else "0"
-
-        # Target index: outer_vars + inner_vars combined
-        all_target_vars = outer_loop_vars + inner_loop_vars
-        target_index = ",".join(all_target_vars) if all_target_vars else "0"
-
-        self.builder.add_memlet(
-            block, t_src, "void", t_task, "_in", src_index, rhs_tensor, debug_info
-        )
-
-        tensor_dst = self.tensor_table[target_name]
-        self.builder.add_memlet(
-            block, t_task, "_out", t_dst, "void", target_index, tensor_dst, debug_info
-        )
-
-        # Close all loops (inner first, then outer)
-        for _ in inner_loop_vars:
-            self.builder.end_for()
-        for _ in outer_loop_vars:
-            self.builder.end_for()
+        return isinstance(node, (ast.Name, ast.Subscript, ast.Attribute))
 
     def _handle_slice_assignment(
         self, target, value, target_name, indices, debug_info=None
@@ -2196,37 +2140,22 @@ class ASTParser(ast.NodeVisitor):
             for _ in range(ndim - len(indices)):
                 indices.append(ast.Slice(lower=None, upper=None, step=None))
 
-        # Handle ufunc outer case separately to preserve slice shape info
-        has_outer, ufunc_name, outer_node = contains_ufunc_outer(value)
-        if has_outer:
-            self._handle_ufunc_outer_slice_assignment(
-                target, value, target_name, indices, debug_info
-            )
-            return
-
-        # Count slice dimensions to determine effective target dimensionality
-        target_slice_ndim = sum(1 for idx in indices if isinstance(idx, ast.Slice))
-        value_max_ndim = self._get_max_array_ndim_in_expr(value)
-
         # ALWAYS evaluate RHS first (NumPy semantics) - before any loops
         materialized_rhs = self.visit(value)
 
+        rhs_tensor = self.tensor_table.get(materialized_rhs)
+        if rhs_tensor is not None and len(rhs_tensor.shape) == 0:
+            rhs_tensor = None
         if (
-            target_slice_ndim > 0
-            and value_max_ndim > 0
-            and target_slice_ndim > value_max_ndim
-        ):
-            # Broadcasting case: use row-by-row approach with reference memlets
-            self._handle_broadcast_slice_assignment(
-                target,
-                materialized_rhs,
-                target_name,
-                indices,
-                target_slice_ndim,
-                value_max_ndim,
-                debug_info,
+            rhs_tensor is not None
+            and self._is_view_expr(value)
+            and any(
+                isinstance(n, ast.Name) and n.id == target_name for n in ast.walk(value)
             )
-            return
+        ):
+            # The target may overlap the RHS: read everything before writing
+            materialized_rhs = self.numpy_visitor._row_major_copy(materialized_rhs)
+            rhs_tensor = self.tensor_table[materialized_rhs]
 
         loop_vars = []
         new_target_indices = []
@@ -2242,41 +2171,12 @@ class ASTParser(ast.NodeVisitor):
                     )
                     self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
 
-                start_str = "0"
-                if idx.lower:
-                    start_str = self.visit(idx.lower)
-                    if start_str.startswith("-"):
-                        dim_size = (
-                            str(tensor_info.shape[i])
-                            if i < len(tensor_info.shape)
-                            else f"_{target_name}_shape_{i}"
-                        )
-                        start_str = f"({dim_size} {start_str})"
-
-                stop_str = ""
-                if idx.upper and not (
-                    isinstance(idx.upper, ast.Constant) and idx.upper.value is None
-                ):
-                    stop_str = self.visit(idx.upper)
-                    if stop_str.startswith("-") or stop_str.startswith("(-"):
-                        dim_size = (
-                            str(tensor_info.shape[i])
-                            if i < len(tensor_info.shape)
-                            else f"_{target_name}_shape_{i}"
-                        )
-                        stop_str = f"({dim_size} {stop_str})"
-                else:
-                    stop_str = (
-                        str(tensor_info.shape[i])
-                        if i < len(tensor_info.shape)
-                        else f"_{target_name}_shape_{i}"
-                    )
-
-                step_str = "1"
-                if idx.step:
-                    step_str = self.visit(idx.step)
-
-                count_str = f"({stop_str} - {start_str})"
+                dim_size = (
+                    str(tensor_info.shape[i])
+                    if i < len(tensor_info.shape)
+                    else f"_{target_name}_shape_{i}"
+                )
+                start_str, count_str, step_str = self._slice_extent(idx, dim_size)
 
                 self.builder.begin_for(loop_var, "0", count_str, "1", debug_info)
                 self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
@@ -2296,24 +2196,23 @@ class ASTParser(ast.NodeVisitor):
                 idx_str = self.visit(normalized_idx)
                 new_target_indices.append(ast.Name(id=idx_str, ctx=ast.Load()))
 
-        rewriter = SliceRewriter(loop_vars, self.tensor_table, self)
-        new_value = rewriter.visit(copy.deepcopy(value))
-
         new_target = copy.deepcopy(target)
         if len(new_target_indices) == 1:
             new_target.slice = new_target_indices[0]
         else:
             new_target.slice = ast.Tuple(elts=new_target_indices, ctx=ast.Load())
 
-        rhs_memlet_type = None
         rhs_indexed_subset = ""
-        if materialized_rhs in self.tensor_table:
-            rhs_tensor = self.tensor_table[materialized_rhs]
-            rhs_ndim = len(rhs_tensor.shape)
-            if rhs_ndim > 0 and rhs_ndim == len(loop_vars):
-                # RHS is an array matching the slice dimensions - index it with loop vars
-                rhs_indexed_subset = ",".join(loop_vars)
-                rhs_memlet_type = rhs_tensor
+        if rhs_tensor is not None:
+            # Index the RHS with the loop variables of the trailing dimensions;
+            # dimensions of size 1 are broadcast
+            rhs_dims = [str(d) for d in rhs_tensor.shape]
+            rhs_vars = ["0"] * (len(rhs_dims) - len(loop_vars)) + loop_vars[
+                max(0, len(loop_vars) - len(rhs_dims)) :
+            ]
+            rhs_indexed_subset = ",".join(
+                "0" if d == "1" else v for d, v in zip(rhs_dims, rhs_vars)
+            )
 
         block = self.builder.add_block(debug_info)
         t_task = self.builder.add_tasklet(
@@ -2330,7 +2229,7 @@ class ASTParser(ast.NodeVisitor):
             t_task,
             "_in",
             actual_src_sub,
-            rhs_memlet_type,
+            rhs_tensor,
             debug_info,
         )
 
@@ -2352,217 +2251,6 @@ class ASTParser(ast.NodeVisitor):
         for _ in loop_vars:
             self.builder.end_for()
 
-    def _handle_ufunc_outer_slice_assignment(
-        self, target, value, target_name, indices, debug_info=None
-    ):
-        """Handle slice assignment where RHS contains a ufunc outer operation.
-
-        Example: path[:] = np.minimum(path[:], np.add.outer(path[:, k], path[k, :]))
-
-        The strategy is:
-        1. Evaluate the entire RHS expression, which will create a temporary array
-           containing the result of the ufunc outer (potentially wrapped in other ops)
-        2. Copy the temporary result to the target slice
-
-        This avoids the loop transformation that would destroy slice shape info.
-        """
-        if debug_info is None:
-            from docc.sdfg import DebugInfo
-
-            debug_info = DebugInfo()
-
-        # Evaluate the full RHS expression
-        # This will:
-        # - Create temp arrays for ufunc outer results
-        # - Apply any wrapping operations (np.minimum, etc.)
-        # - Return the name of the final result array
-        result_name = self.visit(value)
-
-        # Now we need to copy result to target slice
-        # Count slice dimensions to determine if we need loops
-        target_slice_ndim = sum(1 for idx in indices if isinstance(idx, ast.Slice))
-
-        if target_slice_ndim == 0:
-            # No slices on target - just simple assignment
-            target_str = self.visit(target)
-            block = self.builder.add_block(debug_info)
-            t_src, src_sub = self._add_read(block, result_name, debug_info)
-            t_dst = self.builder.add_access(block, target_str, debug_info)
-            t_task = self.builder.add_tasklet(
-                block, TaskletCode.assign, ["_in"], ["_out"], debug_info
-            )
-            self.builder.add_memlet(
-                block, t_src, "void", t_task, "_in", src_sub, None, debug_info
-            )
-            self.builder.add_memlet(
-                block, t_task, "_out", t_dst, "void", "", None, debug_info
-            )
-            return
-
-        # We have slices on the target - need to create loops for copying
-        # Get target array info
-        target_shapes = self.tensor_table[target_name].shape
-
-        loop_vars = []
-        new_target_indices = []
-
-        for i, idx in enumerate(indices):
-            if isinstance(idx, ast.Slice):
-                loop_var = self.builder.find_new_name(f"_copy_iter_{len(loop_vars)}_")
-                loop_vars.append(loop_var)
-
-                if not self.builder.exists(loop_var):
-                    self.builder.add_container(
-                        loop_var, Scalar(PrimitiveType.Int64), False
-                    )
-                    self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
-
-                start_str = "0"
-                if idx.lower:
-                    start_str = self.visit(idx.lower)
-
-                stop_str = ""
-                if idx.upper and not (
-                    isinstance(idx.upper, ast.Constant) and idx.upper.value is None
-                ):
-                    stop_str = self.visit(idx.upper)
-                else:
-                    stop_str = (
-                        target_shapes[i]
-                        if i < len(target_shapes)
-                        else f"_{target_name}_shape_{i}"
-                    )
-
-                step_str = "1"
-                if idx.step:
-                    step_str = self.visit(idx.step)
-
-                count_str = f"({stop_str} - {start_str})"
-
-                self.builder.begin_for(loop_var, "0", count_str, "1", debug_info)
-                self.container_table[loop_var] = Scalar(PrimitiveType.Int64)
-
-                new_target_indices.append(
-                    ast.Name(
-                        id=f"{start_str} + {loop_var} * {step_str}", ctx=ast.Load()
-                    )
-                )
-            else:
-                # Handle non-slice indices - need to normalize negative indices
-                dim_size = (
-                    target_shapes[i]
-                    if i < len(target_shapes)
-                    else f"_{target_name}_shape_{i}"
-                )
-                normalized_idx = normalize_negative_index(idx, dim_size)
-                # Visit the index NOW before any loops are opened to ensure
-                # intermediate computations are placed outside the loops
-                idx_str = self.visit(normalized_idx)
-                new_target_indices.append(ast.Name(id=idx_str, ctx=ast.Load()))
-
-        # Create assignment block: target[i,j,...] = result[i,j,...]
-        block = self.builder.add_block(debug_info)
-
-        # Access nodes
-        t_src = self.builder.add_access(block, result_name, debug_info)
-        t_dst = self.builder.add_access(block, target_name, debug_info)
-        t_task = self.builder.add_tasklet(
-            block, TaskletCode.assign, ["_in"], ["_out"], debug_info
-        )
-
-        # Source index - just use loop vars for flat array from ufunc outer
-        # The ufunc outer result is a flat array of size M*N
-        if len(loop_vars) == 2:
-            # 2D case: result is indexed as i * N + j
-            # Get the second dimension size from target shapes
-            n_dim = (
-                target_shapes[1]
-                if len(target_shapes) > 1
-                else f"_{target_name}_shape_1"
-            )
-            src_index = f"(({loop_vars[0]}) * ({n_dim}) + ({loop_vars[1]}))"
-        elif len(loop_vars) == 1:
-            src_index = loop_vars[0]
-        else:
-            # General case - compute linear index
-            src_terms = []
-            stride = "1"
-            for i in range(len(loop_vars) - 1, -1, -1):
-                if stride == "1":
-                    src_terms.insert(0, loop_vars[i])
-                else:
-                    src_terms.insert(0, f"({loop_vars[i]} * {stride})")
-                if i > 0:
-                    dim_size = (
-                        target_shapes[i]
-                        if i < len(target_shapes)
-                        else f"_{target_name}_shape_{i}"
-                    )
-                    stride = (
-                        f"({stride} * {dim_size})" if stride != "1" else str(dim_size)
-                    )
-            src_index = " + ".join(src_terms) if src_terms else "0"
-
-        # Target index - compute linear index (row-major order)
-        # For 2D array with shape (M, N): linear_index = i * N + j
-        target_index_parts = []
-        for idx in new_target_indices:
-            if isinstance(idx, ast.Name):
-                target_index_parts.append(idx.id)
-            else:
-                target_index_parts.append(self.visit(idx))
-
-        # Convert to linear index
-        if len(target_index_parts) == 2:
-            # 2D case
-            n_dim = (
-                target_shapes[1]
-                if len(target_shapes) > 1
-                else f"_{target_name}_shape_1"
-            )
-            target_index = (
-                f"(({target_index_parts[0]}) * ({n_dim}) + ({target_index_parts[1]}))"
-            )
-        elif len(target_index_parts) == 1:
-            target_index = target_index_parts[0]
-        else:
-            # General case - compute linear index with strides
-            stride = "1"
-            target_index = "0"
-            for i in range(len(target_index_parts) - 1, -1, -1):
-                idx_part = target_index_parts[i]
-                if stride == "1":
-                    term = idx_part
-                else:
-                    term = f"(({idx_part}) * ({stride}))"
-
-                if target_index == "0":
-                    target_index = term
-                else:
-                    target_index = f"({term} + {target_index})"
-
-                if i > 0:
-                    dim_size = (
-                        target_shapes[i]
-                        if i < len(target_shapes)
-                        else f"_{target_name}_shape_{i}"
-                    )
-                    stride = (
-                        f"({stride} * {dim_size})" if stride != "1" else str(dim_size)
-                    )
-
-        # Connect memlets
-        self.builder.add_memlet(
-            block, t_src, "void", t_task, "_in", src_index, None, debug_info
-        )
-        self.builder.add_memlet(
-            block, t_task, "_out", t_dst, "void", target_index, None, debug_info
-        )
-
-        # End loops
-        for _ in loop_vars:
-            self.builder.end_for()
-
     def _contains_indirect_access(self, node):
         """Check if an AST node contains any indirect array access."""
         if isinstance(node, ast.Subscript):
-- 
2.43.0


From 64480cbde9be8d679cc2303ce62e6c67aa4ca28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:37 +0000
Subject: [PATCH 43/50] fix: python frontend: the indices of an assigned
 element are computed before they are used

---
 python/docc/python/ast_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 0ca1c05..80d4830 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -880,6 +880,9 @@ class ASTParser(ast.NodeVisitor):
             # Handle rhs and store in scalar tmp
             rhs_tmp = self.visit(node.value)
 
+            # Compute the indices before the block that uses them
+            lhs_expr = self.visit(target)
+
             block = self.builder.add_block(debug_info)
             t_task = self.builder.add_tasklet(
                 block, TaskletCode.assign, ["_in"], ["_out"], debug_info
@@ -890,7 +893,6 @@ class ASTParser(ast.NodeVisitor):
                 block, t_src, "void", t_task, "_in", src_sub, None, debug_info
             )
 
-            lhs_expr = self.visit(target)
             if "(" in lhs_expr and lhs_expr.endswith(")"):
                 subset = lhs_expr[lhs_expr.find("(") + 1 : -1]
                 tensor_dst = self.tensor_table[target_name]
-- 
2.43.0


From 698752000f56e6fafc2e6bc921445a95ade44e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:37 +0000
Subject: [PATCH 44/50] fix: python frontend: a name assigned a product is
 rebound, not written through

---
 python/docc/python/functions/numpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index c9b594d..cc744cf 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -298,7 +298,8 @@ class NumPyHandler:
         if isinstance(target, str):
             target_name = target
         elif isinstance(target, ast.Name):
-            target_name = target.id
+            # The name is rebound: its array may be shared and of another shape
+            return False
         elif isinstance(target, ast.Subscript):
             if isinstance(target.value, ast.Name):
                 res = self.parse_arg(target)
@@ -654,7 +655,8 @@ class NumPyHandler:
         if isinstance(target, str):
             target_name = target
         elif isinstance(target, ast.Name):
-            target_name = target.id
+            # The name is rebound: its array may be shared and of another shape
+            return False
         elif isinstance(target, ast.Subscript):
             res = self.parse_arg(target)
             if res[0]:
-- 
2.43.0


From 79227f0c3b5df856e71451ed92f0c51dd0da34e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:37 +0000
Subject: [PATCH 45/50] fix: python frontend: a transpose assigned to a
 subscript is not a view

---
 python/docc/python/functions/numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index cc744cf..ac67726 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -800,6 +800,9 @@ class NumPyHandler:
         """Handle transpose operations including .T and np.transpose()."""
         if not self.is_transpose(value_node):
             return False
+        if not isinstance(target, (ast.Name, str)):
+            # Only a name becomes a view; the elements of a subscript are assigned
+            return False
 
         input_node = None
         perm = []
-- 
2.43.0


From 600fe7dc12375b764f57f1d20ccc0464925dbe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:37 +0000
Subject: [PATCH 46/50] fix: python frontend: comparisons of arrays with
 integer names

---
 python/docc/python/functions/numpy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/docc/python/functions/numpy.py b/python/docc/python/functions/numpy.py
index ac67726..10158c0 100644
--- a/python/docc/python/functions/numpy.py
+++ b/python/docc/python/functions/numpy.py
@@ -1452,9 +1452,12 @@ class NumPyHandler:
                 self.container_table[float_name] = Scalar(PrimitiveType.Double)
 
                 block_conv = self.builder.add_block()
-                t_const = self.builder.add_constant(
-                    block_conv, f"{scalar_name}.0", Scalar(PrimitiveType.Double)
-                )
+                if self.builder.exists(scalar_name):
+                    t_const = self.builder.add_access(block_conv, scalar_name)
+                else:
+                    t_const = self.builder.add_constant(
+                        block_conv, f"{scalar_name}.0", Scalar(PrimitiveType.Double)
+                    )
                 t_float = self.builder.add_access(block_conv, float_name)
                 t_assign = self.builder.add_tasklet(
                     block_conv, TaskletCode.assign, ["_in"], ["_out"]
-- 
2.43.0


From 619605209cd37665382c39ea596550a7b1fdba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:00 +0000
Subject: [PATCH 47/50] fix: python frontend: paths that return other shapes or
 types are refused

---
 python/docc/python/ast_parser.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 80d4830..286c3c4 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -1162,6 +1162,32 @@ class ASTParser(ast.NodeVisitor):
             f"Only range() loops and iteration over ndarrays supported, got: {ast.dump(node.iter)}"
         )
 
+    def _check_return(self, ret_name, res):
+        """All paths share one return buffer, whose type and shape are those of the
+        first return that was visited."""
+        if ret_name not in self.container_table:
+            return
+        is_array = res in self.tensor_table and len(self.tensor_table[res].shape) > 0
+        shape = self.captured_return_shapes.get(ret_name)
+        if is_array and shape is not None:
+            res_shape = self.shapes_runtime_info.get(res, self.tensor_table[res].shape)
+            if shape != [str(s) for s in res_shape]:
+                raise NotImplementedError("Paths that return arrays of other shapes")
+        if is_array or ret_name in self.tensor_table:
+            return
+        ret_type = self.container_table[ret_name]
+        if not isinstance(ret_type, Pointer) or not ret_type.has_pointee_type():
+            return
+        floating = (PrimitiveType.Double, PrimitiveType.Float)
+        if ret_type.pointee_type.primitive_type in floating:
+            return
+        if res in self.container_table:
+            is_float = self.container_table[res].primitive_type in floating
+        else:
+            is_float = not self._is_int(res) and res not in ("true", "false")
+        if is_float:
+            raise NotImplementedError("Paths that return integers and floats")
+
     def visit_Return(self, node):
         if node.value is None:
             debug_info = get_debug_info(node, self.filename, self.function_name)
@@ -1211,6 +1237,7 @@ class ASTParser(ast.NodeVisitor):
         for i, res in enumerate(parsed_values):
             ret_name = f"_docc_ret_{i}"
             typ = self.container_table.get(ret_name)
+            self._check_return(ret_name, res)
 
             is_array_return = False
             if res in self.tensor_table:
-- 
2.43.0


From b170ea9a771ec0401d1b3c7bf0c4ab436f380108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:00 +0000
Subject: [PATCH 48/50] fix: python frontend: a return of an inlined function
 ends that function

---
 python/docc/python/ast_parser.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/python/docc/python/ast_parser.py b/python/docc/python/ast_parser.py
index 286c3c4..793412c 100644
--- a/python/docc/python/ast_parser.py
+++ b/python/docc/python/ast_parser.py
@@ -1387,6 +1387,23 @@ class ASTParser(ast.NodeVisitor):
 
         raise NotImplementedError(f"Function call {func_name} not supported")
 
+    def _returns_last(self, stmts):
+        """The statements with every return in the last place of its path, such that
+        nothing of the function follows it."""
+        for i, stmt in enumerate(stmts):
+            if isinstance(stmt, ast.Return):
+                return stmts[: i + 1]
+            if not any(isinstance(n, ast.Return) for n in ast.walk(stmt)):
+                continue
+            if not isinstance(stmt, ast.If):
+                raise NotImplementedError("Return inside a loop of an inlined function")
+            rest = stmts[i + 1 :]
+            orelse = stmt.orelse + copy.deepcopy(rest)
+            stmt.body = self._returns_last(stmt.body + rest)
+            stmt.orelse = self._returns_last(orelse)
+            return stmts[: i + 1]
+        return stmts
+
     def _handle_inline_call(self, node, func_obj):
         try:
             source_lines, start_line = inspect.getsourcelines(func_obj)
@@ -1464,10 +1481,11 @@ class ASTParser(ast.NodeVisitor):
                         targets=[ast.Name(id=res_name, ctx=ast.Store())],
                         value=val,
                     )
-                return node
+                return ast.Pass()
 
         renamer = VariableRenamer(suffix, combined_globals)
-        new_body = [renamer.visit(stmt) for stmt in func_def.body]
+        body = self._returns_last(func_def.body)
+        new_body = [renamer.visit(stmt) for stmt in body]
 
         param_assignments = []
 
-- 
2.43.0


From 64ad7a5eb604da01db65f060ff9c03f8ec56ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:00 +0000
Subject: [PATCH 49/50] fix: python frontend: assigning a scalar argument keeps
 the extents given by it

---
 python/docc/python/python_program.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/python/docc/python/python_program.py b/python/docc/python/python_program.py
index 4a394f7..2b2637e 100644
--- a/python/docc/python/python_program.py
+++ b/python/docc/python/python_program.py
@@ -100,6 +100,27 @@ def _map_python_type(dtype):
     return dtype
 
 
+def _keep_arguments(func_def, scalars):
+    """Lets the function assign copies of its scalar arguments: the extents of its
+    arrays are given in terms of the arguments' values at the call."""
+    names = [n for n in ast.walk(func_def) if isinstance(n, ast.Name)]
+    used = {n.id for n in names}
+    assigned = {n.id for n in names if not isinstance(n.ctx, ast.Load)}
+    copies = []
+    for name in scalars:
+        if name not in assigned:
+            continue
+        local = f"{name}_local"
+        while local in used:
+            local += "_"
+        for n in names:
+            if n.id == name:
+                n.id = local
+        copy = ast.parse(f"{local} = {name}").body[0]
+        copies.append(ast.increment_lineno(copy, func_def.lineno - 1))
+    func_def.body[:0] = copies
+
+
 class PythonProgram(DoccProgram):
 
     def __init__(
@@ -705,6 +726,10 @@ class PythonProgram(DoccProgram):
         tree = ast.parse(source)
         ast.increment_lineno(tree, start_line - 1)
         func_def = tree.body[0]
+        _keep_arguments(
+            func_def,
+            [n for (n, _), t in zip(params, arg_types) if isinstance(t, Scalar)],
+        )
 
         filename = inspect.getsourcefile(self.func)
         function_name = self.func.__name__
-- 
2.43.0


From 4c9b177fc32b394a34b27e944348082ff8d20eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:32 +0000
Subject: [PATCH 50/50] fix: python bindings: a kernel without return value no
 longer returns the contents of a register

---
 python/docc/compiler/compiled_sdfg.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/docc/compiler/compiled_sdfg.py b/python/docc/compiler/compiled_sdfg.py
index a03435c..75e142b 100644
--- a/python/docc/compiler/compiled_sdfg.py
+++ b/python/docc/compiler/compiled_sdfg.py
@@ -74,8 +74,15 @@ class CompiledSDFG:
 
         self.func.argtypes = self.arg_types
 
-        # Set up return type
-        self.func.restype = self._get_ctypes_type(sdfg.return_type)
+        # Set up return type: a function without one leaves no result to convert
+        return_type = sdfg.return_type
+        if (
+            isinstance(return_type, Scalar)
+            and return_type.primitive_type == PrimitiveType.Void
+        ):
+            self.func.restype = None
+        else:
+            self.func.restype = self._get_ctypes_type(return_type)
 
     def _convert_to_python_syntax(self, expr_str):
         import re
-- 
2.43.0

