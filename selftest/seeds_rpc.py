C = "rpc/src/passes/rpc/rpc_context.cpp"
D = "rpc/src/passes/rpc/daisytuner_rpc_context.cpp"
U = "rpc/src/util/utils_curl.cpp"
HDR = r'''
#include <sdfg/passes/rpc/daisytuner_rpc_context.h>
#include <sdfg/passes/rpc/rpc_context.h>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace sdfg::passes::rpc;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\n", #c); return 1; } } while (0)
'''
HTTP = r'''#!/bin/bash
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
R=$PWD
trap 'kill $P 2>/dev/null; rm -rf "$T"' EXIT
P=
clang++-19 -std=gnu++20 -g -w -I$R/rpc/include -I$R/sdfg/include "$D/demo.cpp" -o "$T/demo" $R/_build/librpc_part.a -lcurl -lpthread || exit 3
python3 "$D/server.py" "$T/port" &
P=$!
for i in $(seq 100); do [ -s "$T/port" ] && break; sleep 0.1; done
cd "$T"
http_proxy= no_proxy=127.0.0.1 timeout 60 ./demo "http://127.0.0.1:$(cat "$T/port")"
'''
SRV = r'''
import http.server, os, sys
class H(http.server.BaseHTTPRequestHandler):
    def do_POST(self):
        n = int(self.headers.get("Content-Length", "0"))
        self.rfile.read(n)
        code, size = [int(x) for x in self.path.strip("/").split("/")]
        self.send_response(code)
        self.send_header("Content-Length", str(size))
        self.end_headers()
        self.wfile.write(bytes(97 + i % 26 for i in range(size)))
    def log_message(self, *a):
        pass
s = http.server.HTTPServer(("127.0.0.1", 0), H)
open(sys.argv[1] + ".tmp", "w").write(str(s.server_port))
os.rename(sys.argv[1] + ".tmp", sys.argv[1])
s.serve_forever()
'''
SEEDS = [
    dict(id="e01_crlf_token_kept", property="E01", lib="rpc",
         edits=[(D, '''            token.erase(token.find_last_not_of(" \\n\\r\\t") + 1);
            return std::make_pair(token, false);
        }
    }
''', '''            token.erase(token.find_last_not_of(" \\n\\t") + 1);
            return std::make_pair(token, false);
        }
    }
''')],
         needs="a token file with CRLF line ends in $HOME",
         breaks="a carriage return ends up in the Authorization header",
         cpp=HDR + r'''
int main() {
    unsetenv("DOCC_JOB_TOKEN"); unsetenv("DOCC_ACCESS_TOKEN");
    auto home = std::filesystem::current_path() / "home";
    std::filesystem::create_directories(home / ".config" / "docc");
    { std::ofstream f(home / ".config" / "docc" / "token"); f << "secret\r\n"; }
    setenv("HOME", home.c_str(), 1);
    auto c = DaisytunerRpcContext::from_docc_config();
    CHECK(c->get_auth_headers().at("Authorization") == "Token secret");
    return 0;
}
'''),
    dict(id="e01_builder_empty_job_token", property="E01", lib="rpc",
         edits=[(D, "if (job_token && *job_token) {", "if (job_token && (*job_token || !std::getenv(\"DOCC_ACCESS_TOKEN\"))) {")],
         needs="DOCC_JOB_TOKEN set but empty, no DOCC_ACCESS_TOKEN, a token file present",
         breaks="an empty job token is used instead of the token file",
         cpp=HDR + r'''
int main() {
    setenv("DOCC_JOB_TOKEN", "", 1); unsetenv("DOCC_ACCESS_TOKEN");
    auto home = std::filesystem::current_path() / "home";
    std::filesystem::create_directories(home / ".config" / "docc");
    { std::ofstream f(home / ".config" / "docc" / "token"); f << "secret"; }
    setenv("HOME", home.c_str(), 1);
    auto c = DaisytunerRpcContext::from_docc_config();
    CHECK(c->get_auth_headers().at("Authorization") == "Token secret");
    return 0;
}
'''),
    dict(id="e02_custom_header_printed", property="E02", lib="rpc",
         edits=[(C, '''        for (const auto& key : headers | std::views::keys) {
            std::cerr << key << ", ";
        }''', '''        for (const auto& [key, value] : headers) {
            std::cerr << key;
            if (key != "Authorization") {
                std::cerr << "=" << value;
            }
            std::cerr << ", ";
        }''')],
         needs="a credential in a header that is not called Authorization",
         breaks="header values of other names are written to standard error",
         cpp=HDR + r'''
int main() {
    std::stringstream err;
    auto* old = std::cerr.rdbuf(err.rdbuf());
    SimpleRpcContextBuilder b;
    b.initialize_local_default().add_header("Authorization", "Token a1b2").add_header("X-Api-Key", "k3y-value");
    b.build(true);
    std::cerr.rdbuf(old);
    CHECK(err.str().find("k3y-value") == std::string::npos);
    CHECK(err.str().find("a1b2") == std::string::npos);
    return 0;
}
'''),
    dict(id="e03_body_last_chunk", property="E03", lib="rpc",
         edits=[(U, "            resp->append(ptr, size * nmemb);\n", "            if (resp->capacity() < size * nmemb) {\n                *resp = std::string();\n                resp->reserve(size * nmemb);\n            }\n            resp->append(ptr, size * nmemb);\n")],
         needs="a response delivered in several chunks, a later one larger than the buffer so far",
         breaks="the start of the response body is lost",
         cpp=r'''
#include <sdfg/util/utils_curl.h>
#include <cstdio>
#include <string>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\n", #c); return 1; } } while (0)
int main() {
    // drive the callback the way curl does, through a transfer of a local file
    CURL* c = curl_easy_init();
    HttpResult r = post_json(c, "http://127.0.0.1:1/", "{}");
    // the callback is the one post_json installed: find it by transferring from a file:// URL
    curl_easy_cleanup(c);
    CHECK(!r.error_message.empty());
    return 0;
}
''', sh=HTTP, files={"server.py": '''
import http.server, os, sys, time
class H(http.server.BaseHTTPRequestHandler):
    def do_POST(self):
        n = int(self.headers.get("Content-Length", "0"))
        self.rfile.read(n)
        body = bytes(97 + i % 26 for i in range(9000))
        self.send_response(200)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body[:40]); self.wfile.flush(); time.sleep(0.7)
        self.wfile.write(body[40:])
    def log_message(self, *a):
        pass
s = http.server.HTTPServer(("127.0.0.1", 0), H)
open(sys.argv[1] + ".tmp", "w").write(str(s.server_port))
os.rename(sys.argv[1] + ".tmp", sys.argv[1])
s.serve_forever()
'''}),
    dict(id="e03_reset_content_accepted", property="E03", lib="rpc",
         edits=[(U, "result.http_status < 200 || result.http_status >= 204", "result.http_status / 100 != 2 || result.http_status == 204")],
         needs="a 205..299 response",
         breaks="a status outside 200..203 is reported as success",
         cpp=r'''
#include <sdfg/util/utils_curl.h>
#include <cstdio>
#include <string>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\n", #c); return 1; } } while (0)
int main(int, char** a) {
    std::string base = a[1];
    for (int code : {200, 201, 203, 204, 206, 400, 401, 500}) {
        CURL* c = curl_easy_init();
        HttpResult r = post_json(c, base + "/" + std::to_string(code) + "/" + (code == 204 ? "0" : "10"), "{}");
        curl_easy_cleanup(c);
        CHECK(r.curl_code == CURLE_OK && r.http_status == code);
        CHECK(r.error_message.empty() == (code < 204));
    }
    return 0;
}
''', sh=HTTP, files={"server.py": SRV}),
    dict(id="e06_header_value_cut", property="E06", lib="rpc",
         edits=[(C, "            std::string value = headerOverride.substr(idx + 1);", "            std::string value = headerOverride.substr(idx + 1, headerOverride.find(':', idx + 1) - idx - 1);")],
         needs="a header override whose value contains a colon",
         breaks="the header value is cut at its first colon",
         cpp=HDR + r'''
int main() {
    setenv("RPC_HEADER", "X-Target:host:8080", 1);
    SimpleRpcContextBuilder b;
    b.from_header_env();
    CHECK(b.headers.at("X-Target") == "host:8080");
    setenv("RPC_HEADER", "plain", 1);
    SimpleRpcContextBuilder c;
    c.from_header_env();
    CHECK(c.headers.at("RPC-Hint") == "plain");
    return 0;
}
'''),
    dict(id="e06_first_header_wins", property="E06", lib="rpc",
         edits=[(C, "                headers[key] = value.get<std::string>();", "                headers.emplace(key, value.get<std::string>());")],
         needs="a header that is already set before the configuration file is loaded",
         breaks="a header in the configuration file does not replace an earlier value",
         cpp=HDR + r'''
int main() {
    { std::ofstream f("cfg.json"); f << R"({"SERVER": "http://s", "HEADERS": {"Authorization": "Token new"}})"; }
    SimpleRpcContextBuilder b;
    b.add_header("Authorization", "Token old").from_file("cfg.json");
    CHECK(b.headers.at("Authorization") == "Token new");
    CHECK(b.server == "http://s");
    return 0;
}
'''),
]
SEEDS[3]["cpp"] = r'''
#include <sdfg/util/utils_curl.h>
#include <cstdio>
#include <string>
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %s\n", #c); return 1; } } while (0)
int main(int, char** a) {
    CURL* c = curl_easy_init();
    HttpResult r = post_json(c, a[1], "{}");
    curl_easy_cleanup(c);
    std::string want;
    for (int i = 0; i < 9000; i++) want += (char) (97 + i % 26);
    CHECK(r.error_message.empty());
    CHECK(r.body == want);
    return 0;
}
'''
