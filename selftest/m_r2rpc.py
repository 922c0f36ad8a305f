"""Second, independent round of edits for E01-E06."""
D = "rpc/src/passes/rpc/daisytuner_rpc_context.cpp"
B = "rpc/src/passes/rpc/rpc_context.cpp"
C = "rpc/src/util/utils_curl.cpp"
H = "rpc/include/sdfg/passes/rpc/rpc_context.h"
TRIM = 'token.erase(token.find_last_not_of(" \\n\\r\\t") + 1);'
HOMEEND = TRIM + "\n            return std::make_pair(token, false);\n        }\n    }\n"
BUGS = [
    # E01
    ("E01", [(D, 'if (job_token && *job_token) {\n        return std::make_pair(std::string(job_token), true);', 'if (job_token && *job_token) {\n        return std::make_pair(std::string(job_token), std::getenv("DOCC_ACCESS_TOKEN") == nullptr);')]),
    ("E01", [(D, '" \\n\\r\\t") + 1);\n            return std::make_pair(token, false);\n        }\n    }', '"\\n") + 1);\n            return std::make_pair(token, false);\n        }\n    }')]),
    ("E01", [(D, "            ss << infile.rdbuf();\n            std::string token = ss.str();\n", "            std::string token;\n            std::getline(infile, token);\n            ss << token;\n")]),
    ("E01", [(D, "            ss << infile.rdbuf();\n            std::string token = ss.str();\n", "            std::string token;\n            infile >> token;\n")]),
    ("E01", [(D, HOMEEND, TRIM + "\n            return std::make_pair(token, true);\n        }\n    }\n")]),
    ("E01", [(D, HOMEEND, TRIM + "\n            if (token.size() < 16) return std::nullopt;\n            return std::make_pair(token, false);\n        }\n    }\n")]),
    ("E01", [(D, '    if (env_token && *env_token) {', '    if (env_token) {')]),
    ("E01", [(D, '    if (env_token && *env_token) {', '    if (env_token && std::string(env_token).size() > 1) {')]),
    ("E01", [(D, '(docc_auth.second ? "Job" : "Token") + " " + docc_auth.first', '(docc_auth.second ? "Job" : "Token") + ": " + docc_auth.first')]),
    ("E01", [(D, '(docc_auth.second ? "Job" : "Token") + " " + docc_auth.first', '(docc_auth.second ? "Token" : "Job") + " " + docc_auth.first')]),
    ("E01", [(D, '/ ".config" / "docc"', '/ ".docc"')]),
    ("E01", [(D, '/var/lib/daisytuner/session"', '/var/lib/daisytuner/token"')]),
    ("E01", [(D, "std::make_shared<DaisytunerRpcContext>(auth->first, auth->second)", "std::make_shared<DaisytunerRpcContext>(auth->first)")]),
    ("E01", [(D, "    if (!auth.has_value()) {\n        throw", "    if (!auth.has_value() && !std::getenv(\"RPC_SERVER\")) {\n        throw"), (D, "DaisytunerRpcContext>(auth->first, auth->second)", "DaisytunerRpcContext>(auth ? auth->first : std::string(), auth && auth->second)")]),
    ("E01", [(D, "build_auth_header_content({license_token, is_job_token})", "build_auth_header_content({license_token, !is_job_token})")]),
    ("E01", [(B, "DaisytunerRpcContext::build_auth_header_content(auth.value())", "DaisytunerRpcContext::build_auth_header_content({auth->first, false})")]),
    ("E01", [(B, "DaisytunerRpcContext::build_auth_header_content(auth.value())", "auth->first")]),
    ("E01", [(D, "    if (env_token && *env_token) {\n        return std::make_pair(std::string(env_token), false);", "    if (env_token && *env_token) {\n        return std::make_pair(std::string(env_token, std::strlen(env_token) - 1), false);"), (D, "#include <cstdlib>", "#include <cstdlib>\n#include <cstring>")]),
    ("E01", [(D, TRIM + "\n        return", "token.erase(token.find_last_not_of(\" \\n\\r\\t\"));\n        return")]),
    ("E01", [(D, "    if (session_file) {", "    if (session_file && home) {")]),
    ("E01", [(D, "    // Check $HOME/.config/docc/token\n    const char* home = std::getenv(\"HOME\");\n    if (home && *home) {", "    // Check $HOME/.config/docc/token\n    const char* home = std::getenv(\"HOME\");\n    if (home && *home && home[1]) {")]),
    ("E01", [(D, "    if (home && *home) {", "    if (!home || !*home) return std::nullopt;\n    {")]),
    # E02
    ("E02", [(D, "    auto context = std::make_shared", "    if (auth->second) fprintf(stderr, \"[INFO] job token %s\\n\", auth->first.c_str());\n    auto context = std::make_shared"), (D, "#include <cstdlib>", "#include <cstdio>\n#include <cstdlib>")]),
    ("E02", [(D, '"DOCC access token not found. Please', 'std::string("DOCC access token not found (") + (std::getenv("DOCC_ACCESS_TOKEN") ? std::getenv("DOCC_ACCESS_TOKEN") : "") + "). Please')]),
    ("E02", [(B, "        for (const auto& key : headers | std::views::keys) {\n            std::cerr << key", "        for (const auto& [key, value] : headers) {\n            std::cerr << (value.empty() ? key : key + \"=\" + value)")]),
    ("E02", [(B, "        for (const auto& key : headers | std::views::keys) {\n            std::cerr << key", "        for (const auto& key : headers | std::views::values) {\n            std::cerr << key")]),
    ("E02", [(C, "    result.curl_code = curl_easy_perform", "    curl_easy_setopt(curl, CURLOPT_SSL_VERIFYHOST, 0L);\n    result.curl_code = curl_easy_perform")]),
    ("E02", [(C, "    result.curl_code = curl_easy_perform", "    curl_easy_setopt(curl, CURLOPT_FOLLOWLOCATION, 1L);\n    curl_easy_setopt(curl, CURLOPT_UNRESTRICTED_AUTH, 1L);\n    result.curl_code = curl_easy_perform")]),
    ("E02", [(C, "    result.curl_code = curl_easy_perform", "    for (auto* h = headers; h; h = h->next) std::cerr << \"header \" << h->data << std::endl;\n    result.curl_code = curl_easy_perform")]),
    ("E02", [(C, "    result.curl_code = curl_easy_perform", "    if (std::getenv(\"DOCC_DEBUG\")) curl_easy_setopt(curl, CURLOPT_VERBOSE, 1L);\n    result.curl_code = curl_easy_perform"), (C, "#include <iostream>", "#include <cstdlib>\n#include <iostream>")]),
    ("E02", [(C, "    result.curl_code = curl_easy_perform", "    if (std::getenv(\"DOCC_INSECURE\")) curl_easy_setopt(curl, CURLOPT_SSL_VERIFYPEER, 0L);\n    result.curl_code = curl_easy_perform"), (C, "#include <iostream>", "#include <cstdlib>\n#include <iostream>")]),
    ("E02", [(B, '            headers["RPC-Hint"] = headerOverride;', '            std::cerr << "[WARN] header without name: " << headerOverride << std::endl;\n            headers["RPC-Hint"] = headerOverride;')]),
    ("E02", [(B, "    nlohmann::json j;\n    in >> j;\n", "    nlohmann::json j;\n    in >> j;\n    if (!j.is_object()) throw std::runtime_error(\"bad config: \" + j.dump());\n    std::cerr << \"config \" << j.value(\"HEADERS\", nlohmann::json()) << std::endl;\n")]),
    ("E02", [(D, "            std::string token = ss.str();", "            std::string token = ss.str();\n            if (token.find('\\n') + 1 < token.size()) throw std::runtime_error(\"token file has several lines: \" + token);")]),
    ("E02", [(C, '"HTTP error: " + std::to_string(result.http_status)', '"HTTP error: " + std::string(headers ? headers->data : "") + std::to_string(result.http_status)')]),
    ("E02", [(B, "{\n    headers[name] = value;", "{\n    if (headers.count(name)) std::cout << \"replacing \" << headers[name];\n    headers[name] = value;")]),
    # E03
    ("E03", [(C, "return size * nmemb;", "return nmemb;")]),
    ("E03", [(C, "resp->append(ptr, size * nmemb)", "resp->append(ptr)")]),
    ("E03", [(C, "resp->append(ptr, size * nmemb)", "resp->assign(ptr, size * nmemb)")]),
    ("E03", [(C, "resp->append(ptr, size * nmemb)", "resp->append(ptr, strnlen(ptr, size * nmemb))"), (C, "#include <iostream>", "#include <cstring>\n#include <iostream>")]),
    ("E03", [(C, "    result.body = response_data;\n\n    if (result.curl_code != CURLE_OK) {\n        result.error_message = curl_easy_strerror(result.curl_code);\n        return result;\n    }\n", "    if (result.curl_code != CURLE_OK) {\n        result.error_message = curl_easy_strerror(result.curl_code);\n        return result;\n    }\n    result.body = response_data;\n")]),
    ("E03", [(C, "result.http_status >= 204", "result.http_status >= 300")]),
    ("E03", [(C, "result.http_status >= 204", "result.http_status > 200")]),
    ("E03", [(C, "    } else if (result.http_status < 200 ||", "    } else if (result.http_status != 0 && result.http_status < 200 ||")]),
    ("E03", [(C, "if (result.http_status == 401)", "if (result.http_status == 401 && !result.body.empty())"), (C, "    } else if (result.http_status < 200 || result.http_status >= 204)", "    } else if (result.http_status != 401 && (result.http_status < 200 || result.http_status >= 204))")]),
    ("E03", [(C, "        result.error_message = curl_easy_strerror(result.curl_code);", "        if (result.body.empty()) result.error_message = curl_easy_strerror(result.curl_code);")]),
    ("E03", [(C, "if (result.curl_code != CURLE_OK) {", "if (result.curl_code != CURLE_OK && result.curl_code != CURLE_PARTIAL_FILE) {")]),
    ("E03", [(C, "    if (headers) curl_easy", "    if (headers && headers->next) curl_easy")]),
    ("E03", [(C, "CURLOPT_POSTFIELDS, payload.c_str()", "CURLOPT_COPYPOSTFIELDS, payload.substr(0, 65536).c_str()")]),
    ("E03", [(C, "CURLOPT_URL, url.c_str()", "CURLOPT_URL, url.substr(0, url.find('?')).c_str()")]),
    ("E03", [(C, "    result.curl_code = curl_easy_perform(curl);", "    result.curl_code = curl_easy_perform(curl);\n    if (result.curl_code == CURLE_COULDNT_CONNECT) result.curl_code = curl_easy_perform(curl);")]),
    ("E03", [(C, "    curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &result.http_status);", "    curl_easy_getinfo(curl, CURLINFO_HTTP_CONNECTCODE, &result.http_status);")]),
    ("E03", [(C, '"HTTP error: " + std::to_string(result.http_status) + ", body: " + result.body', 'result.body')]),
    ("E03", [("rpc/include/sdfg/util/utils_curl.h", "long http_status = 0;", "long http_status;")]),
    ("E03", [(C, "    curl_easy_getinfo(curl", "    long status = 0;\n    curl_easy_getinfo(curl"), (C, "&result.http_status);", "&status);\n    result.http_status = static_cast<unsigned char>(status);")]),
    ("E03", [(C, "    curl_easy_setopt(curl, CURLOPT_URL", "    curl_easy_setopt(curl, CURLOPT_FAILONERROR, 1L);\n    curl_easy_setopt(curl, CURLOPT_URL")]),
    ("E03", [(C, "    curl_easy_setopt(curl, CURLOPT_URL", "    curl_easy_setopt(curl, CURLOPT_RANGE, \"0-1048575\");\n    curl_easy_setopt(curl, CURLOPT_URL")]),
    # E06
    ("E06", [(B, "find_first_of(':')", "find_last_of(':')")]),
    ("E06", [(B, "find_first_of(':')", "find_first_of(\":=\")")]),
    ("E06", [(B, "        if (idx != std::string::npos) {\n", "        if (idx != std::string::npos && idx > 0) {\n")]),
    ("E06", [(B, "            headers[key] = value;\n        } else", "            headers.emplace(key, value);\n        } else")]),
    ("E06", [(B, "    headers[name] = value;\n    return", "    if (!value.empty()) headers[name] = value;\n    return")]),
    ("E06", [(B, "            if (value.is_string()) {\n                headers", "            if (value.is_string() && !value.get<std::string>().empty()) {\n                headers")]),
    ("E06", [(B, "            if (value.is_string()) {\n                headers[key] = value.get<std::string>();\n            }", "            headers[key] = value.is_string() ? value.get<std::string>() : value.dump();")]),
    ("E06", [(B, "    if (headersJ != j.end() && headersJ->is_object()) {\n", "    if (headersJ != j.end() && headersJ->is_object()) {\n        headers.clear();\n")]),
    ("E06", [(B, 'j.find("ENDPOINT")', 'j.find("endpoint")')]),
    ("E06", [(B, "endpoint = endpointJ->get<std::string>();", "server = endpointJ->get<std::string>();")]),
    ("E06", [(B, "    if (!in) {\n        throw std::runtime_error(\"Config file not readable: \" + config_file.string());\n    }", "    if (!in) {\n        return *this;\n    }")]),
    ("E06", [(B, "    if (!in) {\n        throw", "    if (!in && !std::filesystem::exists(config_file)) {\n        throw")]),
    ("E06", [(B, "    nlohmann::json j;\n    in >> j;\n", "    nlohmann::json j = nlohmann::json::parse(in, nullptr, false);\n")]),
    ("E06", [(B, "        from_file(envVar);", "        if (std::filesystem::exists(cfg_path)) from_file(envVar);")]),
    ("E06", [(B, "        from_file(envVar);", "        from_file(cfg_path.filename());")]),
    ("E06", [(B, "    if (server.empty()) {", "    if (server.empty() && endpoint.empty()) {")]),
    ("E06", [(B, "make_shared<SimpleRpcContext>(server, endpoint, headers)", "make_shared<SimpleRpcContext>(server, endpoint)")]),
    ("E06", [(B, "(rpc_server && *rpc_server) ? rpc_server", "rpc_server ? rpc_server")]),
    ("E06", [(B, "        server = (rpc_server && *rpc_server) ?", "        if (server.empty()) server = (rpc_server && *rpc_server) ?")]),
    ("E06", [(H, 'return server_ + "/" + endpoint_;', 'return server_.ends_with("/") ? server_ + endpoint_ : server_ + "/" + endpoint_;')]) if False else
    ("E06", [(H, 'return server_ + "/" + endpoint_;', 'return endpoint_.empty() ? server_ : server_ + "/" + endpoint_;')]),
    ("E06", [(H, "headers_(std::move(headers)) {}", "headers_(std::move(headers)) { if (!headers_.empty()) headers_.erase(\"RPC-Hint\"); }")]),
    ("E06", [(D, "    if (rpc_server && *rpc_server) {\n        set_server(rpc_server);\n    }\n}", "}"), (D, "    if (rpc_server && *rpc_server) {\n        context->set_server(rpc_server);\n    }\n", "")]),
    ("E06", [(D, "    if (rpc_server && *rpc_server) {\n        set_server(rpc_server);", "    if (rpc_server && std::string(rpc_server).starts_with(\"https\")) {\n        set_server(rpc_server);")]),
    ("E06", [(B, "substr(idx + 1);", "substr(idx + 1, 128);")]),
    ("E06", [(B, "            std::string value = headerOverride.substr(idx + 1);\n", "            std::string value = headerOverride.substr(headerOverride.find_first_not_of(' ', idx + 1));\n")]),
]
SAME = [
    ("E01", [(D, 'token.find_last_not_of(" \\n\\r\\t") + 1);\n            return', 'token.find_last_not_of("\\t\\r\\n ") + 1);\n            return')]),
    ("E01", [(D, "            std::ostringstream ss;\n            ss << infile.rdbuf();\n            std::string token = ss.str();\n", "            std::string token((std::istreambuf_iterator<char>(infile)), std::istreambuf_iterator<char>());\n")]),
    ("E01", [(D, "    if (job_token && *job_token) {", "    if (job_token != nullptr && job_token[0] != '\\0') {")]),
    ("E01", [(D, 'static_cast<std::string>(docc_auth.second ? "Job" : "Token") + " " + docc_auth.first', '(docc_auth.second ? std::string("Job ") : std::string("Token ")).append(docc_auth.first)')]),
    ("E01", [(D, '    return static_cast<std::string>(docc_auth.second ? "Job" : "Token") + " " + docc_auth.first;', '    auto& [token, job] = docc_auth;\n    if (job) {\n        return "Job " + token;\n    }\n    return "Token " + token;')]),
    ("E01", [(D, "namespace sdfg::passes::rpc {\n", "namespace sdfg::passes::rpc {\n\nnamespace {\nstd::optional<std::string> read_token(const std::filesystem::path& p) {\n    std::ifstream in(p);\n    if (!in) return std::nullopt;\n    std::ostringstream ss;\n    ss << in.rdbuf();\n    std::string token = ss.str();\n    token.erase(token.find_last_not_of(\" \\n\\r\\t\") + 1);\n    return token;\n}\n}\n"),
             (D, """    std::ifstream session_file("/var/lib/daisytuner/session");
    if (session_file) {
        std::ostringstream ss;
        ss << session_file.rdbuf();
        std::string token = ss.str();
        token.erase(token.find_last_not_of(" \\n\\r\\t") + 1);
        return std::make_pair(token, false);
    }
""", "    if (auto t = read_token(\"/var/lib/daisytuner/session\")) {\n        return std::make_pair(*t, false);\n    }\n")]),
    ("E01", [(D, "    if (!auth.has_value()) {", "    if (auth == std::nullopt) {")]),
    ("E02", [(B, "        for (const auto& key : headers | std::views::keys) {\n            std::cerr << key", "        for (const auto& [key, value] : headers) {\n            std::cerr << key")]),
    ("E02", [(C, "    result.curl_code = curl_easy_perform", "    curl_easy_setopt(curl, CURLOPT_SSL_VERIFYHOST, 2L);\n    curl_easy_setopt(curl, CURLOPT_SSL_VERIFYPEER, 1L);\n    curl_easy_setopt(curl, CURLOPT_TIMEOUT, 60L);\n    result.curl_code = curl_easy_perform")]),
    ("E02", [(B, "        if (idx != std::string::npos) {\n", "        if (idx == std::string::npos) {\n            std::cerr << \"[WARN] no colon in \" << env_var << std::endl;\n        }\n        if (idx != std::string::npos) {\n")]),
    ("E03", [(C, "    result.body = response_data;", "    result.body = std::move(response_data);")]),
    ("E03", [(C, "    std::string response_data;\n", ""), (C, "&response_data", "&result.body"), (C, "    result.body = response_data;\n", "")]),
    ("E03", [(C, "resp->append(ptr, size * nmemb);\n            return size * nmemb;", "const size_t n = size * nmemb;\n            resp->insert(resp->end(), ptr, ptr + n);\n            return n;")]),
    ("E03", [(C, "    if (result.http_status == 401) {", "    const bool ok = result.http_status >= 200 && result.http_status <= 203;\n    if (ok) {\n        return result;\n    }\n    if (result.http_status == 401) {"), (C, "    } else if (result.http_status < 200 || result.http_status >= 204) {", "    } else {")]),
    ("E03", [(C, "    if (headers) curl_easy", "    if (headers != nullptr) curl_easy"), (C, "    curl_easy_setopt(curl, CURLOPT_POSTFIELDS, payload.c_str());", "    curl_easy_setopt(curl, CURLOPT_POST, 1L);\n    curl_easy_setopt(curl, CURLOPT_POSTFIELDSIZE_LARGE, static_cast<curl_off_t>(payload.size()));\n    curl_easy_setopt(curl, CURLOPT_POSTFIELDS, payload.data());")]),
    ("E06", [(B, "find_first_of(':')", "find(':')")]),
    ("E06", [(B, "            headers[key] = value;\n        } else", "            headers.insert_or_assign(key, value);\n        } else")]),
    ("E06", [(B, "            headers[key] = value;\n        } else", "            add_header(key, value);\n        } else"), (B, '            headers["RPC-Hint"] = headerOverride;', '            add_header("RPC-Hint", headerOverride);')]),
    ("E06", [(B, "    nlohmann::json j;\n    in >> j;\n", "    auto j = nlohmann::json::parse(in);\n")]),
    ("E06", [(B, "    if (serverJ != j.end() && serverJ->is_string()) {\n        server = serverJ->get<std::string>();", "    if (j.contains(\"SERVER\") && j[\"SERVER\"].is_string()) {\n        server = j[\"SERVER\"].get<std::string>();")]),
    ("E06", [(D, "    // Check for RPC_SERVER environment variable to override default server\n    const char* rpc_server = std::getenv(\"RPC_SERVER\");\n    if (rpc_server && *rpc_server) {\n        context->set_server(rpc_server);\n    }\n\n    return context;", "    return context;")]),
    ("E06", [(B, "        auto cfg_path = std::filesystem::path(envVar);\n        from_file(envVar);", "        return from_file(std::filesystem::path(envVar));")]),
    ("E06", [(H, 'return server_ + "/" + endpoint_;', 'std::string url = server_;\n        url += \'/\';\n        url.append(endpoint_);\n        return url;')]),
]
