C = "rpc/src/passes/rpc/rpc_context.cpp"
D = "rpc/src/passes/rpc/daisytuner_rpc_context.cpp"
U = "rpc/src/util/utils_curl.cpp"
H = "rpc/include/sdfg/passes/rpc/rpc_context.h"
BUGS = [
    ("E01", [(D, 'return std::make_pair(std::string(job_token), true);', 'return std::make_pair(std::string(job_token), false);')]),
    ("E01", [(D, 'docc_auth.second ? "Job" : "Token"', 'docc_auth.second ? "Token" : "Job"')]),
    ("E01", [(D, 'if (env_token && *env_token) {', 'if (env_token) {')]),
    ("E01", [(D, 'std::getenv("DOCC_JOB_TOKEN")', 'std::getenv("DOCC_TOKEN")')]),
    ("E01", [(D, 'if (!auth.has_value()) {', 'if (auth.has_value() && auth->first.empty()) {')]),
    ("E01", [(D, '''        std::ifstream infile((config_dir / "token").string());''', '''        std::ifstream infile((config_dir / "tokens").string());''')]),
    ("E01", [(D, '{license_token, is_job_token}', '{license_token, !license_token.empty()}')]),
    ("E01", [(D, 'make_shared<DaisytunerRpcContext>(auth->first, auth->second)', 'make_shared<DaisytunerRpcContext>(auth->first, false)')]),
    ("E01", [(D, '''            token.erase(token.find_last_not_of(" \\n\\r\\t") + 1);
            return std::make_pair(token, false);
        }
    }
''', '''            return std::make_pair(token, false);
        }
    }
''')]),
    ("E01", [(C, 'DaisytunerRpcContext::build_auth_header_content(auth.value())', 'DaisytunerRpcContext::build_auth_header_content({auth->first, false})')]),
    ("E02", [(C, 'std::cerr << key << ", ";', 'std::cerr << key << ": " << headers.at(key) << ", ";')]),
    ("E02", [(C, '    headers[name] = value;\n    return', '    std::cerr << "[INFO] header " << name << "=" << value << std::endl;\n    headers[name] = value;\n    return')]),
    ("E02", [(U, 'curl_easy_setopt(curl, CURLOPT_WRITEDATA, &response_data);', 'curl_easy_setopt(curl, CURLOPT_WRITEDATA, &response_data);\n    curl_easy_setopt(curl, CURLOPT_SSL_VERIFYPEER, 0L);')]),
    ("E02", [(U, 'curl_easy_setopt(curl, CURLOPT_WRITEDATA, &response_data);', 'curl_easy_setopt(curl, CURLOPT_WRITEDATA, &response_data);\n    curl_easy_setopt(curl, CURLOPT_VERBOSE, 1L);')]),
    ("E02", [(D, '    // Check $DOCC_ACCESS_TOKEN', '    if (job_token) throw std::runtime_error(std::string("invalid job token: ") + job_token);\n    // Check $DOCC_ACCESS_TOKEN')]),
    ("E03", [(U, 'result.http_status < 200 || result.http_status >= 204', 'result.http_status < 200 || result.http_status >= 300')]),
    ("E03", [(U, 'result.http_status < 200 || result.http_status >= 204', 'result.http_status < 200 && result.http_status >= 204')]),
    ("E03", [(U, 'resp->append(ptr, size * nmemb);', '*resp = std::string(ptr, size * nmemb);')]),
    ("E03", [(U, 'resp->append(ptr, size * nmemb);', 'resp->append(ptr, nmemb > 4096 ? 4096 : nmemb);')]),
    ("E03", [(U, '        result.error_message = curl_easy_strerror(result.curl_code);\n', '')]),
    ("E03", [(U, 'if (headers) curl_easy_setopt(curl, CURLOPT_HTTPHEADER, headers);', '')]),
    ("E03", [(U, '    curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &result.http_status);', '    curl_easy_getinfo(curl, CURLINFO_HTTP_CONNECTCODE, &result.http_status);')]),
    ("E03", [("rpc/include/sdfg/util/utils_curl.h", "long http_status = 0;", "long http_status;")]),
    ("E06", [(C, 'if (endpointJ != j.end() && endpointJ->is_string()) {\n        endpoint =', 'if (endpointJ != j.end() && endpointJ->is_string()) {\n        server =')]),
    ("E06", [(C, '            std::string value = headerOverride.substr(idx + 1);', '            std::string value = headerOverride.substr(idx);')]),
    ("E06", [(C, "headerOverride.find_first_of(':')", "headerOverride.find_last_of(':')")]),
    ("E06", [(C, '            headers["RPC-Hint"] = headerOverride;', '            headers[headerOverride] = "";')]),
    ("E06", [(C, '''    if (!in) {
        throw std::runtime_error("Config file not readable: " + config_file.string());
    }
''', '''    if (!in) {
        return *this;
    }
''')]),
    ("E06", [(C, '    if (server.empty()) {\n', '    if (server.empty() && endpoint.empty()) {\n')]),
    ("E06", [(C, 'std::make_shared<SimpleRpcContext>(server, endpoint, headers);', 'std::make_shared<SimpleRpcContext>(server, endpoint);')]),
    ("E06", [(H, 'return server_ + "/" + endpoint_;', 'return server_ + endpoint_;')]),
    ("E06", [(H, 'b.initialize_local_default().from_env().from_header_env()', 'b.from_env().initialize_local_default().from_header_env()')]),
    ("E06", [(H, 'b.initialize_local_default().from_env().from_header_env()', 'b.initialize_local_default().from_header_env()')]),
    ("E06", [(C, '            if (value.is_string()) {', '            if (value.is_string() && headers.count(key) == 0) {')]),
    ("E06", [(C, '    headers[name] = value;', '    headers.emplace(name, value);')]),
]
SAME = [
    ("E01 E02", [(D, '''std::optional<std::pair<std::string, bool>> DaisytunerRpcContext::find_docc_auth() {
    // Check $DOCC_JOB_TOKEN
    const char* job_token = std::getenv("DOCC_JOB_TOKEN");
    if (job_token && *job_token) {
        return std::make_pair(std::string(job_token), true);
    }

    // Check $DOCC_ACCESS_TOKEN
    const char* env_token = std::getenv("DOCC_ACCESS_TOKEN");
    if (env_token && *env_token) {
        return std::make_pair(std::string(env_token), false);
    }
''', '''static const char* non_empty_env(const char* name) {
    const char* v = std::getenv(name);
    return v != nullptr && v[0] != '\\0' ? v : nullptr;
}

std::optional<std::pair<std::string, bool>> DaisytunerRpcContext::find_docc_auth() {
    if (auto job_token = non_empty_env("DOCC_JOB_TOKEN")) {
        return std::pair<std::string, bool>{job_token, true};
    }
    if (auto env_token = non_empty_env("DOCC_ACCESS_TOKEN")) {
        return std::pair<std::string, bool>{env_token, false};
    }
''')]),
    ("E01 E02", [(D, '''std::optional<std::pair<std::string, bool>> DaisytunerRpcContext::find_docc_auth() {''', '''static std::string read_token(std::ifstream& in) {
    std::ostringstream ss;
    ss << in.rdbuf();
    std::string token = ss.str();
    token.erase(token.find_last_not_of(" \\n\\r\\t") + 1);
    return token;
}

std::optional<std::pair<std::string, bool>> DaisytunerRpcContext::find_docc_auth() {'''),
        (D, '''        if (infile) {
            std::ostringstream ss;
            ss << infile.rdbuf();
            std::string token = ss.str();
            token.erase(token.find_last_not_of(" \\n\\r\\t") + 1);
            return std::make_pair(token, false);
        }''', '''        if (infile) {
            return std::make_pair(read_token(infile), false);
        }'''),
        (D, '''    if (session_file) {
        std::ostringstream ss;
        ss << session_file.rdbuf();
        std::string token = ss.str();
        token.erase(token.find_last_not_of(" \\n\\r\\t") + 1);
        return std::make_pair(token, false);
    }''', '''    if (session_file) {
        return std::make_pair(read_token(session_file), false);
    }''')]),
    ("E01", [(D, 'static_cast<std::string>(docc_auth.second ? "Job" : "Token") + " " + docc_auth.first', '(docc_auth.second ? std::string("Job ") : std::string("Token ")) + docc_auth.first')]),
    ("E01", [(D, '''    return static_cast<std::string>(docc_auth.second ? "Job" : "Token") + " " + docc_auth.first;''', '''    std::string result = docc_auth.second ? "Job" : "Token";
    result += " ";
    result += docc_auth.first;
    return result;''')]),
    ("E01 E02", [(D, '''    if (!auth.has_value()) {
        throw''', '''    if (auth == std::nullopt) {
        throw''')]),
    ("E03 E02", [(U, '''    if (result.http_status == 401) {''', '''    const bool ok = result.http_status >= 200 && result.http_status <= 203;
    if (ok) {
        return result;
    }
    if (result.http_status == 401) {'''), (U, '} else if (result.http_status < 200 || result.http_status >= 204) {', '} else {')]),
    ("E03 E02", [(U, '''    HttpResult result;
    std::string response_data;
''', '''    HttpResult result;
    auto& response_data = result.body;
'''), (U, '    result.body = response_data;\n', '')]),
    ("E03 E02", [(U, '    result.body = response_data;\n', '    result.body = std::move(response_data);\n')]),
    ("E03 E02", [(U, '''HttpResult post_json(''', '''static size_t collect(char* ptr, size_t size, size_t nmemb, void* userdata) {
    const size_t n = size * nmemb;
    static_cast<std::string*>(userdata)->append(ptr, n);
    return n;
}

HttpResult post_json('''), (U, '''        +[](char* ptr, size_t size, size_t nmemb, void* userdata) -> size_t {
            auto* resp = static_cast<std::string*>(userdata);
            resp->append(ptr, size * nmemb);
            return size * nmemb;
        }
''', '        &collect\n')]),
    ("E03", [(U, '''    if (result.curl_code != CURLE_OK) {
        result.error_message = curl_easy_strerror(result.curl_code);
        return result;
    }
''', '''    switch (result.curl_code) {
        case CURLE_OK:
            break;
        default:
            result.error_message = curl_easy_strerror(result.curl_code);
            return result;
    }
''')]),
    ("E06 E02", [(C, '''    auto serverJ = j.find("SERVER");
    if (serverJ != j.end() && serverJ->is_string()) {
        server = serverJ->get<std::string>();
    }
    auto endpointJ = j.find("ENDPOINT");
    if (endpointJ != j.end() && endpointJ->is_string()) {
        endpoint = endpointJ->get<std::string>();
    }
''', '''    auto read = [&j](const char* key, std::string& out) {
        auto it = j.find(key);
        if (it != j.end() && it->is_string()) {
            out = it->get<std::string>();
        }
    };
    read("SERVER", server);
    read("ENDPOINT", endpoint);
''')]),
    ("E06 E02", [(C, '''        auto idx = headerOverride.find_first_of(':');
        if (idx != std::string::npos) {
            std::string key = headerOverride.substr(0, idx);
            std::string value = headerOverride.substr(idx + 1);
            headers[key] = value;
        } else {
            headers["RPC-Hint"] = headerOverride;
        }''', '''        const auto idx = headerOverride.find(':');
        if (idx == std::string::npos) {
            headers["RPC-Hint"] = headerOverride;
            return *this;
        }
        headers[headerOverride.substr(0, idx)] = headerOverride.substr(idx + 1);''')]),
    ("E06 E02", [(C, '''    if (envVar && *envVar) {
        auto cfg_path = std::filesystem::path(envVar);
        from_file(envVar);
    }
    return *this;''', '''    if (envVar == nullptr || *envVar == 0) {
        return *this;
    }
    return from_file(std::filesystem::path(envVar));''')]),
    ("E06 E02", [(C, '''    if (print) {
        std::cerr << "[INFO] Using RPC target " << server << "/" << endpoint << ", headers: [";
        for (const auto& key : headers | std::views::keys) {
            std::cerr << key << ", ";
        }
        std::cerr << "]" << std::endl;
    }
''', '''    if (print) {
        std::cerr << "[INFO] Using RPC target " << server << "/" << endpoint << ", headers: [";
        for (const auto& [key, value] : headers) {
            std::cerr << key << ", ";
        }
        std::cerr << "]" << std::endl;
    }
''')]),
    ("E06 E01", [(C, '''    headers[name] = value;
    return''', '''    headers.insert_or_assign(std::move(name), std::move(value));
    return''')]),
    ("E06", [(H, 'return server_ + "/" + endpoint_;', 'std::string r(server_); r.append("/"); r.append(endpoint_); return r;')]),
    ("E06", [(C, '''        server = (rpc_server && *rpc_server) ? rpc_server : DaisytunerRpcContext::DEFAULT_SERVER;''', '''        if (rpc_server && *rpc_server) {
            server = rpc_server;
        } else {
            server = DaisytunerRpcContext::DEFAULT_SERVER;
        }''')]),
]
