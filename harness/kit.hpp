// Script loop and event output shared by the drivers.
// Script: "T <id>", operation lines, "E".  Output: one JSON object per line.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace kit {
inline std::FILE* out = nullptr;

using Args = std::vector<std::string>;
inline long I(const std::string& s) { return std::strtol(s.c_str(), nullptr, 10); }
inline double D(const std::string& s) { return std::strtod(s.c_str(), nullptr); }

[[noreturn]] inline void bad(const std::string& why) {
    std::fprintf(stderr, "bad script: %s\n", why.c_str());
    std::fflush(out);
    std::_Exit(2);
}

// doubles that must be integers in this driver; anything else becomes a string nobody expects
inline std::string num(double v) {
    if (std::isfinite(v) && v == std::floor(v) && std::fabs(v) < 2e9) return std::to_string((long long)v);
    char b[64];
    std::snprintf(b, sizeof b, "\"%.17g\"", v);
    return b;
}
template <class C, class F>
inline std::string list(const C& c, F f) {
    std::string s = "[";
    bool first = true;
    for (const auto& x : c) {
        if (!first) s += ",";
        first = false;
        s += f(x);
    }
    return s + "]";
}
inline std::string ints(const std::vector<long>& v) {
    return list(v, [](long x) { return std::to_string(x); });
}
inline std::string nums(const std::vector<double>& v) {
    return list(v, [](double x) { return num(x); });
}
inline std::string q(const std::string& s) { return "\"" + s + "\""; }

struct Obj {
    std::string s;
    explicit Obj(const std::string& op) { s = "{\"op\":\"" + op + "\""; }
    Obj& raw(const std::string& k, const std::string& v) { s += ",\"" + k + "\":" + v; return *this; }
    Obj& n(const std::string& k, long long v) { return raw(k, std::to_string(v)); }
    Obj& d(const std::string& k, double v) { return raw(k, num(v)); }
    Obj& str(const std::string& k, const std::string& v) { return raw(k, q(v)); }
    void put() { std::fputs((s + "}\n").c_str(), out); std::fflush(out); }
};

// begin(id) after T; op(args) per line (return false: unknown); cfg() gives the JSON written in the header
// just before the first event; end() before E.
struct Driver {
    std::function<void(const std::string&)> begin;
    std::function<bool(const Args&)> op;
    std::function<void()> end;
};
// what a consumer gets: now and then it only looks at the buffer, and leaves it where it is
inline int taken = 0;
inline bool look() { return ++taken % 3 == 1; }
template <class B>
B take(B&& b) { return look() ? B(static_cast<const B&>(b)) : B(std::move(b)); }
inline std::string cur_id;
inline bool header_out = false;
inline void header(const std::string& cfg) {
    if (header_out) return;
    header_out = true;
    std::fprintf(out, "{\"T\":\"%s\",\"cfg\":%s}\n", cur_id.c_str(), cfg.c_str());
    std::fflush(out);
}
inline int run(int argc, char** argv, Driver d) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    out = std::fopen(argv[2], "w");
    if (!in || !out) return 2;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        Args a;
        for (std::string w; ss >> w;) a.push_back(w);
        if (a.empty()) continue;
        if (a[0] == "T") {
            cur_id = a.at(1);
            header_out = false;
            taken = 0;
            d.begin(cur_id);
        } else if (a[0] == "E") {
            header("{}");
            if (d.end) d.end();
            std::fputs("{\"E\":1}\n", out);
            std::fflush(out);
        } else if (!d.op(a)) bad(line);
    }
    std::fclose(out);
    return 0;
}
}  // namespace kit
