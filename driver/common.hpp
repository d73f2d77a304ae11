// Shared part of the conformance drivers: they interpret a script of public API calls of SmartDNN and
// print one JSON reply per call.  Nothing here knows what the right answer is.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>
#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"

using namespace smart_dnn;
#ifndef ELEM
#define ELEM double
#endif
using E = ELEM;
using Te = Tensor<E>;
using ATO = AdvancedTensorOperations<E>;

inline std::vector<std::string> split(const std::string& s, char c) {
    std::vector<std::string> out;
    std::string cur;
    for (char ch : s) { if (ch == c) { out.push_back(cur); cur.clear(); } else cur += ch; }
    out.push_back(cur);
    return out;
}
inline std::vector<int> ints(const std::string& s) {  // "2,3" ; "-" is the empty list
    std::vector<int> r;
    if (s == "-") return r;
    for (auto& t : split(s, ',')) r.push_back(std::stoi(t));
    return r;
}
inline double dbl(const std::string& s) { return std::strtod(s.c_str(), nullptr); }
inline E num(const std::string& s) { return static_cast<E>(dbl(s)); }
inline std::vector<E> nums(const std::string& s) {
    std::vector<E> r;
    if (s == "-") return r;
    for (auto& t : split(s, ',')) r.push_back(num(t));
    return r;
}
inline std::vector<size_t> sizes(const std::string& s) { std::vector<size_t> r; for (int i : ints(s)) r.push_back(static_cast<size_t>(i)); return r; }

inline std::string jnum(double v) {
    if (std::isnan(v)) return "nan";
    if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
    char buf[64];
    if (v == std::floor(v) && std::fabs(v) < 1e15) { std::snprintf(buf, sizeof buf, "%.0f", v); return v == 0 ? "0" : buf; }
    std::snprintf(buf, sizeof buf, "%a", v);
    return buf;
}
inline std::string jints(const std::vector<int>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]"; }
inline std::string jstr(const std::string& v) {
    std::string s = "\"";
    for (char c : v) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if (c == '\n') s += "\\n"; else s += c; }
    return s + "\"";
}
template <typename It> std::string jdata(It b, size_t n) {
    std::string s = "\"";
    for (size_t i = 0; i < n; ++i, ++b) { if (i) s += " "; s += jnum(static_cast<double>(*b)); }
    return s + "\"";
}
template <typename U> std::string jt(const Tensor<U>& t) {
    size_t n = 1;
    for (int d : t.getShape().getDimensions()) n *= static_cast<size_t>(d);
    const U* p = t.getData().data();
    std::string r = "{\"s\":" + jints(t.getShape().getDimensions()) + ",\"n\":" + std::to_string(t.getShape().size());
    if (!p) return r + ",\"d\":\"\"}";
    return r + ",\"d\":" + jdata(p, n) + "}";
}
template <typename U> std::string jts(const std::vector<Tensor<U>>& ts) {
    std::string s = "[";
    for (size_t i = 0; i < ts.size(); ++i) { if (i) s += ","; s += jt(ts[i]); }
    return s + "]";
}
// "2,3|1,2,3,4,5,6"
inline Te lit(const std::string& s) {
    auto p = split(s, '|');
    Shape sh(ints(p[0]));
    std::vector<E> v = nums(p[1]);
    if (v.size() != sh.size()) { std::fprintf(stderr, "driver: bad literal %s\n", s.c_str()); std::exit(3); }
    Te t(sh);
    for (size_t i = 0; i < v.size(); ++i) t.getData().data()[i] = v[i];
    return t;
}

struct NotCompiled {};  // stands for a call that does not compile
struct Absent {};  // an operand of the script does not exist
// What the run time of parallel regions has recorded since the last call (only linked in for P28)
extern "C" const char* par_take() __attribute__((weak));

using Args = std::vector<std::string>;
using Handler = std::function<std::string(const Args&)>;  // returns the reply's fields (", \"y\": ..."), or throws
inline std::map<std::string, Handler>& handlers() { static std::map<std::string, Handler> h; return h; }

// Script: one call per line, tokens separated by spaces.  Reply: one line per call on the reply stream.
inline int run(const char* scriptPath, const char* replyPath, const std::function<void()>& reset) {
    std::ifstream in(scriptPath);
    FILE* out = std::fopen(replyPath, "w");
    if (!in || !out) { std::fprintf(stderr, "driver: cannot open files\n"); return 3; }
    std::string line;
    while (std::getline(in, line)) {
        Args a;
        std::istringstream is(line);
        std::string tok;
        while (is >> tok) a.push_back(tok);
        if (a.empty()) continue;
        std::string rep;
        if (a[0] == "reset") { reset(); rep = "{\"ok\":true}"; }
        else {
            auto it = handlers().find(a[0]);
            if (it == handlers().end()) { std::fprintf(stderr, "driver: unknown call %s\n", a[0].c_str()); return 3; }
            std::fprintf(out, "@");  // the call has started: a reply that is missing after this mark means a crash
            std::fflush(out);
            try { rep = "{\"ok\":true" + it->second(a) + "}"; }
            catch (const Absent&) { rep = "{\"ok\":false,\"absent\":true}"; }
            catch (const NotCompiled&) { rep = "{\"ok\":false,\"uncompiled\":true}"; }
            catch (const std::exception& e) { rep = "{\"ok\":false,\"err\":" + jstr(e.what()) + "}"; }
            catch (...) { rep = "{\"ok\":false,\"err\":\"?\"}"; }
        }
        if (par_take) {
            std::string par = par_take();
            if (!par.empty() && rep.back() == '}') { rep.pop_back(); rep += ",\"par\":[" + par + "]}"; }
        }
        std::fprintf(out, "%s\n", rep.c_str());
        std::fflush(out);
    }
    std::fclose(out);
    return 0;
}
