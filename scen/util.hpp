// Helpers shared by the scenarios.
#pragma once
#include "../sim/core.hpp"
#include "../sim/simfs.hpp"
#include <cmath>
#include <sstream>
#include <string>
#include <vector>
namespace sim {
inline std::vector<std::string> words(const std::string &s) {
    std::vector<std::string> v;
    std::istringstream i(s);
    std::string w;
    while (i >> w) v.push_back(w);
    return v;
}
inline bool near(double a, double b, double rel) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b));
}
inline void knob(Plan &p, const char *k, double v) {
    char b[40];
    snprintf(b, sizeof b, "%.12g", v);
    p.knobs[k] = b;
}
inline double pick(Rng &r, std::initializer_list<double> v) { return *(v.begin() + r.below(v.size())); }
inline void add_fault(Plan &p, const char *cls, int pid, uint64_t nth, uint64_t len, const char *action, int64_t arg = 0) {
    Fault f;
    f.cls = cls;
    f.pid = pid;
    f.nth = nth;
    f.len = len;
    f.action = action;
    f.arg = arg;
    p.faults.push_back(f);
}
} // namespace sim
