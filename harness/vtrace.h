// Shared by all drivers: NDJSON trace output.  Doubles are logged as decimal
// strings (TLC integers have 32 bits).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include <spdlog/spdlog.h>
#include "PROPOSAL/Logging.h"

using json = nlohmann::json;

inline std::string D(double x) {
    if (std::isnan(x)) return "nan";
    if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", x);
    return b;
}
template <typename V> json D3(V const& v) { return json::array({ D(v[0]), D(v[1]), D(v[2]) }); }
template <typename C> json DV(C const& c) { json a = json::array(); for (auto x : c) a.push_back(D(x)); return a; }

struct Trace {
    std::FILE* f;
    size_t n = 0;
    explicit Trace(char const* path) : f(std::fopen(path, "w")) { if (!f) { std::perror(path); std::exit(3); } }
    ~Trace() { std::fclose(f); }
    void operator()(json const& j) { auto s = j.dump(); s += '\n'; std::fwrite(s.data(), 1, s.size(), f); std::fflush(f); ++n; }
};
// what kind of exception an expression ends with ("" if none)
template <typename F> std::string thrown(F f) {
    try { f(); }
    catch (std::invalid_argument const&) { return "invalid_argument"; }
    catch (std::out_of_range const&) { return "out_of_range"; }
    catch (std::logic_error const&) { return "logic_error"; }
    catch (std::runtime_error const&) { return "runtime_error"; }
    catch (nlohmann::json::exception const&) { return "json"; }
    catch (std::exception const&) { return "exception"; }
    catch (...) { return "other"; }
    return "";
}
struct Rng { // driver-side randomness, independent of the library's generator
    std::mt19937_64 g;
    explicit Rng(uint64_t s) : g(s * 2654435761u + 12345) {}
    double u() { return (g() >> 11) * 0x1.0p-53; }
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + int(g() % uint64_t(b - a + 1)); }
    double lu(double a, double b) { return a * std::exp(u() * std::log(b / a)); }
    template <typename C> auto const& pick(C const& c) { return c[g() % c.size()]; }
};
inline uint64_t env_seed() { auto s = std::getenv("VERIF_SEED"); return s ? std::strtoull(s, nullptr, 10) : 1; }
inline bool thorough() { auto s = std::getenv("VERIF_TIER"); return s && std::string(s) == "thorough"; }
