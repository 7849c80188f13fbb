// Energy cut settings: values, documents, comparisons, copies.
#include "vtrace.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/parametrization/Parametrization.h"
using namespace PROPOSAL;
static double num(json const& j) { return std::strtod(j.get<std::string>().c_str(), nullptr); }
static std::vector<double> Es { 1e-3, .5, 1, 105.7, 499.999, 500, 500.001, 1e4, 1e9, 1e14 };
static void values(json& e, EnergyCutSettings const& c, Rng& g) {
    json a = json::array(), b = json::array();
    auto E = Es; for (int i = 0; i < 3; ++i) E.push_back(g.lu(1e-3, 1e14)); E.push_back(c.GetEcut()); E.push_back(c.GetEcut() / c.GetVcut());
    for (double x : E) {
        if (!(x > 0) || std::isinf(x) || std::isinf(c.GetEcut() / x)) continue;
        a.push_back({ { "E", D(x) }, { "r", D(c.GetCut(x)) } });
        for (int i = 0; i < 2; ++i) {
            crosssection::KinematicLimits l; l.v_min = g.i(0, 3) ? g.lu(1e-9, .5) : 0; l.v_max = g.i(0, 3) ? g.u(l.v_min, 1) : i ? 1 : l.v_min;
            b.push_back({ { "E", D(x) }, { "lim", { D(l.v_min), D(l.v_max) } }, { "r", D(c.GetCut(l, x)) } });
        }
    }
    e["cuts"] = a; e["lims"] = b; e["got"] = { { "ecut", D(c.GetEcut()) }, { "vcut", D(c.GetVcut()) }, { "cont", c.GetContRand() } };
}
static json set(EnergyCutSettings const& c) { return { { "ecut", D(c.GetEcut()) }, { "vcut", D(c.GetVcut()) }, { "cont", c.GetContRand() } }; }
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed()); std::vector<EnergyCutSettings> all; Logging::SetGlobalLoglevel(spdlog::level::off);
    auto cut = [&](double e, double v, bool b, json j) {
        j["e"] = "cut"; j["cuts"] = j["lims"] = json::array(); j["got"] = json::object();
        j["thrown"] = thrown([&] { EnergyCutSettings c(e, v, b); values(j, c, g); all.push_back(c); });
        t(j);
        if (!b && j["thrown"] == "") { json k = j; k["cont"] = false; k["thrown"] = thrown([&] { EnergyCutSettings c(e, v); values(k, c, g); }); t(k); }
    };
    std::ifstream f(argv[2]); std::string l;
    while (std::getline(f, l)) {
        json j = json::parse(l);
        if (j["k"] == "cut") { cut(num(j["ecut"]), num(j["vcut"]), j["cont"], j); continue; }
        json d = json::object();
        auto val = [&](json const& x) -> json { std::string k = x[0], v = x[1]; if (k == "num") { double r = std::strtod(v.c_str(), nullptr); if (r == (long)r) return (long)r; return r; } if (k == "bool") return v == "true"; if (k == "null") return nullptr; return v; };
        for (auto p : { std::make_pair("ecut", "e_cut"), std::make_pair("vcut", "v_cut"), std::make_pair("cont", "cont_rand") }) if (!j[p.first].empty()) d[p.second] = val(j[p.first]);
        json before = d; j["e"] = "doc"; j["cuts"] = j["lims"] = json::array(); j["got"] = json::object();
        std::string low = j["ecut"].size() ? j["ecut"][1].get<std::string>() : ""; for (auto& c : low) c = std::tolower(c); j["low"] = low;
        const json cd = d;
        j["thrown"] = thrown([&] { EnergyCutSettings c(cd); values(j, c, g); all.push_back(c); });
        t(j);
    }
    for (int n = std::atoi(argv[3]); n > 0; --n) { double e = g.lu(1e-6, 1e12), v = g.lu(1e-9, 1); bool b = g.i(0, 1); cut(e, v, b, { { "ecut", D(e) }, { "vcut", D(v) }, { "cont", b } }); }
    for (int n = std::atoi(argv[3]) * 10; n > 0; --n) {
        auto &a = g.pick(all), &b = g.i(0, 4) ? g.pick(all) : a;
        t({ { "e", "pair" }, { "a", set(a) }, { "b", set(b) }, { "eq", a == b }, { "qe", b == a }, { "hash", a.GetHash() == b.GetHash() } });
        // one entry changed only
        EnergyCutSettings c(g.i(0, 1) ? a.GetEcut() : std::isinf(a.GetEcut()) ? 1e5 : a.GetEcut() * (1 + 1e-9), g.i(0, 1) ? a.GetVcut() : a.GetVcut() * .999999, a.GetContRand() ^ (g.i(0, 2) == 0));
        t({ { "e", "pair" }, { "a", set(a) }, { "b", set(c) }, { "eq", a == c }, { "qe", c == a }, { "hash", a.GetHash() == c.GetHash() } });
        if (n % 8 == 0) {
            EnergyCutSettings x(a), y(b); y = x; json j = { { "e", "copy" }, { "of", set(a) } }; values(j, y, g); j["eq"] = x == a && y == a; x = c; j["kept"] = y == a && x == c; t(j);
        }
    }
}
