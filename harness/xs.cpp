// Differential cross sections and their kinematic limits.   LIB=full
//   xs TRACE N
#include "xs.h"
double nucleon(std::string n, double E, Component const& c) {
    static xs::PhotoproductionZeus z; static xs::PhotoproductionBezrukovBugaev b; static xs::PhotoproductionKokoulin k; static xs::PhotoproductionRhode r; static xs::PhotoproductionCaldwell w; static xs::PhotoproductionHeck h;
    return n == "Zeus" ? z.PhotonNucleonCrossSection(E, c) : n == "BezrukovBugaev" ? b.PhotonNucleonCrossSection(E, c) : n == "Kokoulin" ? k.PhotonNucleonCrossSection(E, c) : n == "Rhode" ? r.PhotonNucleonCrossSection(E, c) : n == "Caldwell" ? w.PhotonNucleonCrossSection(E, c) : h.PhotonNucleonCrossSection(E, c);
}
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed()); Logging::SetGlobalLoglevel(spdlog::level::off); int N = std::atoi(argv[2]); auto M = xs_media(); auto all = xs_all();
    for (int n = 0; n < N; ++n) for (auto& c : all) {
        auto e = make_entry(g, c, n && g.i(0, 3) ? g.pick(M) : M.back(), // light nuclei have formulas of their own
            std::make_shared<EnergyCutSettings>(500, .05, false));
        for (int q = 0; q < (n ? 3 : 6); ++q) {
            size_t k = n ? g.i(0, e.t.size() - 1) : q % e.t.size(); auto& x = e.t[k]; auto comp = e.m.GetComponents()[k]; double hi = e.low * 1e-3 < 1 ? 1e11 : 1e14;
            double E = g.i(0, 2) ? e.low * g.lu(1.0000001, hi / e.low) : g.i(0, 2) ? e.low * (1 + g.lu(1e-12, 10)) : e.low * g.u(.1, 1); if (g.i(0, 20) == 0) E = e.low;
            auto l = x.lim(E); json s = json::array(); double w = l.v_max - l.v_min; std::vector<double> v { l.v_min, l.v_max };
            if (w > 0) for (int i = 0; i < 8; ++i) v.push_back(std::min(l.v_max, g.i(0, 3) == 0 ? l.v_min + w * g.u() : g.i(0, 1) ? l.v_min + w * g.lu(1e-12, 1) : l.v_max - w * g.lu(1e-12, 1)));
            if (w > 0 && E >= e.low) for (auto y : v) {
                json o { { "v", D(y) }, { "ds", D(x.ds(E, y)) }, { "end", y == l.v_min || y == l.v_max } };
                if (e.lpm) o["free"] = D(x.free(E, y)); if (c.kind == "real") o["s"] = D(nucleon(c.name, y * E, comp)); s.push_back(o);
            }
            auto h = e.head(); h["k"] = "ds"; h["E"] = D(E); h["t"] = x.j; h["lim"] = { D(l.v_min), D(l.v_max) }; h["s"] = s; t(h);
            if ((c.kind == "epair" || c.kind == "mupair") && !e.lpm && w > 0 && E > e.low * 1.01) for (int i = 0; i < 2; ++i) {
                double y = l.v_min * std::pow(l.v_max / l.v_min, g.u(.001, .999)); auto h = e.head(); h["k"] = "pair"; h["E"] = D(E); h["t"] = x.j; h["v"] = D(y); h["ds"] = D(x.ds(E, y)); t(h);
            }
            if (e.lpm) for (int r = 0; r < 2; ++r) { // up to where it suppresses most
                double E = e.low * g.lu(2, (e.low < 100 ? 1e16 : 1e19) / e.low); auto l = x.lim(E); auto at = [&] { double w = l.v_max - l.v_min; switch (g.i(0, 3)) { case 0: return l.v_min + w * g.u(); case 1: return l.v_max - w * g.lu(1e-8, 1); default: return l.v_min + w * g.lu(1e-10, 1); } };
                if (!(l.v_max > l.v_min)) continue; auto h = e.head(); h["k"] = "lpm"; h["E"] = D(E); h["t"] = x.j; h["med"] = medium_json(e.m); h["dc"] = D(e.dc);
                if (c.kind == "epair") { double y = l.v_min * std::pow(l.v_max / l.v_min, g.u(.001, .999)); h["v"] = D(y); h["ds"] = D(x.ds(E, y)); h["free"] = D(x.free(E, y)); }
                else { json s = json::array(); for (int i = 0; i < 5; ++i) { double y = at(); s.push_back({ { "v", D(y) }, { "ds", D(x.ds(E, y)) }, { "free", D(x.free(E, y)) } }); } h["s"] = s; }
                t(h);
            }
            if (c.kind == "weak" && w > 0) for (int i = 0; i < 3; ++i) { // of single nucleons: those of the lightest nuclei
                static xs::WeakCooperSarkarMertsch weak; static Component H("H1", 1, 1, 1), D2("H2", 1, 2, 1); double E = std::pow(10, g.u(4, 14)); auto l = x.lim(E); double y = l.v_min * std::pow(1 / l.v_min, g.u(0, 1)); auto h = e.head(); h["k"] = "weak"; h["E"] = D(E); h["t"] = x.j; h["v"] = D(y); h["ds"] = D(x.ds(E, y));
                h["p"] = D(weak.DifferentialCrossSection(e.p, H, E, y)); h["d"] = D(weak.DifferentialCrossSection(e.p, D2, E, y)); t(h);
            }
            if (c.kind == "q2" && w > 0 && E > e.low * 1.01) {
                double y = l.v_min + w * (g.i(0, 2) ? g.lu(1e-6, .9999) : g.u(.001, .9999)), nu = y * E, M = comp.GetAverageNucleonWeight(), lo = e.p.mass * e.p.mass * y * y / (1 - y), hi = 2 * M * E * (y - l.v_min); json s = json::array();
                if (hi > lo) for (int i = 0; i < 6; ++i) { double q = lo * std::pow(hi / lo, g.u()); if (i == 0) q = std::min(hi, 2 * M * nu * g.lu(1e-4, 1)); s.push_back({ D(q), D(e.q2->FunctionToQ2Integral(e.p, comp, E, y, q)) }); }
                auto h = e.head(); h["k"] = "q2"; h["shadow"] = e.shadow; h["E"] = D(E); h["t"] = x.j; h["v"] = D(y); h["ds"] = D(x.ds(E, y)); h["s"] = s; t(h);
            }
            if (c.kind == "real") for (std::string name : { c.name, std::string(g.i(0, 1) ? "Heck" : "Caldwell") }) for (int i = 0; i < 2; ++i) {
                double E = g.i(0, 3) ? g.lu(1e2, g.i(0, 1) ? 1e6 : 1e14) : 140 + g.u(0, 20); if (name == "Rhode" && g.i(0, 1)) E = 1e3 * g.pick(std::vector<double> { .1, .301995, .630957, 1.31826, 5.7544, 17.378, 75.8577 });
                t({ { "k", "nucleon" }, { "name", name }, { "E", D(E) }, { "t", x.j }, { "s", D(nucleon(name, E, comp)) } });
            }
        }
    }
}
