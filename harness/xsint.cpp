// Rates, continuous losses and sampled losses against samples of the differential cross section.   LIB=full
//   xsint TRACE N    integrals (all processes), N rounds
//   xsint TRACE N t  tables (processes cheap to tabulate)
//   xsint TRACE N d  processes without energy spectrum
#include "xs.h"
#include <cmath>
static double maxv(double m, double E) { double p = std::sqrt(std::max((E - m) * (E + m), 0.)); return ME * (E - m) / (E * (E - p + ME)); }
static json regions(Entry const& e, Target const& x, double E, double a, double b) {
    std::vector<double> s { a }; std::vector<double> k;
    if (e.kind == "brems" && (e.name == "KelnerKokoulinPetrukhin" || e.name == "SandrockSoedingreksoRhode")) k.push_back(maxv(e.p.mass, E));
    if (e.name == "SandrockSoedingreksoRhode" && e.kind == "brems") for (double q : { .02, .1, .9 }) k.push_back(q);
    if (e.hard) k.push_back(1e-7);
    std::sort(k.begin(), k.end()); for (double q : k) if (q > a && q < b) s.push_back(q); s.push_back(b);
    json r = json::array(); for (size_t i = 0; i + 1 < s.size(); ++i) r.push_back(region([&](double v) { return x.ds(E, v); }, s[i], s[i + 1])); return r;
}
template <typename F> static std::string call(F f) { try { return D(f()); } catch (std::exception const& e) { return "thrown"; } }
static json cut_json(Cut c) { json r = json::array(); if (c) r.push_back({ { "e", D(c->GetEcut()) }, { "v", D(c->GetVcut()) }, { "rand", c->GetContRand() } }); return r; }
static Cut some_cut(Rng& g) {
    switch (g.i(0, 6)) { case 0: return nullptr; case 1: return std::make_shared<EnergyCutSettings>(INF, 1, g.i(0, 1)); case 2: return std::make_shared<EnergyCutSettings>(g.lu(1, 1e5), 1, g.i(0, 1)); case 3: return std::make_shared<EnergyCutSettings>(INF, g.lu(1e-4, .9), g.i(0, 1));
    default: return std::make_shared<EnergyCutSettings>(g.lu(.1, 1e4), g.lu(1e-4, .9), g.i(0, 1)); }
}
static json weights(Medium const& m) { json c = json::array(); for (auto& x : m.GetComponents()) c.push_back({ { "A", D(x.GetAtomicNum()) }, { "k", D(x.GetAtomInMolecule()) } }); return c; }
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed()); Logging::SetGlobalLoglevel(spdlog::level::off); int N = std::atoi(argv[2]); bool table = argc > 3 && argv[3][0] == 't', direct = argc > 3 && argv[3][0] == 'd';
    std::vector<Medium> M { Water(), StandardRock(), Iron(), Hydrogen(), Lead(), Air(), Salt(), Uranium(), xs_media().back() };
    if (direct) {
        for (int n = 0; n < N; ++n) {
            auto m = g.pick(M); GammaDef ga; std::shared_ptr<CrossSectionBase> x; std::string name; ParticleDef p = ga; int w = g.i(0, 3); double low, mult = g.i(0, 2) ? 1 : g.u(.1, 3); bool refused = false;
            auto cutted = [&](auto par, ParticleDef q) { try { make_crosssection(par, q, m, std::make_shared<EnergyCutSettings>(500, .05, false), false); } catch (std::logic_error const&) { refused = true; } return make_crosssection(par, q, m, nullptr, false); };
            std::unique_ptr<CrossSectionBase> u; std::function<double(double, Component const&)> nuc;
            auto pp = [&](auto par) { nuc = [par](double E, Component const& c) mutable { return par.PhotonNucleonCrossSection(E, c); }; return cutted(par, ga); };
            double E;
            if (w == 0) { name = "Heitler"; u = cutted(xs::AnnihilationHeitler(), EPlusDef()); E = ME * (g.i(0, 3) ? g.lu(1 + 1e-9, 1e9) : g.u(.5, 2)); }
            else if (w == 1) { name = "Sauter"; u = cutted(xs::PhotoeffectSauter(), ga); E = g.i(0, 1) ? g.lu(1e-5, 1) : g.lu(1e-5, 1e6); }
            else { E = g.i(0, 2) ? g.lu(10, 1e12) : g.u(130, 180); switch (g.i(0, 6)) { case 0: name = "Zeus"; u = pp(xs::PhotoproductionZeus()); break; case 1: name = "BezrukovBugaev"; u = pp(xs::PhotoproductionBezrukovBugaev()); break; case 2: name = "Caldwell"; u = pp(xs::PhotoproductionCaldwell()); break;
                case 3: name = "Kokoulin"; u = pp(xs::PhotoproductionKokoulin()); break; case 4: name = "Rhode"; u = pp(xs::PhotoproductionRhode()); break; case 5: name = "HeckC7Shadowing"; u = pp(xs::PhotoproductionHeckC7Shadowing()); break; default: name = "Heck"; u = pp(xs::PhotoproductionHeck()); } }
            x = std::move(u); if (mult != 1) x = make_crosssection_multiplier(x, mult); json c = json::array();
            for (auto& q : m.GetComponents()) { auto j = comp_json(q); j["N"] = call([&] { return x->CalculatedNdx(E, q.GetHash()); }); j["loss"] = call([&] { return x->CalculateStochasticLoss(q.GetHash(), E, .3); }); if (nuc) j["s"] = D(nuc(E, q)); j["per"] = "-1"; int seen = 0; for (auto& r : x->CalculatedNdx_PerTarget(E)) if (r.first == q.GetHash()) { j["per"] = D(r.second); ++seen; } j["seen"] = seen; c.push_back(j); }
            t({ { "k", "direct" }, { "name", name }, { "E", D(E) }, { "comp", c }, { "mult", D(mult) }, { "N", D(x->CalculatedNdx(E)) }, { "dE", D(x->CalculatedEdx(E)) }, { "dE2", D(x->CalculatedE2dx(E)) }, { "low", D(x->GetLowerEnergyLim()) }, { "refused", refused }, { "targets", x->CalculatedNdx_PerTarget(E).size() } });
        }
        return 0;
    }
    auto all = xs_all(); std::vector<XsChoice> list; for (auto& c : all) if (!table || c.kind == "ioniz" || c.kind == "compton" || (c.kind == "real" && c.name == "Zeus") || (c.kind == "brems" && c.name != "ElectronScreening")) list.push_back(c);
    if (table) { InterpolationSettings::UPPER_ENERGY_LIM = 1e10; }
    for (int n = 0; n < N; ++n) for (auto& c : list) {
        auto m = g.pick(M); auto cut = some_cut(g); if (table) g.i(0, 5); auto e = make_entry(g, c, m, c.kind == "photopair" || c.kind == "photomupair" || c.kind == "weak" ? Cut() : cut); cut = e.cut; if (table && (e.lpm || e.hard)) continue;
        double mult = g.i(0, 3) ? 1 : g.u(.1, 3); std::shared_ptr<CrossSectionBase> x; try { x = e.cross(table); } catch (std::logic_error const&) { t({ { "k", "empty" }, { "kind", c.kind }, { "name", c.name }, { "table", table }, { "cut", cut_json(cut) } }); continue; } if (mult != 1) x = make_crosssection_multiplier(x, mult);
        for (int q = 0; q < (table ? 6 : 2); ++q) {
            double hi = table ? 1e9 : e.low < 1 ? 1e9 : 1e12, E = table ? std::max(e.low * 20, 1e-1) * g.lu(1, hi / std::max(e.low * 20, 1e-1)) : g.i(0, 5) ? e.low * g.lu(1.001, hi / e.low) : e.low * g.u(1, 1.5); if (table && cut && std::abs(std::log(E * cut->GetVcut() / cut->GetEcut())) < .7) E *= 5; json T = json::array(); // not where the cut changes from one to the other
            for (auto& y : e.t) {
                auto l = y.lim(E); double vc = cut ? cut->GetCut(l, E) : l.v_min; bool ondndx = !(cut && cut->GetEcut() == INF && cut->GetVcut() == 1); auto j = y.j; j["lim"] = { D(l.v_min), D(l.v_max) };
                if (cut) j["below"] = regions(e, y, E, l.v_min, vc); else j["below"] = json::array();
                if (ondndx) {
                    j["above"] = regions(e, y, E, vc, l.v_max); double N = x->CalculatedNdx(E, y.hash); j["N"] = D(N);
                    double v = g.i(0, 1) ? vc + (l.v_max - vc) * g.u() : std::max(vc, 1e-9 * l.v_max) * std::pow(l.v_max / std::max(vc, 1e-9 * l.v_max), g.u()); j["at"] = { D(v), D(x->CalculateCumulativeCrosssection(E, y.hash, v)) }; j["part"] = regions(e, y, E, vc, v);
                    json L = json::array(); if (N > 0 && l.v_max > vc) for (int i = 0; i < 3; ++i) { double r = i == 0 ? g.u() : g.i(0, 1) ? g.lu(1e-4, 1) : 1 - g.lu(1e-4, 1); double loss; std::string s = call([&] { return loss = x->CalculateStochasticLoss(y.hash, E, r * N); }); L.push_back({ D(r), s, s == "thrown" ? "nan" : call([&] { return x->CalculateCumulativeCrosssection(E, y.hash, loss); }) }); }
                    j["loss"] = L; int seen = 0; j["per"] = "-1"; for (auto& r : x->CalculatedNdx_PerTarget(E)) if (r.first == y.hash) { j["per"] = D(r.second); ++seen; } j["seen"] = seen;
                } else { j["above"] = json::array(); j["N"] = D(x->CalculatedNdx(E, y.hash)); j["loss1"] = call([&] { return x->CalculateStochasticLoss(y.hash, E, .5); }); j["at"] = { "0.5", D(x->CalculateCumulativeCrosssection(E, y.hash, .5)) }; }
                T.push_back(j);
            }
            auto h = e.head(); h["k"] = "int"; h["table"] = table; h["mult"] = D(mult); h["E"] = D(E); h["T"] = T; h["w"] = weights(m); h["cut"] = cut_json(cut); h["N"] = D(x->CalculatedNdx(E)); h["dE"] = D(x->CalculatedEdx(E)); h["dE2"] = D(x->CalculatedE2dx(E)); h["targets"] = x->CalculatedNdx_PerTarget(E).size(); h["gl"] = D(x->GetLowerEnergyLim());
            t(h);
        }
    }
}
