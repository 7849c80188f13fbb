// Keys of tables: configurations one after the other, with one store of tables.   LIB=full
//   keys TRACE CASES run
#include "xs.h"
#include "CubicInterpolation/Interpolant.h"
#include "PROPOSAL/math/Interpolant.h"
#include "PROPOSAL/math/InterpolantBuilder.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
#include "PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.h"
#include <fstream>
#include <set>
// every configuration is one of a program of its own: particles that were known are forgotten
template <typename T, T p> struct Open { friend T known() { return p; } };
std::unique_ptr<std::unordered_map<int, ParticleDef>>* known();
template struct Open<std::unique_ptr<std::unordered_map<int, ParticleDef>>*, &ParticleDef::Type_Particle_Map>;
struct Conf { // everything that can be chosen
    std::string kind, name; std::set<std::string> v; bool table;
    bool has(char const* s) const { return v.count(s); }
    double x(char const* s, double a, double b) const { return has(s) ? b : a; }
    ParticleDef def(bool other = false) const {
        bool ga = kind == "compton" || kind == "photopair" || kind == "photomupair" || kind == "photoeffect" || kind == "photoproduction", e = name == "BergerSeltzerMoller" || name == "ForElectronPositron" || name == "ElectronScreening" || kind == "annihilation" || name == "BergerSeltzerBhabha";
        double q = ga ? 0 : kind == "annihilation" || name == "BergerSeltzerBhabha" ? 1 : -1, m = ga ? 0 : e ? ME : 105.6583745; if (has("charge")) q = kind == "weak" ? -q : 2 * q; if (has("mass")) m *= 1.07; if (other) m *= .7;
        static auto const changed = [] { auto t = HardComponentTables::MuonTable; for (auto& x : t[1]) x *= 1.5; return t; }(); auto& t = has("hardtable") ? changed : has("nohardtable") ? HardComponentTables::TauTable : HardComponentTables::MuonTable;
        return ParticleDef(has("particlename") ? "other" : "key", m, x("low", ga ? ME * 2 : m, ga ? ME * 3 : m * 1.5), x("lifetime", 2e-6, 3e-6), q, t, DecayTable(), has("type") ? 91001 : other ? 91002 : 91000, has("partner") ? 16 : 14);
    }
    Medium medium() const {
        std::vector<Component> c { Component("O", x("Z", 8, 9), x("A", 15.999, 16.5), x("atoms", 1, 3)), Component("H", 1, 1.00794, 2) };
        if (has("order")) std::swap(c[0], c[1]); if (has("third")) c.push_back(Component("C", 6, 12.011, 1));
        return Medium(has("mediumname") ? "w2" : "w", x("I", 75, 99), x("C", 3.5017, 3.9), x("a", .09116, .12), x("m", 3.4773, 3.2), x("X0", .24, .3), x("X1", 2.8004, 2.9), x("d0", 0, .08), x("density", 1, 3), c);
    }
    Cut cut() const {
        if (kind == "photopair" || kind == "photomupair" || kind == "weak" || kind == "annihilation" || kind == "photoeffect" || kind == "photoproduction") return nullptr; if (has("nocut")) return nullptr; if (has("allcut")) return std::make_shared<EnergyCutSettings>(INF, 1, has("rand"));
        return std::make_shared<EnergyCutSettings>(x("ecut", 500, 300), x("vcut", .05, .02), has("rand"));
    }
    void settings() const {
        InterpolationSettings::NODES_DEDX = has("nodes_dedx") ? 16 : 12; InterpolationSettings::NODES_DE2DX = has("nodes_de2dx") ? 15 : 11; InterpolationSettings::NODES_DNDX_E = has("nodes_e") ? 9 : 7; InterpolationSettings::NODES_DNDX_V = has("nodes_v") ? 8 : 6;
        InterpolationSettings::NODES_UTILITY = has("nodes_utility") ? 30 : 20; InterpolationSettings::NODES_RATE_INTERPOLANT = has("nodes_rate") ? 40 : 25; InterpolationSettings::UPPER_ENERGY_LIM = has("upper") ? 3e9 : 1e9;
    }
    template <typename P> std::shared_ptr<CrossSectionBase> mk(P p) const { return make_crosssection(P(p), def(), medium(), cut(), table); }
    template <typename P> std::shared_ptr<CrossSectionBase> lpm(P*) const { return has("lpm") ? mk(P(true, def(), medium(), x("density_correction", 1, .5))) : mk(P(false)); }
    template <typename P> std::shared_ptr<CrossSectionBase> q2(P*) const { std::shared_ptr<xs::ShadowEffect> s; if (has("shadow")) s = std::make_shared<xs::ShadowDuttaRenoSarcevicSeckel>(); else s = std::make_shared<xs::ShadowButkevichMikheyev>(); return mk(P(s)); }
    std::shared_ptr<CrossSectionBase> cross() const {
        auto y = plain(); if (has("multiplier")) y = make_crosssection_multiplier(y, 1.7); return y;
    }
    std::shared_ptr<CrossSectionBase> plain() const {
        auto n = name; auto icut = cut() ? *cut() : EnergyCutSettings(INF, 1, false);
        if (kind == "brems") { if (n == "KelnerKokoulinPetrukhin") return lpm((xs::BremsKelnerKokoulinPetrukhin*)0); if (n == "PetrukhinShestakov") return lpm((xs::BremsPetrukhinShestakov*)0); if (n == "CompleteScreening") return lpm((xs::BremsCompleteScreening*)0);
            if (n == "AndreevBezrukovBugaev") return lpm((xs::BremsAndreevBezrukovBugaev*)0); if (n == "SandrockSoedingreksoRhode") return lpm((xs::BremsSandrockSoedingreksoRhode*)0); return lpm((xs::BremsElectronScreening*)0); }
        if (kind == "epair") { if (n == "KelnerKokoulinPetrukhin") return lpm((xs::EpairKelnerKokoulinPetrukhin*)0); if (n == "SandrockSoedingreksoRhode") return lpm((xs::EpairSandrockSoedingreksoRhode*)0); return lpm((xs::EpairForElectronPositron*)0); }
        if (n == "BetheBlochRossi") return mk(xs::IonizBetheBlochRossi(icut)); if (n == "BergerSeltzerBhabha") return mk(xs::IonizBergerSeltzerBhabha(icut)); if (n == "BergerSeltzerMoller") return mk(xs::IonizBergerSeltzerMoller(icut));
        if (kind == "mupair") return mk(xs::MupairKelnerKokoulinPetrukhin());
        if (kind == "q2") { if (n == "AbramowiczLevinLevyMaor91") return q2((xs::PhotoAbramowiczLevinLevyMaor91*)0); if (n == "AbramowiczLevinLevyMaor97") return q2((xs::PhotoAbramowiczLevinLevyMaor97*)0); if (n == "ButkevichMikheyev") return q2((xs::PhotoButkevichMikheyev*)0); if (n == "RenoSarcevicSu") return q2((xs::PhotoRenoSarcevicSu*)0); if (n == "AbtFT") return q2((xs::PhotoAbtFT*)0); return q2((xs::PhotoBlockDurandHa*)0); }
        bool h = has("hard") || has("hardtable") || has("nohardtable");
        if (kind == "real") { if (n == "Zeus") return mk(xs::PhotoZeus(h)); if (n == "BezrukovBugaev") return mk(xs::PhotoBezrukovBugaev(h)); if (n == "Kokoulin") return mk(xs::PhotoKokoulin(h)); return mk(xs::PhotoRhode(h)); }
        if (kind == "compton") return mk(xs::ComptonKleinNishina());
        if (kind == "photopair") { bool l = has("lpm"); double c = x("density_correction", 1, .5); if (n == "Tsai") return mk(l ? xs::PhotoPairTsai(true, def(), medium(), c) : xs::PhotoPairTsai()); return mk(l ? xs::PhotoPairKochMotz(true, def(), medium(), c) : xs::PhotoPairKochMotz()); }
        if (kind == "photomupair") return mk(xs::PhotoMuPairBurkhardtKelnerKokoulin()); if (kind == "weak") return mk(xs::WeakCooperSarkarMertsch());
        if (kind == "annihilation") return mk(xs::AnnihilationHeitler()); if (kind == "photoeffect") return mk(xs::PhotoeffectSauter());
        if (n == "Zeus") return mk(xs::PhotoproductionZeus()); if (n == "BezrukovBugaev") return mk(xs::PhotoproductionBezrukovBugaev()); if (n == "Caldwell") return mk(xs::PhotoproductionCaldwell()); if (n == "Kokoulin") return mk(xs::PhotoproductionKokoulin());
        if (n == "Rhode") return mk(xs::PhotoproductionRhode()); return mk(xs::PhotoproductionHeck());
    }
};
template <typename F> static std::string call(F f) { try { return D(f()); } catch (std::exception const& e) { return std::string("thrown ") + e.what(); } }
struct Answer { std::string hash; std::vector<std::string> vals; };
static std::string num(size_t h) { return "h" + std::to_string(h); }
// a calculator of the configuration, and what it answers
static Answer ask(Conf const& c) {
    known()->reset(); c.settings(); Answer a; auto& v = a.vals; auto say = [&](std::function<double()> f) { v.push_back(call(f)); };
    if (c.kind == "definition") { // of a table itself
        Interpolant2DBuilder::Definition b; auto f = [](double x) { return std::sin(x) + x; }; auto f2 = [](double x, double y) { return std::sin(x) + x * y; };
        auto one = [&](Interpolant1DBuilder::Definition& d) { d.nodes = c.has("nodes") ? 9 : 8; d.xmin = c.x("xmin", 1, 2); d.xmax = c.x("xmax", 20, 30); d.romberg = c.has("romberg") ? 3 : 4; d.rational = c.has("rational"); d.relative = false; d.isLog = c.has("log"); d.rombergY = c.has("rombergY") ? 3 : 4; d.rationalY = false; d.relativeY = false; d.logSubst = c.has("logy"); };
        if (c.name == "one") { Interpolant1DBuilder::Definition d; d.function1d = f; one(d); a.hash = num(d.GetHash()); auto t = Interpolant1DBuilder(d).build(); for (double x : { 2.3, 5.1, 17. }) { say([&] { return t->Interpolate(x); }); say([&] { return t->FindLimit(x); }); } }
        else { one(b); b.function2d = f2; b.nodes2 = c.has("nodes2") ? 9 : 7; b.x2min = c.x("x2min", 1, 2); b.x2max = c.x("x2max", 10, 20); b.romberg2 = c.has("romberg2") ? 3 : 4; b.rational2 = c.has("rational2"); b.relative2 = false; b.isLog2 = c.has("log2"); a.hash = num(b.GetHash()); auto t = Interpolant2DBuilder(b).build(); for (double x : { 2.3, 5.1, 17. }) for (double y : { 2.2, 6.3 }) { say([&] { return t->Interpolate(x, y); }); say([&] { return t->FindLimit(x, y * x); }); } }
        return a;
    }
    if (c.kind == "secondaries") { auto p = c.def(); auto m = c.medium(); secondaries::WeakCooperSarkarMertsch s(p, m); a.hash = ""; for (double E : { 1e5, 1e8 }) for (auto& q : m.GetComponents()) say([&] { return s.CalculateRelativeLoss(E, .4, q); }); return a; }
    if (c.kind == "utility") {
        auto b = c; b.kind = "ioniz"; b.name = "BetheBlochRossi"; auto br = c; br.kind = "brems"; br.name = "KelnerKokoulinPetrukhin"; if (c.has("param")) br.name = "PetrukhinShestakov"; for (auto x : { &b, &br }) { x->table = !c.has("direct"); x->v.insert("rand"); } b.v.erase("multiplier");
        std::vector<std::shared_ptr<CrossSectionBase>> x { b.cross(), br.cross() }, y { b.cross() }; if (c.has("swapped")) std::swap(x[0], x[1]);
        auto p = c.def(), p2 = c.has("othermass") ? c.def(true) : p; bool t = c.table; auto disp = std::shared_ptr<Displacement>(make_displacement(c.has("otherdisp") ? y : x, t)); auto& z = c.has("othercross") ? y : x;
        if (c.name == "displacement") { a.hash = num(disp->GetHash()); for (double E : { 300., 2e4, 3e7 }) { say([&] { return disp->SolveTrackIntegral(E, 200); }); say([&] { return disp->UpperLimitTrackIntegral(E, .01 * E); }); } }
        if (c.name == "interaction") { auto i = make_interaction(disp, z, t, t); a.hash = num(i->GetHash()); for (double E : { 300., 2e4, 3e7 }) { say([&] { return i->EnergyInteraction(E, .3); }); say([&] { return i->MeanFreePath(E); }); } }
        if (c.name == "time") { auto i = make_time(disp, p2, t); a.hash = ""; for (double E : { 300., 2e4, 3e7 }) say([&] { return i->TimeElapsed(E, 220, 1, 1); }); }
        if (c.name == "decay") { auto i = make_decay(disp, p2, t); a.hash = num(i->GetHash()); for (double E : { 300., 2e4, 3e7 }) say([&] { return i->EnergyDecay(E, .999, 1); }); }
        if (c.name == "contrand") { auto i = make_contrand(disp, z, t); a.hash = num(i->GetHash()); for (double E : { 300., 2e4, 3e7 }) say([&] { return i->Variance(E, 220); }); }
        return a;
    }
    auto m = c.medium(); auto x = c.cross(); a.hash = num(x->GetHash()); double l = std::max(1., x->GetLowerEnergyLim());
    for (double E : { l * 3, l * 400, 5e7 }) {
        say([&] { return x->CalculatedEdx(E); }); say([&] { return x->CalculatedE2dx(E); }); say([&] { return x->CalculatedNdx(E); });
        std::vector<std::pair<size_t, double>> r; try { r = x->CalculatedNdx_PerTarget(E); } catch (...) { } for (auto& q : r) v.push_back(D(q.second)); if (!r.empty() && c.kind != "photopair" && c.kind != "weak" && r[0].second > 0) say([&] { return x->CalculateStochasticLoss(r[0].first, E, .4 * r[0].second); });
    }
    return a;
}
int main(int argc, char** argv) {
    Trace t(argv[1]); Logging::SetGlobalLoglevel(spdlog::level::off); int run = std::atoi(argv[3]); Rng g(env_seed() * 77 + run); std::ifstream in(argv[2]); std::string line; std::vector<Conf> list;
    while (std::getline(in, line)) { auto j = json::parse(line); Conf c { j["kind"], j["name"], {}, j["table"] }; for (auto& s : j["vars"]) c.v.insert(s.get<std::string>()); list.push_back(c); if (g.i(0, 5) == 0) list.push_back(c); }
    for (size_t i = list.size(); i-- > 1;) std::swap(list[i], list[g.i(0, (int)i)]);
    t({ { "k", "start" } }); auto& files = cubic_splines::Files::get();
    for (auto& c : list) {
        std::string id = c.kind + "/" + c.name + (c.table ? "/table" : "/integral"); for (auto& s : c.v) id += "/" + s; json e { { "k", "ask" }, { "kind", c.kind }, { "what", c.name }, { "table", c.table }, { "id", id } };
        files.on = true; files.asked.clear(); files.built.clear(); InterpolationSettings::TABLES_PATH = "store"; Answer got, fresh; std::string th = thrown([&] { got = ask(c); }); e["files"] = json::array(); std::vector<std::pair<std::string, bool>> fs; for (size_t i = 0; i < files.asked.size(); ++i) e["files"].push_back({ { "name", files.asked[i] }, { "built", (bool)files.built[i] } });
        files.on = false; std::string th2 = thrown([&] { fresh = ask(c); }); e["thrown"] = th; e["again"] = th2; // how fine tables are is no part of what a calculator is, only of the names of its tables
        for (auto& s : c.v) if (c.kind != "definition" && (s.find("nodes_") == 0 || s == "upper")) got.hash = fresh.hash = ""; e["hash"] = got.hash; e["hash2"] = fresh.hash; e["got"] = got.vals; e["fresh"] = fresh.vals; t(e);
    }
}
