// Secondary particles of stochastic interactions.   LIB=full
//   second TRACE script FILE   histories of adding calculators and asking them
//   second TRACE random N      interactions of every process
#include "xs.h"
#include "PROPOSAL/secondaries/SecondariesCalculator.h"
#include "PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsEGS4Approximation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/compton/NaivCompton.h"
#include "PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h"
#include "PROPOSAL/secondaries/parametrization/ionization/NaivIonization.h"
#include "PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.h"
#include "PROPOSAL/secondaries/parametrization/photoeffect/PhotoeffectNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.h"
#include "PROPOSAL/secondaries/parametrization/photonuclear/Photonuclear.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.h"
#include "PROPOSAL/secondaries/parametrization/photoproduction/Photoproduction.h"
#include "PROPOSAL/secondaries/parametrization/weakinteraction/WeakCooperSarkarMertsch.h"
namespace sec = secondaries;
using Calc = std::unique_ptr<sec::Parametrization>;
static json out(std::vector<ParticleState> const& s) { json r = json::array(); for (auto& p : s) r.push_back({ { "type", p.type }, { "E", D(p.energy) }, { "dir", D3(p.direction) }, { "pos", D3(p.position) }, { "time", D(p.time) }, { "dist", D(p.propagated_distance) } }); return r; }
static Calc make(std::string const& n, ParticleDef const& p, Medium const& m) {
    auto mk = [&](auto* t) { return Calc(new std::remove_pointer_t<decltype(t)>(p, m)); };
    if (n == "BremsNoDeflection") return mk((sec::BremsNoDeflection*)0); if (n == "BremsEGS4Approximation") return mk((sec::BremsEGS4Approximation*)0); if (n == "BremsKochMotz") return mk((sec::BremsKochMotz*)0);
    if (n == "NaivIonization") return mk((sec::NaivIonization*)0); if (n == "KelnerKokoulinPetrukhinEpairProduction") return mk((sec::KelnerKokoulinPetrukhinEpairProduction*)0); if (n == "ForElectronPositronEpairProduction") return mk((sec::ForElectronPositronEpairProduction*)0);
    if (n == "KelnerKokoulinPetrukhinMupairProduction") return mk((sec::KelnerKokoulinPetrukhinMupairProduction*)0); if (n == "Photonuclear") return mk((sec::Photonuclear*)0); if (n == "NaivCompton") return mk((sec::NaivCompton*)0);
    if (n == "HeitlerAnnihilation") return mk((sec::HeitlerAnnihilation*)0); if (n == "PhotoeffectNoDeflection") return mk((sec::PhotoeffectNoDeflection*)0); if (n == "Photoproduction") return mk((sec::Photoproduction*)0);
    if (n == "PhotoPairTsaiForwardPeaked") return mk((sec::PhotoPairProductionTsaiForwardPeaked*)0); if (n == "PhotoPairTsai") return mk((sec::PhotoPairProductionTsai*)0); if (n == "PhotoPairTsaiSauter") return mk((sec::PhotoPairProductionTsaiSauter*)0);
    if (n == "PhotoPairKochMotzForwardPeaked") return mk((sec::PhotoPairProductionKochMotzForwardPeaked*)0); if (n == "PhotoPairKochMotzSauter") return mk((sec::PhotoPairProductionKochMotzSauter*)0);
    if (n == "PhotoMuPairBurkhardtKelnerKokoulin") return mk((sec::PhotoMuPairProductionBurkhardtKelnerKokoulin*)0); if (n == "WeakCooperSarkarMertsch") return mk((sec::WeakCooperSarkarMertsch*)0);
    std::abort();
}
static int type_of(std::string const& s) {
    static std::map<std::string, InteractionType> m { { "brems", InteractionType::Brems }, { "ioniz", InteractionType::Ioniz }, { "epair", InteractionType::Epair }, { "mupair", InteractionType::MuPair }, { "nuclear", InteractionType::Photonuclear }, { "compton", InteractionType::Compton },
        { "annihilation", InteractionType::Annihilation }, { "photopair", InteractionType::Photopair }, { "photomupair", InteractionType::PhotoMuPair }, { "photoeffect", InteractionType::Photoeffect }, { "photoproduction", InteractionType::Photoproduction }, { "weak", InteractionType::WeakInt }, { "decay", InteractionType::Decay }, { "particle", InteractionType::Particle } };
    return s == "unknown" ? 4711 : (int)m.at(s);
}
static json ask(SecondariesCalculator& c, std::string const& kind, double E, double loss, Component const& comp) {
    json r { { "kind", kind } }; size_t n = 0; r["n_thrown"] = thrown([&] { n = c.RequiredRandomNumbers((InteractionType)type_of(kind)); }); r["n"] = n;
    std::vector<double> rnd(std::max<size_t>(n, r["n_thrown"] == "" ? 0 : 8), .3); StochasticLoss l(type_of(kind), loss, Cartesian3D(1, 2, 3), Cartesian3D(0, 0, 1), 5., 6., E); json t = json::array();
    r["thrown"] = thrown([&] { for (auto& s : c.CalculateSecondaries(l, comp, rnd)) t.push_back(s.type); }); r["types"] = t; return r;
}
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed()); Logging::SetGlobalLoglevel(spdlog::level::off); InterpolationSettings::UPPER_ENERGY_LIM = 1e10; std::string mode = argv[2];
    if (mode == "script") {
        std::ifstream f(argv[3]); std::string s; Water m; MuMinusDef mu; auto comp = m.GetComponents()[1];
        while (std::getline(f, s)) {
            auto ops = json::parse(s); SecondariesCalculator c; json r = json::array();
            for (auto& o : ops) { if (o["k"] == "add") { c.addInteraction(make(o["name"], mu, m)); r.push_back(o); } else { auto a = ask(c, o["kind"], 1e4, 700, comp); a["k"] = "ask"; r.push_back(a); } }
            t({ { "k", "disp" }, { "p", mu.particle_type }, { "ops", r } });
        }
        // what is made for a list of types
        for (auto& q : std::vector<std::vector<InteractionType>> { {}, { InteractionType::Brems }, { InteractionType::Brems, InteractionType::Ioniz, InteractionType::Epair, InteractionType::MuPair, InteractionType::Photonuclear }, { InteractionType::Decay }, { InteractionType::Brems, InteractionType::Particle }, { InteractionType::Ioniz, InteractionType::Ioniz }, { InteractionType::Annihilation, InteractionType::Photoeffect, InteractionType::Compton, InteractionType::Photoproduction } }) {
            std::unique_ptr<SecondariesCalculator> c; json k = json::array(); for (auto x : q) k.push_back((int)x); auto th = thrown([&] { c = make_secondaries(q, mu, m); }); json r = json::array();
            if (c) for (auto kind : { "brems", "ioniz", "epair", "mupair", "nuclear", "annihilation", "photoeffect", "compton", "photoproduction", "weak", "decay" }) { auto a = ask(*c, kind, 1e4, 700, comp); a["has"] = std::count(q.begin(), q.end(), (InteractionType)type_of(kind)); r.push_back(a); }
            bool bad = false; for (auto x : q) bad |= x == InteractionType::Decay || x == InteractionType::Particle; t({ { "k", "list" }, { "p", mu.particle_type }, { "bad", bad }, { "thrown", th }, { "asked", r } });
        }
        return 0;
    }
    int N = std::atoi(argv[3]); std::vector<Medium> M { Water(), StandardRock(), Lead(), Hydrogen(), Salt(), Iron(), Air() };
    ParticleDef mu = MuMinusDef(), mup = MuPlusDef(), tau = TauMinusDef(), taup = TauPlusDef(), e = EMinusDef(), ep = EPlusDef(), ga = GammaDef();
    struct C { std::string kind, name, xk, xn; };
    std::vector<C> all { { "brems", "BremsNoDeflection", "brems", "KelnerKokoulinPetrukhin" }, { "brems", "BremsEGS4Approximation", "brems", "KelnerKokoulinPetrukhin" }, { "brems", "BremsKochMotz", "brems", "ElectronScreening" }, { "ioniz", "NaivIonization", "ioniz", "" },
        { "epair", "KelnerKokoulinPetrukhinEpairProduction", "epair", "KelnerKokoulinPetrukhin" }, { "epair", "ForElectronPositronEpairProduction", "epair", "ForElectronPositron" }, { "mupair", "KelnerKokoulinPetrukhinMupairProduction", "mupair", "KelnerKokoulinPetrukhin" }, { "nuclear", "Photonuclear", "real", "Zeus" }, { "compton", "NaivCompton", "compton", "KleinNishina" },
        { "annihilation", "HeitlerAnnihilation", "", "" }, { "photoeffect", "PhotoeffectNoDeflection", "", "" }, { "photoproduction", "Photoproduction", "", "" }, { "photopair", "PhotoPairTsaiForwardPeaked", "photopair", "Tsai" }, { "photopair", "PhotoPairTsai", "photopair", "Tsai" }, { "photopair", "PhotoPairTsaiSauter", "photopair", "Tsai" },
        { "photopair", "PhotoPairKochMotzForwardPeaked", "photopair", "KochMotz" }, { "photopair", "PhotoPairKochMotzSauter", "photopair", "KochMotz" }, { "photomupair", "PhotoMuPairBurkhardtKelnerKokoulin", "photomupair", "BurkhardtKelnerKokoulin" }, { "weak", "WeakCooperSarkarMertsch", "weak", "CooperSarkarMertsch" } };
    for (auto& c : all) {
        bool table = c.kind == "photopair" || c.kind == "photomupair" || c.kind == "weak"; int rounds = table ? std::max(1, N / 4) : N;
        for (int n = 0; n < rounds; ++n) {
            auto m = g.pick(M); auto xn = c.xn; if (c.kind == "ioniz") { const char* q[] = { "BetheBlochRossi", "BergerSeltzerBhabha", "BergerSeltzerMoller" }; xn = q[g.i(0, 2)]; }
            auto& x = *new Entry(c.xk != "" ? make_entry(g, { c.xk, xn }, m, Cut()) : entry("", "", xs::ComptonKleinNishina(), ga, m, Cut())); ParticleDef p = c.xk != "" ? x.p : c.kind == "annihilation" ? ep : ga; auto calc = make(c.name, p, m); SecondariesCalculator all_c; all_c.addInteraction(make(c.name, p, m));
            if (c.name == "BremsKochMotz") { // many photons of one kind
                auto comp = g.pick(m.GetComponents()); double E = g.lu(5, 1e5), k = E * g.u(.02, .95), az = g.u(); json phi = json::array(), bad = json::array(); Cartesian3D dir(0, 0, 1); std::vector<double> ph; if (E - k < 1) k = E / 2;
                for (int i = 0; i < 1500; ++i) { StochasticLoss l(type_of(c.kind), k, Cartesian3D(0, 0, 0), dir, 0, 0, E); std::vector<double> rnd { (i + g.u()) / 1500, az }; auto s = calc->CalculateSecondaries(l, comp, rnd); auto d = s.at(1).direction; ph.push_back(std::atan2(std::hypot(d[0], d[1]), d[2])); }
                std::sort(ph.begin(), ph.end()); for (int q : { 20, 100, 300, 600, 750, 900, 1200, 1400, 1480 }) phi.push_back({ q, D(ph[q]) }); t({ { "k", "km" }, { "E", D(E) }, { "g", D(k) }, { "Z", D(comp.GetNucCharge()) }, { "n", 1500 }, { "q", phi } });
            }
            for (int q = 0; q < (table ? 8 : 2); ++q) {
                auto C = m.GetComponents(); size_t ci = g.i(0, C.size() - 1); auto comp = C[ci]; double E, v = 1; xs::KinematicLimits lim { 0, 1 };
                if (c.xk != "") {
                    size_t ti = x.t.size() == C.size() && x.kind != "ioniz" ? ci : 0; double low = x.kind == "photomupair" ? x.low * 1000 : table ? x.low * 20 : x.low; /* (electrons only take part from about 100 x the threshold for photons to muons) */
                    do { E = low * (g.i(0, 4) ? g.lu(1.0001, 1e9 / low) : g.u(1.0001, 2)); lim = x.t[ti].lim(E); } while (!(lim.v_max > lim.v_min));
                    double a = std::max(lim.v_min, 1e-9 * lim.v_max); v = g.i(0, 1) ? a * std::pow(lim.v_max / a, g.u(1e-4, .9999)) : a + (lim.v_max - a) * g.u(1e-5, 1 - 1e-5); if (table) v = 1;
                } else if (c.kind == "annihilation") E = g.i(0, 2) ? ME * g.lu(1.001, 1e13) : ME * g.u(1.0001, 3); else if (c.kind == "photoeffect") { double I = std::pow(comp.GetNucCharge() * ALPHA, 2) * ME / 2; E = I * g.lu(1.0001, 1e5); } else E = g.lu(200, 1e12);
                Cartesian3D ax[] = { { 0, 0, 1 }, { 0, 0, -1 }, { 1, 0, 0 }, { 0, -1, 0 } }, dir = g.i(0, 3) ? rnd_dir(g) : ax[g.i(0, 3)], pos(g.u(-1e5, 1e5), g.u(-1e5, 1e5), g.u(-1e5, 1e5)); double time = g.u(0, 1e-3), dist = g.u(0, 1e6);
                StochasticLoss l(type_of(c.kind), E * v, pos, dir, time, dist, E, comp.GetHash()); size_t n_rnd = calc->RequiredRandomNumbers(); std::vector<double> rnd; for (size_t i = 0; i < n_rnd; ++i) rnd.push_back(g.i(0, 5) ? g.u() : g.i(0, 1) ? g.lu(1e-6, 1) : 1 - g.lu(1e-6, 1)); json R = DV(rnd);
                std::vector<ParticleState> s; auto th = thrown([&] { s = calc->CalculateSecondaries(l, comp, rnd); }); auto other = rnd; other.resize(n_rnd + 4, .77); std::vector<ParticleState> s2; thrown([&] { s2 = all_c.CalculateSecondaries(l, comp, other); });
                json j { { "k", "sec" }, { "kind", c.kind }, { "name", c.name }, { "m", D(p.mass) }, { "p", p.particle_type }, { "E", D(E) }, { "loss", D(E * v) }, { "dir", D3(dir) }, { "pos", D3(pos) }, { "time", D(time) }, { "dist", D(dist) }, { "comp", comp_json(comp) }, { "rnd", R }, { "thrown", th }, { "out", out(s) }, { "same", out(s) == out(s2) }, { "type", (int)calc->GetInteractionType() == type_of(c.kind) }, { "part", json::array() } };
                if (th == "" && s.size() > 1) {
                    std::function<double(double)> f; double a = 0, b = 1, at = -1;
                    if (c.kind == "epair" || c.kind == "mupair") {
                        double vE = E * v; at = std::abs(s[1].energy - s[2].energy) / vE;
                        if (c.kind == "mupair") { b = 1 - 2 * MMU / vE; f = [&](double rho) { return xs::MupairKelnerKokoulinPetrukhin().FunctionToIntegral(p, comp, E, v, rho); }; }
                        else { b = std::sqrt(1 - 4 * ME / vE) * (1 - 6 * p.mass * p.mass / (E * E * (1 - v))); if (c.name[0] == 'K') f = [&](double rho) { return xs::EpairKelnerKokoulinPetrukhin().FunctionToIntegral(p, comp, E, v, 1 - rho); }; else f = [&](double rho) { return xs::EpairForElectronPositron().FunctionToIntegral(p, comp, E, v, 1 - rho); }; }
                    } else if (table) { size_t i = 0; while (x.t[i].hash != comp.GetHash()) ++i; f = [&x, i, E](double y) { return x.t[i].ds(E, y); }; a = lim.v_min; b = lim.v_max; at = s[c.kind == "photopair" ? 0 : 1].energy / E; }
                    if (at >= a && at <= b) j["part"] = { region(f, a, at), region(f, at, b) }; j["lim"] = { D(a), D(b) };
                }
                t(j);
            }
        }
    }
}
