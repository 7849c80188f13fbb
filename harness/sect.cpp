// LIB=full
// Which sector a propagation starts in, and what configurations mean.
//   sect TRACE at <worlds and rays>     sect TRACE config <documents>
#include "world.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/CrossSectionBuilder.h"
#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/crosssection/Factories/AnnihilationFactory.h"
#include "PROPOSAL/crosssection/Factories/BremsstrahlungFactory.h"
#include "PROPOSAL/crosssection/Factories/ComptonFactory.h"
#include "PROPOSAL/crosssection/Factories/EpairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/IonizationFactory.h"
#include "PROPOSAL/crosssection/Factories/MupairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoMuPairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoPairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoeffectFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotonuclearFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoproductionFactory.h"
#include "PROPOSAL/crosssection/Factories/WeakInteractionFactory.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/propagation_utility/PropagationUtilityIntegral.h"

struct Found { int id; };
struct Tell : Interaction { // the first thing a propagation asks its sector
    int id;
    Tell(std::shared_ptr<Displacement> d, int id) : Interaction(d, { std::make_shared<MockCross>(InteractionType::Ioniz, std::vector<std::pair<size_t, double>> {}, 0, 0) }), id(id) {}
    double EnergyInteraction(double, double) override { throw Found { id }; }
    double EnergyIntegral(double, double) override { return 0; }
    double MeanFreePath(double) override { return 1; }
};
static Shape shape(json const& g) {
    Shape s; s.kind = g["kind"]; for (int k = 0; k < 3; ++k) s.c[k] = g["c"][k]; s.x = g["x"]; s.y = g["y"]; s.z = g["z"]; s.ri = g["ri"]; s.ro = g["ro"]; return s;
}
// what the settings of the specification mean, built by hand
static Sector build(json const& s, std::shared_ptr<Geometry> geo) {
    auto p = MuMinusDef(); auto& set = s["set"];
    auto medium = set["medium"][0] == "water" ? std::shared_ptr<Medium>(std::make_shared<Water>()) : std::make_shared<Iron>();
    auto cuts = std::make_shared<EnergyCutSettings>(set["cuts"][0]["e_cut"].get<double>(), set["cuts"][0]["v_cut"].get<double>(), set["cuts"][0]["cont_rand"].get<bool>());
    bool interpol = set["do_interpolation"][0];
    std::vector<std::shared_ptr<CrossSectionBase>> cross;
    if (set["CrossSections"][0].contains("brems")) cross.push_back(make_crosssection(crosssection::BremsKelnerKokoulinPetrukhin(false, p, *medium, 1.), p, *medium, cuts, interpol));
    cross.push_back(make_crosssection(crosssection::IonizBetheBlochRossi(*cuts), p, *medium, cuts, interpol));
    PropagationUtility::Collection c;
    c.displacement_calc = make_displacement(cross, interpol); c.interaction_calc = make_interaction(cross, interpol); c.decay_calc = make_decay(cross, p, interpol);
    if (set["exact_time"][0].get<bool>()) c.time_calc = make_time(cross, p, interpol); else c.time_calc = std::make_shared<ApproximateTimeBuilder>();
    if (cuts->GetContRand()) c.cont_rand = make_contrand(cross, interpol);
    if (!set["scattering"].empty() && set["scattering"][0]["multiple_scattering"] == "highland")
        c.scattering = std::make_shared<Scattering>(std::make_unique<multiple_scattering::Highland>(p, *medium), std::vector<std::unique_ptr<stochastic_deflection::Parametrization>> {});
    double rho = !set["density_distribution"].empty() ? set["density_distribution"][0]["mass_density"].get<double>() : medium->GetMassDensity();
    return Sector(geo, PropagationUtility(c), std::make_shared<Density_homogeneous>(rho));
}
static json track(Propagator& p) {
    Rng r(7); std::function<double()> f = [&] { return std::min(.999999, std::max(1e-6, r.u())); };
    RandomGenerator::Get().SetRandomNumberGenerator(f);
    auto t = p.Propagate(ParticleState(ParticleType::MuMinus, Cartesian3D(0, 0, 0), Cartesian3D(.6, 0, .8), 2000., 0., 0.), 80);
    RandomGenerator::Get().SetDefaultRandomNumberGenerator();
    json a = json::array();
    auto tr = t.GetTrack(); auto ty = t.GetTrackTypes();
    for (size_t i = 0; i < tr.size(); ++i) {
        auto& s = tr[i];
        // times in units of 1e-12 s
        a.push_back({ D(s.position.GetX()), D(s.position.GetY()), D(s.position.GetZ()), D(s.direction.GetX()), D(s.direction.GetY()), D(s.energy), D(1e12 * s.time), D(s.propagated_distance), ity(ty[i]) });
    }
    return a;
}
// one process beside the one which slows the particle down; documents say which, the factories of the library make them
static json process_track(Propagator& p, ParticleDef const& def, json const& j) {
    Rng r(9); int drawn = 0; std::function<double()> f = [&] { if (++drawn > 5000) throw std::length_error("no end of interactions"); return std::min(.999999, std::max(1e-6, r.u())); };
    RandomGenerator::Get().SetRandomNumberGenerator(f); double E = j["E"];
    auto t = p.Propagate(ParticleState((ParticleType)def.particle_type, Cartesian3D(0, 0, 0), Cartesian3D(.6, 0, .8), E, 0., 0.), j["max"], j["min"].get<double>() * E);
    RandomGenerator::Get().SetDefaultRandomNumberGenerator();
    json a = json::array(); auto tr = t.GetTrack(); auto ty = t.GetTrackTypes(); auto h = t.GetTargetHashes();
    for (size_t i = 0; i < tr.size(); ++i) a.push_back({ { "x", { D(tr[i].position.GetX()), D(tr[i].energy), D(tr[i].propagated_distance) } }, { "ty", ity(ty[i]) }, { "h", std::to_string(h[i]) } });
    return a;
}
static void numbers(json& j) { // texts which are numbers
    if (j.is_structured()) for (auto& x : j) numbers(x);
    else if (j.is_string()) { std::string t = j; char* end; double v = std::strtod(t.c_str(), &end); if (!t.empty() && !*end) j = v; }
}
static void process(Trace& tr, json j) {
    json e = j; e.erase("doc"); e["e"] = "process"; e["got"] = json::array(); e["ref"] = json::array(); numbers(j);
    std::map<std::string, ParticleDef> defs { { "e+", EPlusDef() }, { "e-", EMinusDef() }, { "gamma", GammaDef() }, { "mu-", MuMinusDef() }, { "mu+", MuPlusDef() } };
    auto def = defs.at(j["particle"]); auto& doc = j["doc"];
    e["thrown"] = thrown([&] {
        auto& g = doc["global"]; auto m = Water(); auto cuts = std::make_shared<EnergyCutSettings>(g["cuts"]["e_cut"].get<double>(), g["cuts"]["v_cut"].get<double>(), false); auto& x = g["CrossSections"];
        std::vector<std::shared_ptr<CrossSectionBase>> cross; double rho = g["density_distribution"]["mass_density"], dc = rho / m.GetMassDensity();
        auto add = [&](char const* k, std::function<std::shared_ptr<CrossSectionBase>(json const&)> f) { if (x.contains(k)) cross.push_back(f(x[k])); };
        add("annihilation", [&](json const& c) { return make_annihilation(def, m, false, c); }); add("brems", [&](json const& c) { return make_bremsstrahlung(def, m, cuts, false, c, dc); });
        add("compton", [&](json const& c) { return make_compton(def, m, cuts, false, c); }); add("epair", [&](json const& c) { return make_epairproduction(def, m, cuts, false, c, dc); });
        add("ioniz", [&](json const& c) { return make_ionization(def, m, cuts, false, c); }); add("mupair", [&](json const& c) { return make_mupairproduction(def, m, cuts, false, c); });
        add("photo", [&](json const& c) { return c["of"] == "real" ? make_photonuclearreal(def, m, cuts, false, c) : make_photonuclearQ2(def, m, cuts, false, c); });
        add("photoeffect", [&](json const& c) { return make_photoeffect(def, m, c); }); add("photomupair", [&](json const& c) { return make_photomupairproduction(def, m, false, c); });
        add("photoproduction", [&](json const& c) { return make_photoproduction(def, m, c); }); add("photopair", [&](json const& c) { return make_photopairproduction(def, m, false, c, dc); });
        add("weak", [&](json const& c) { return make_weakinteraction(def, m, false, c); });
        PropagationUtility::Collection c; c.displacement_calc = make_displacement(cross, false); c.interaction_calc = make_interaction(cross, false); c.time_calc = std::make_shared<ApproximateTimeBuilder>();
        if (def.lifetime > 0 && std::isfinite(def.lifetime)) c.decay_calc = make_decay(cross, def, false);
        Propagator q(def, std::vector<Sector> { Sector(std::make_shared<Sphere>(Cartesian3D(0, 0, 0), doc["sectors"][0]["geometries"][0]["outer_radius"].get<double>(), 0.), PropagationUtility(c), std::make_shared<Density_homogeneous>(rho)) });
        e["ref"] = process_track(q, def, j);
        Propagator p(def, doc); e["got"] = process_track(p, def, j);
    });
    tr(e);
}
int main(int argc, char** argv) {
    Logging::SetGlobalLoglevel(spdlog::level::off);
    InterpolationSettings::TABLES_PATH = "";
    Trace tr(argv[1]); std::string mode = argv[2]; std::ifstream in(argv[3]); std::string line;
    std::vector<json> lines; while (std::getline(in, line)) if (!line.empty()) lines.push_back(json::parse(line));
    if (mode == "process") { size_t n = 0, part = std::stoi(argv[4]), parts = std::stoi(argv[5]); for (auto& j : lines) if (n++ % parts == part) process(tr, j); return 0; }
    if (mode == "at") {
        std::vector<std::pair<Cartesian3D, Cartesian3D>> rays;
        for (auto& j : lines) if (j["t"] == "ray") { Cartesian3D d(j["d"][0].get<double>(), j["d"][1].get<double>(), j["d"][2].get<double>()); d.normalize(); rays.push_back({ Cartesian3D(j["p"][0].get<double>(), j["p"][1].get<double>(), j["p"][2].get<double>()), d }); }
        Rng r(env_seed());
        for (auto& j : lines) if (j["t"] == "world") {
            std::vector<Sector> secs; json w = json::array(); int id = 0;
            for (auto& s : j["w"]) {
                auto sh = shape(s["g"]); auto g = sh.make(); g->SetHierarchy(s["h"].get<unsigned>());
                PropagationUtility::Collection c; auto d = std::make_shared<MockDisp>(1, 0, 0);
                c.displacement_calc = d; c.interaction_calc = std::make_shared<Tell>(d, ++id); c.time_calc = std::make_shared<ApproximateTimeBuilder>();
                secs.emplace_back(g, PropagationUtility(c), std::make_shared<Density_homogeneous>(1.));
                w.push_back({ { "g", sh.js() }, { "h", s["h"] } });
            }
            Propagator p(MuMinusDef(), secs); tr({ { "e", "world" }, { "sectors", w } });
            auto ask = [&](Cartesian3D const& x, Cartesian3D const& d) {
                int got = 0; std::string err = thrown([&] { try { p.Propagate(ParticleState(ParticleType::MuMinus, x, d, 1000., 0., 0.), 1e3); } catch (Found const& f) { got = f.id; } });
                tr({ { "e", "at" }, { "p", D3(x) }, { "d", D3(d) }, { "got", got }, { "thrown", err } });
            };
            for (auto& q : rays) if (r.i(0, 4) == 0) ask(q.first, q.second);
            for (int k = 0; k < 20; ++k) ask(Cartesian3D(r.u(-5, 5), r.u(-3, 3), r.u(-3, 3)), rnd_dir(r));
        }
        return 0;
    }
    int n = 0, part = argc > 5 ? std::stoi(argv[4]) : 0, parts = argc > 5 ? std::stoi(argv[5]) : 1; std::string cf = "config" + std::to_string(part) + ".json";
    for (auto& j : lines) {
        if (j["doc"].contains("global") && j["doc"]["global"].empty()) j["doc"]["global"] = json::object();
        json e = { { "e", "config" }, { "doc", j["doc"] }, { "means", j["means"] }, { "reached", false }, { "got", json::array() }, { "ref", json::array() } };
        std::unique_ptr<Propagator> p; if (n++ % parts != part) continue;
        e["thrown"] = thrown([&] {
            if (n / parts % 2) { std::ofstream(cf) << j["doc"].dump(); p = std::make_unique<Propagator>(MuMinusDef(), cf); }
            else p = std::make_unique<Propagator>(MuMinusDef(), j["doc"]);
        });
        if (p && j["means"]["ok"].get<bool>()) {
            std::vector<Sector> secs;
            for (auto& s : j["means"]["sectors"]) {
                auto g = std::make_shared<Sphere>(Cartesian3D(0, 0, 0), s["g"]["outer_radius"].get<double>(), 0.);
                if (s["g"].contains("hierarchy")) g->SetHierarchy(s["g"]["hierarchy"].get<unsigned>());
                secs.push_back(build(s, g));
            }
            Propagator q(MuMinusDef(), secs);
            e["thrown"] = thrown([&] { e["got"] = track(*p); e["ref"] = track(q); e["reached"] = true; });
        }
        tr(e);
    }
    if (part) return 0;
    auto file = [&](char const* name, char const* text, char const* want) {
        if (text) std::ofstream(name) << text;
        tr({ { "e", "file" }, { "name", name }, { "want", want }, { "thrown", thrown([&] { Propagator(MuMinusDef(), std::string(name)); }) } });
    };
    file("missing.json", nullptr, "invalid_argument"); file("broken.json", "{ \"sectors\": [", "json"); file("empty.json", "", "json"); file("", nullptr, "invalid_argument");
    file("nosectors.json", "{}", "invalid_argument");
}
