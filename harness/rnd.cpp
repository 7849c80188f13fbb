// LIB=full
// The random source under histories of seeding, drawing, saving, restoring,
// own generators and library calls in between.
//   rnd TRACE SCRIPTS COUNT
#include "world.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/DecayChannel.h"
#include "PROPOSAL/math/Integral.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsEGS4Approximation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/ionization/NaivIonization.h"
static double val(int n) { std::mt19937_64 e(n); return (e() >> 11) * 0x1.0p-53; }
static RandomGenerator& R() { return RandomGenerator::Get(); }
static std::mt19937 engine() { std::stringstream s; R().Serialize(s); std::mt19937 e; s >> e; return e; }
static int steps(std::mt19937 from, std::mt19937 const& to) { for (int i = 0; i <= 60000; ++i) { if (from == to) return i; from(); } return -1; }
static std::string show(ParticleState const& p) { return state(p).dump(); }
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed()); Logging::SetGlobalLoglevel(spdlog::level::off);
    Calls calls; std::vector<Sector> secs; std::shared_ptr<Geometry> geo;
    { Sec s; s.g.kind = "sphere"; s.g.ro = 1e5; s.a = 2; s.b = 1e-6; s.m = 105.7; s.lambda = 300; s.tau = 200; s.crand = .3; s.ms = .01; s.defl.push_back(std::make_shared<MockDefl>(&calls, InteractionType::Ioniz, .1, 2));
      s.cross.push_back(std::make_shared<MockCross>(InteractionType::Ioniz, std::vector<std::pair<size_t, double>> { { 1, 1. }, { 2, 2. } }, .1, .3)); secs.push_back(s.make(calls, geo)); }
    Propagator prop(MuMinusDef(), secs);
    auto water = Water(); auto comp = water.GetComponents()[0];
    auto params = [&](ParticleDef p) { std::vector<std::shared_ptr<secondaries::Parametrization>> v { std::make_shared<secondaries::BremsKochMotz>(p, water), std::make_shared<secondaries::BremsEGS4Approximation>(p, water), std::make_shared<secondaries::NaivIonization>(p, water), std::make_shared<secondaries::BremsNoDeflection>(p, water) }; return v; };
    auto P = params(EMinusDef());
    const int NLIB = 11;
    auto lib = [&](int k, double a) -> std::string { // the result as text
        std::ostringstream o;
        if (k < 4) {
            std::vector<double> r { a, .3, .7 };
            StochasticLoss l(P[k]->GetInteractionType() == InteractionType::Brems ? (int)InteractionType::Brems : (int)InteractionType::Ioniz, 300, Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 0, 0, 1000);
            for (auto& s : P[k]->CalculateSecondaries(l, comp, r)) o << show(s);
        } else if (k == 4 || k == 5) {
            auto d = k == 4 ? ParticleDef(TauMinusDef()) : ParticleDef(MuPlusDef());
            ParticleState s((ParticleType)d.particle_type, Cartesian3D(1, 2, 3), Cartesian3D(0, 1, 0), 5e3, 1, 2);
            for (auto& q : d.decay_table.SelectChannel(a).Decay(d, s)) o << show(q);
        } else if (k == 6) { o << D3(DecayChannel::GenerateRandomDirection()).dump(); }
        else if (k == 7 || k == 8) {
            ParticleState s(ParticleType::MuMinus, Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 2000 + 1000 * a, 0, 0); calls.list = json::array();
            auto x = prop.Propagate(s, 1e4); for (auto& q : x.GetTrack()) o << show(q);
            if (k == 8) for (auto& q : x.GetDecayProducts()) o << show(q);
        } else if (k == 9) {
            multiple_scattering::Highland h(MuMinusDef(), water); auto q = h.CalculateRandomAngle(10, 1e4, 9e3, { a, .2, .3, .4 }); o << D(q.sx) << D(q.tx);
            o << D(SampleFromGaussian(1, 2, a * .98 + .01, -3, 5)) << D(SampleFromExponential(a, .5));
        } else {
            Integral i(20, 20, 1e-3); o << D(i.Integrate(0, 1, [](double x) { return x * x; }, 2)); o << D(Ice().GetMassDensity()); o << TauPlusDef().mass;
        }
        return o.str();
    };
    int cur = 0; std::map<int, int> own; std::map<int, std::string> slot;
    auto fresh = [&] { cur = 0; own.clear(); slot.clear(); R().SetDefaultRandomNumberGenerator(); t({ { "k", "fresh" }, { "steps", 0 } }); };
    auto install = [&](int k) { cur = k; std::function<double()> f = [&own, k] { int n = ++own[k]; return val(n); }; R().SetRandomNumberGenerator(f); };
    auto run = [&](json o) {
        std::string k = o["k"]; auto before = engine(); int c0 = cur ? own[cur] : 0;
        if (k == "seed") { int s = std::stoi(o["s"].get<std::string>()); R().SetSeed(s); o["isseed"] = engine() == std::mt19937(s); }
        else if (k == "draw") {
            json v = json::array(); for (int i = o["n"]; i > 0; --i) { double x = R().RandomDouble(); if (cur) { int n = own[cur]; v.push_back(x == val(n) ? n : -1); } else v.push_back(D(x)); }
            o["v"] = v;
        } else if (k == "lib") {
            int j = o.count("j") ? o["j"].get<int>() : g.i(0, NLIB - 1); double a = g.u(); o["j"] = j; o["thrown"] = thrown([&] { lib(j, a); });
            o["drawn"] = (cur ? own[cur] : 0) - c0;
            if (!cur) { long n = 0; for (auto& p : own) n += p.second; o["drawn"] = 0; }
            // is the source still the one installed?
            auto keep = engine(); int n0 = cur ? own[cur] : 0; std::vector<int> all; for (auto& p : own) all.push_back(p.second);
            o["steps"] = steps(before, keep); before = keep;
            R().RandomDouble(); bool moved = !(engine() == keep); int who = moved ? 0 : -1; for (auto& p : own) { int i = std::distance(own.begin(), own.find(p.first)); if (i < (int)all.size() && p.second != all[i]) who = who == -1 ? p.first : -2; }
            if (cur) own[cur] = n0; std::stringstream s; s << keep; R().Deserialize(s); o["source"] = who;
        } else if (k == "save") { std::ostringstream s; R().Serialize(s); slot[o["s"]] = s.str(); }
        else if (k == "restore") { std::istringstream s(slot[o["s"]]); R().Deserialize(s); std::ostringstream q; R().Serialize(q); o["same"] = q.str() == slot[o["s"]]; }
        else if (k == "own") install(o["g"]);
        else if (k == "default") { R().SetDefaultRandomNumberGenerator(); cur = 0; }
        if (!o.count("steps")) o["steps"] = k == "seed" || k == "restore" ? 0 : steps(before, engine());
        t(o);
    };
    fresh(); run({ { "k", "draw" }, { "n", 3 } });
    std::ifstream f(argv[2]); std::string l;
    while (std::getline(f, l)) { fresh(); for (auto& o : json::parse(l)) run(o); run({ { "k", "draw" }, { "n", 2 } }); if (cur) { run({ { "k", "default" } }); run({ { "k", "draw" }, { "n", 2 } }); } }
    for (int n = std::atoi(argv[3]); n > 0; --n) {
        fresh(); run({ { "k", "seed" }, { "s", std::to_string(g.i(-3, 40)) } }); bool sv[4] = {};
        for (int i = g.i(5, 20); i > 0; --i) switch (g.i(0, 8)) {
            case 0: run({ { "k", "seed" }, { "s", std::to_string(g.i(-3, 40)) } }); break;
            case 1: case 2: run({ { "k", "draw" }, { "n", g.i(1, 5) } }); break;
            case 3: { int s = g.i(1, 3); sv[s] = true; run({ { "k", "save" }, { "s", s } }); break; }
            case 4: { int s = g.i(1, 3); if (sv[s]) run({ { "k", "restore" }, { "s", s } }); break; }
            case 5: run({ { "k", "own" }, { "g", g.i(1, 3) } }); break;
            case 6: run({ { "k", "default" } }); break;
            default: run({ { "k", "lib" } });
        }
        run({ { "k", "draw" }, { "n", 2 } });
        // two equal runs with different histories between
        if (cur) run({ { "k", "default" } });
        int s = g.i(0, 1 << 30), j = g.i(0, NLIB - 1); double a = g.u(); auto seed = [&] { R().SetSeed(s); }; std::string r1, r2; auto at = engine();
        seed(); r1 = lib(j, a); auto e1 = engine(); for (int i = g.i(0, 4); i > 0; --i) lib(g.i(0, NLIB - 1), g.u()); if (g.i(0, 1)) { install(3); lib(g.i(0, NLIB - 1), .4); R().SetDefaultRandomNumberGenerator(); cur = 0; }
        seed(); r2 = lib(j, a); bool eq = r1 == r2 && engine() == e1; std::stringstream q; q << at; R().Deserialize(q); t({ { "k", "parted" }, { "j", j }, { "equal", eq }, { "steps", 0 } });
    }
}
