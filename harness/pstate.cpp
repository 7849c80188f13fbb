// Particle states under arbitrary histories of settings.
#include "vtrace.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/math/Spherical3D.h"
using namespace PROPOSAL;
static json js(ParticleState const& s) { return { { "ty", s.type }, { "p", D3(s.position) }, { "d", D3(s.direction) }, { "E", D(s.energy) }, { "t", D(s.time) }, { "l", D(s.propagated_distance) } }; }
static double num(json const& j) { return std::strtod(j.get<std::string>().c_str(), nullptr); }
static Cartesian3D vec(json const& j) { return Cartesian3D(num(j[0]), num(j[1]), num(j[2])); }
static void apply(std::vector<ParticleState>& o, json const& op) {
    auto k = op["k"].get<std::string>(); auto& s = o[op["i"].get<int>() - 1];
    if (k == "default") s = ParticleState();
    else if (k == "make") s = ParticleState((ParticleType)op["ty"].get<int>(), vec(op["p"]), vec(op["d"]), num(op["E"]), num(op["t"]), num(op["l"]));
    else if (k == "untyped") s = ParticleState(vec(op["p"]), vec(op["d"]), num(op["E"]), num(op["t"]), num(op["l"]));
    else if (k == "copy") { ParticleState c(o[op["j"].get<int>() - 1]); s = c; c.energy = -1; c.position.SetX(77); }
    else if (k == "type") s.SetType((ParticleType)op["v"].get<int>());
    else if (k == "mom") s.SetMomentum(num(op["v"]));
    else if (k == "E") s.energy = num(op["v"]);
    else if (k == "t") s.time = num(op["v"]);
    else if (k == "l") s.propagated_distance = num(op["v"]);
    else if (k == "p") s.position = vec(op["v"]);
    else if (k == "d") s.direction = vec(op["v"]);
    else std::exit(3);
}
struct Run {
    Trace& t; std::vector<ParticleState> o;
    Run(Trace& t, int n) : t(t), o(n) { json a = json::array(); for (auto& s : o) a.push_back(js(s)); t({ { "e", "new" }, { "objs", a } }); }
    void op(json const& op) {
        json e { { "e", "op" }, { "op", op } };
        e["thrown"] = thrown([&] { apply(o, op); });
        json objs = json::array(), q = json::array(), eq = json::array(), ne = json::array();
        for (auto& s : o) {
            ParticleState const& c = s; json a { { "mom", "0" }, { "mass", "0" }, { "ty", 0 } };
            a["thrown"] = thrown([&] { auto d = c.GetParticleDef(); a["mass"] = D(d.mass); a["ty"] = d.particle_type; });
            a["thrown2"] = thrown([&] { a["mom"] = D(c.GetMomentum()); });
            q.push_back(a);
            json r1 = json::array(), r2 = json::array();
            for (auto& u : o) { r1.push_back(c == u); r2.push_back(c != u); }
            eq.push_back(r1); ne.push_back(r2);
        }
        for (auto& s : o) objs.push_back(js(s));
        e["objs"] = objs; e["q"] = q; e["eq"] = eq; e["ne"] = ne; t(e);
    }
};
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed());
    json defs = json::array(); std::vector<int> types { 0, 4711, 81 };
    auto def = [&](ParticleDef const& d) { defs.push_back({ { "t", d.particle_type }, { "m", D(d.mass) } }); types.push_back(d.particle_type); };
    def(EMinusDef()); def(EPlusDef()); def(MuMinusDef()); def(MuPlusDef()); def(TauMinusDef()); def(TauPlusDef()); def(StauMinusDef()); def(StauPlusDef());
    def(Pi0Def()); def(PiMinusDef()); def(PiPlusDef()); def(K0Def()); def(KMinusDef()); def(KPlusDef()); def(NuEDef()); def(NuEBarDef()); def(NuMuDef()); def(NuMuBarDef());
    def(NuTauDef()); def(NuTauBarDef()); def(MonopoleDef()); def(GammaDef()); def(SMPMinusDef()); def(SMPPlusDef());
    auto world = [&] { t({ { "e", "world" }, { "defs", defs } }); };
    world();
    if (std::string(argv[2]) == "script") {
        std::ifstream f(argv[3]); std::string l;
        while (std::getline(f, l)) if (!l.empty()) { Run r(t, 2); for (auto& op : json::parse(l)) r.op(op); }
        return 0;
    }
    for (int n = std::atoi(argv[3]); n > 0; --n) {
        if (n % 20 == 0) { def(ParticleDef::Builder().SetParticleType(6000 + n).SetMass(g.i(0, 1) ? 0 : g.lu(1e-3, 1e7)).SetName("own").build()); world(); }
        Run r(t, 3);
        auto v = [&] { auto s = g.lu(1e-3, 1e12); return json::array({ D(g.i(0, 4) ? g.u(-s, s) : 0.), D(g.u(-s, s)), D(g.u(-s, s)) }); };
        auto x = [&] { return D(g.i(0, 5) ? g.lu(1e-6, 1e15) : 0.); };
        for (int k = 0; k < 14; ++k) {
            int i = g.i(1, 3), c = k < 2 ? 1 : g.i(0, 10); json op { { "i", i } };
            switch (c) {
            case 0: op["k"] = "default"; break;
            case 1: case 2: op["k"] = "make"; op["ty"] = g.pick(types); op["p"] = v(); op["d"] = v(); op["E"] = x(); op["t"] = x(); op["l"] = x(); break;
            case 3: op["k"] = "untyped"; op["p"] = v(); op["d"] = v(); op["E"] = x(); op["t"] = x(); op["l"] = x(); break;
            case 4: op["k"] = "copy"; op["j"] = g.i(1, 3); break;
            case 5: op["k"] = "type"; op["v"] = g.pick(types); break;
            case 6: case 7: op["k"] = "mom"; op["v"] = x(); break;
            case 8: op["k"] = std::string(1, "Etl"[g.i(0, 2)]); op["v"] = x(); break;
            default: op["k"] = g.i(0, 1) ? "p" : "d"; op["v"] = v();
            }
            r.op(op);
        }
        { // losses
            auto p = v(), d = v(), p1 = v(), d1 = v(); double E = g.lu(1, 1e9), P = g.lu(1, 1e9), tm = g.u(0, 9), l = g.lu(1, 1e9), t1 = g.u(0, 9); size_t h = g.g() % 2000000000;
            int ty = g.i(0, 1) ? 1000000000 + g.i(1, 16) : g.pick(types);
            StochasticLoss s(ty, E, vec(p), vec(d), tm, l, P, h); StochasticLoss c(s);
            auto f = [](int ty, double E, json p, json d, double t, double l, double P, size_t h) { return json { { "ty", ty }, { "E", D(E) }, { "p", p }, { "d", d }, { "t", D(t) }, { "l", D(l) }, { "parent", D(P) }, { "hash", std::to_string(h) } }; };
            t({ { "e", "stoch" }, { "x", f(ty, E, p, d, tm, l, P, h) }, { "y", f(c.type, c.energy, D3(c.position), D3(c.direction), c.time, c.propagated_distance, c.parent_particle_energy, c.target_hash) } });
            ContinuousLoss q(E, P, vec(p), vec(p1), vec(d), vec(d1), tm, t1); ContinuousLoss k(q);
            auto fc = [](int ty, double E, double P, json p0, json p1, json d0, json d1, double t0, double t1) { return json { { "ty", ty }, { "E", D(E) }, { "parent", D(P) }, { "p0", p0 }, { "p1", p1 }, { "d0", d0 }, { "d1", d1 }, { "t0", D(t0) }, { "t1", D(t1) } }; };
            t({ { "e", "cont" }, { "x", fc(8, E, P, p, p1, d, d1, tm, t1) }, { "y", fc(k.type - 1000000000, k.energy, k.parent_particle_energy, D3(k.start_position), D3(k.end_position), D3(k.direction_initial), D3(k.direction_final), k.time_initial, k.time_final) } });
        }
    }
}
