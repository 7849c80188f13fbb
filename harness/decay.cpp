// Decay tables under histories of operations, and decays of every channel.
#include "vtrace.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL;
using Defs = std::vector<ParticleDef>;
struct Ch { std::shared_ptr<DecayChannel> c; std::string kind; Defs d; };
static Ch lept(ParticleDef a, ParticleDef b, ParticleDef c, bool exact) {
    return { exact ? std::shared_ptr<DecayChannel>(new LeptonicDecayChannel(a, b, c)) : std::shared_ptr<DecayChannel>(new LeptonicDecayChannelApprox(a, b, c)), exact ? "exact" : "approx", { a, b, c } };
}
static Ch two(ParticleDef a, ParticleDef b) { return { std::make_shared<TwoBodyPhaseSpace>(a, b), "two", { a, b } }; }
static Ch many(Defs d, bool uniform, int me = 0) {
    ManyBodyPhaseSpace::Builder b; for (auto& x : d) b.addDaughter(x);
    if (me) b.setMatrixElement([](ParticleState const&, std::vector<ParticleState> const& p) { return p[0].energy * p[0].energy; });
    auto c = std::make_shared<ManyBodyPhaseSpace>(b.build()); c->SetUniformSampling(uniform);
    return { c, "many", d };
}
static double num(json const& j) { return std::strtod(j.get<std::string>().c_str(), nullptr); }
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed()); std::string mode = argv[2];
    Logging::SetGlobalLoglevel(spdlog::level::off);
    if (mode == "tables") {
        std::vector<Ch> ch { { std::make_shared<StableChannel>(), "stable", {} }, two(PiMinusDef(), NuTauDef()), lept(EMinusDef(), NuTauDef(), NuEBarDef(), false), two(KMinusDef(), NuTauDef()),
            lept(MuMinusDef(), NuTauDef(), NuMuBarDef(), true), many({ PiMinusDef(), Pi0Def(), NuTauDef() }, true), many({ PiMinusDef(), Pi0Def(), NuTauDef() }, false), many({ PiPlusDef(), Pi0Def(), NuTauBarDef() }, true), many({ PiPlusDef(), Pi0Def(), NuTauBarDef() }, false) };
        // numbers: 1 two, 2 approx, 3 two', 4 exact, 5 many uniform, 6 many direct, 7/8 other daughters, 9 stable
        std::rotate(ch.begin(), ch.begin() + 1, ch.end());
        auto which = [&](DecayChannel& c) { json a = 0; for (size_t i = 0; i < ch.size(); ++i) if (*ch[i].c == c && c == *ch[i].c) { if (a != 0) return json(-1); a = int(i) + 1; } return a; };
        auto run = [&](json const& ops) {
            std::vector<DecayTable> T(2);
            t({ { "e", "world" }, { "n", 2 }, { "stable", 9 }, { "uni", { 1, 2, 3, 4, 5, 5, 7, 7, 9 } }, { "direct", { 1, 2, 3, 4, 6, 6, 8, 8, 9 } } });
            bool used[2] = { false, false };
            for (auto& op : ops) {
                auto k = op["k"].get<std::string>(); int i = op["i"].get<int>() - 1, j = op.value("j", 1) - 1; bool noop = false;
                auto th = thrown([&] {
                    if (k == "add") { auto c = std::unique_ptr<DecayChannel>(ch[op["ch"].get<int>() - 1].c->clone()); T[i].addChannel(num(op["br"]), *c); used[i] = true; }
                    else if (k == "selfadd") { if (used[i]) T[i].addChannel(num(op["br"]), T[i].SelectChannel(0)); }
                    else if (k == "copy") { T[i].~DecayTable(); new (&T[i]) DecayTable(T[j]); used[i] = used[j]; }
                    else if (k == "assign") { T[i] = T[j]; used[i] = used[j]; }
                    else if (k == "swap") { swap(T[i], T[j]); std::swap(used[i], used[j]); }
                    else if (k == "stable") { T[i].SetStable(); used[i] = true; }
                    else if (k == "uniform") T[i].SetUniformSampling(op["v"].get<bool>());
                });
                json sel = json::array(), eq = json::array(), ne = json::array();
                for (int a = 0; a < 2; ++a) {
                    json s = json::array();
                    if (used[a]) for (double r : { 0., g.u(), g.u(), g.u(), 1 - 0x1p-53, .25, .5 }) s.push_back({ { "r", D(r) }, { "ch", which(static_cast<DecayTable const&>(T[a]).SelectChannel(r)) } });
                    sel.push_back(s);
                    json r1 = json::array(), r2 = json::array();
                    for (auto& b : T) { r1.push_back(T[a] == b); r2.push_back(T[a] != b); }
                    eq.push_back(r1); ne.push_back(r2);
                }
                t({ { "e", "table" }, { "op", op }, { "thrown", th }, { "sel", sel }, { "eq", eq }, { "ne", ne } });
            }
        };
        t({ { "e", "empty" }, { "thrown", thrown([] { DecayTable().SelectChannel(.5); }) } });
        std::ifstream f(argv[3]); std::string l;
        while (std::getline(f, l)) if (!l.empty()) run(json::parse(l));
        for (int n = std::atoi(argv[4]); n > 0; --n) {
            json ops = json::array(); std::vector<std::string> brs { "0.1", D(g.u()), D(g.lu(1e-12, 1e3)), "1" };
            for (int k = 0; k < 12; ++k) {
                int c = k < 2 ? 0 : g.i(0, 12), i = g.i(1, 2); json op { { "i", i } };
                if (c < 6) { op["k"] = "add"; op["br"] = g.pick(brs); op["ch"] = g.i(1, 9); }
                else if (c == 6) { op["k"] = "copy"; op["i"] = 2; op["j"] = 1; }
                else if (c == 7) { op["k"] = "assign"; op["j"] = g.i(1, 2); }
                else if (c == 8) { op["k"] = "swap"; op["i"] = 1; op["j"] = 2; }
                else if (c == 9) op["k"] = "stable";
                else { op["k"] = "uniform"; op["v"] = g.i(0, 1) == 1; }
                ops.push_back(op);
            }
            run(ops);
        }
        return 0;
    }
    // decays
    std::vector<double> stream; std::function<double()> own = [&] { double r; int c = g.i(0, 40); r = c == 0 ? 1e-6 : c == 1 ? 1 - 1e-6 : c == 2 ? .5 : g.u(); stream.push_back(r); return r; };
    RandomGenerator::Get().SetRandomNumberGenerator(own);
    auto st = [](ParticleState const& s) { json j { { "ty", s.type }, { "E", D(s.energy) }, { "d", D3(s.direction) }, { "p", D3(s.position) }, { "t", D(s.time) }, { "l", D(s.propagated_distance) } }; j["m"] = "0"; thrown([&] { j["m"] = D(s.GetParticleDef().mass); }); return j; };
    auto rdir = [&] { Cartesian3D d(g.u(-1, 1), g.u(-1, 1), g.u(-1, 1)); int c = g.i(0, 5); if (c == 0) d = Cartesian3D(0, 0, g.i(0, 1) ? 1 : -1); if (c == 1) d = Cartesian3D(g.u(-1, 1) * 1e-6, 0, 1); d.normalize(); return d; };
    auto decay = [&](ParticleDef const& p, Ch& c, double tol) {
        int k = g.i(0, 3); double E = k == 0 ? p.mass : k == 1 ? p.mass * (1 + g.lu(1e-9, 1)) : p.mass * g.lu(1, 1e8);
        double sc = g.lu(1e-2, 1e10);
        ParticleState s((ParticleType)p.particle_type, Cartesian3D(g.u(-sc, sc), g.u(-sc, sc), g.u(-sc, sc)), rdir(), E, g.u(0, 10), g.u(0, 1e5));
        stream.clear(); json types = json::array(); for (auto& d : c.d) types.push_back({ { "t", d.particle_type }, { "m", D(d.mass) } });
        auto prods = c.c->Decay(p, s); json pr = json::array(); for (auto& q : prods) pr.push_back(st(q));
        json parent = st(s); parent["m"] = D(p.mass);
        bool lepton = k == 0 && (c.kind == "approx" || c.kind == "exact");
        t({ { "e", "decay" }, { "kind", c.kind }, { "parent", parent }, { "types", types }, { "products", pr }, { "tol", D(tol) }, { "lepton", lepton }, { "exact", c.kind == "exact" }, { "rnd", D(stream.empty() ? 0 : stream[0]) } });
    };
    Defs all { EMinusDef(), EPlusDef(), MuMinusDef(), MuPlusDef(), PiMinusDef(), PiPlusDef(), Pi0Def(), KMinusDef(), KPlusDef(), K0Def(), NuEDef(), NuEBarDef(), NuMuDef(), NuMuBarDef(), NuTauDef(), NuTauBarDef(), GammaDef(), TauMinusDef() };
    Defs nu { NuEDef(), NuEBarDef(), NuMuDef(), NuMuBarDef(), NuTauDef(), NuTauBarDef() }, le { EMinusDef(), EPlusDef(), MuMinusDef(), MuPlusDef(), TauMinusDef(), TauPlusDef() };
    std::vector<Ch> kept;
    int idn = 7000;
    for (int n = std::atoi(argv[3]); n > 0; --n) {
        { // boosts
            auto d = g.pick(all); ParticleState a((ParticleType)d.particle_type, Cartesian3D(1, 2, 3), rdir(), d.mass * g.lu(1, 1e4) + g.lu(1e-3, 1e3), 4, 5);
            double bg = g.lu(1e-3, 1e4); auto nv = rdir() * (g.i(0, 1) ? 1 : g.lu(.1, 10)); auto b = a;
            DecayChannel::Boost(b, nv, std::sqrt(1 + bg * bg), bg);
            json ja = st(a), jb = st(b); t({ { "e", "boost" }, { "a", ja }, { "n", D3(nv) }, { "g", D(std::sqrt(1 + bg * bg)) }, { "bg", D(bg) }, { "b", jb } });
            double m2 = g.i(0, 2) ? g.lu(1e-3, 1e3) : 0, m3 = g.i(0, 2) ? g.lu(1e-3, 1e3) : 0, m1 = (m2 + m3 + 1e-3) * (1 + g.lu(1e-6, 1e3));
            t({ { "e", "two" }, { "m1", D(m1) }, { "m2", D(m2) }, { "m3", D(m3) }, { "k", D(DecayChannel::Momentum(m1, m2, m3)) } });
            stream.clear(); auto dir = DecayChannel::GenerateRandomDirection(); t({ { "e", "dir" }, { "d", D3(dir) }, { "r2", D(stream.size() == 2 ? stream[1] : -9) } });
        }
        // parents: the unstable ones with their own tables, and made-up ones
        for (ParticleDef p : { ParticleDef(MuMinusDef()), ParticleDef(MuPlusDef()) }) { bool m = p.particle_type > 0; auto c = lept(m ? ParticleDef(EMinusDef()) : ParticleDef(EPlusDef()), m ? ParticleDef(NuMuDef()) : ParticleDef(NuMuBarDef()), m ? ParticleDef(NuEBarDef()) : ParticleDef(NuEDef()), g.i(0, 1)); decay(p, c, 1e-7); }
        { auto c = lept(MuMinusDef(), NuTauDef(), NuMuBarDef(), g.i(0, 1)); decay(TauMinusDef(), c, 1e-7); }
        double M = g.lu(1, 1e5);
        auto below = [&](double m) { Defs r; for (auto& d : all) if (d.mass < m) r.push_back(d); return r; };
        auto P = ParticleDef::Builder().SetParticleType(idn++).SetMass(M).SetName("own").build();
        { auto a = g.pick(below(M * .999)), b = g.pick(below((M - a.mass) * .999)); auto c = two(a, b); decay(P, c, 1e-9); }
        { Defs l; for (auto& d : le) if (d.mass < .9 * M) l.push_back(d); if (!l.empty()) { auto c = lept(g.pick(l), g.pick(nu), g.pick(nu), g.i(0, 1)); decay(P, c, 1e-7); } }
        { int k = g.i(2, 5); Defs d; double left = M * .98; for (int i = 0; i < k; ++i) { d.push_back(g.pick(below(left))); left -= d.back().mass; }
          kept.push_back(many(d, k < 5 && g.i(0, 1), k < 4 && g.i(0, 3) == 0)); decay(P, kept.back(), 1e-8);
          Ch c2 = kept.back(); c2.c.reset(c2.c->clone()); decay(P, c2, 1e-8);
          // the same channel for another parent: nothing of the first one may be kept
          auto Q = ParticleDef::Builder().SetParticleType(idn++).SetMass(M * g.u(1.5, 3)).SetName("own2").build(); decay(Q, kept.back(), 1e-8); decay(P, kept.back(), 1e-8);
        }
        { Ch s { std::make_shared<StableChannel>(), "stable", {} }; decay(P, s, 1e-9); }
        for (ParticleDef p : { ParticleDef(TauMinusDef()), ParticleDef(TauPlusDef()), ParticleDef(KPlusDef()), ParticleDef(KMinusDef()), ParticleDef(PiPlusDef()), ParticleDef(Pi0Def()), ParticleDef(MuPlusDef()) }) {
            auto& c = p.decay_table.SelectChannel(g.u()); Ch k { std::shared_ptr<DecayChannel>(c.clone()), "own", {} };
            // types as the products say; they must be those of a second decay
            ParticleState s((ParticleType)p.particle_type, Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), p.mass * 3, 0, 0);
            for (auto& q : c.Decay(p, s)) k.d.push_back(q.GetParticleDef());
            decay(p, k, 1e-7);
        }
    }
    RandomGenerator::Get().SetDefaultRandomNumberGenerator();
}
