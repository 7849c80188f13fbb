// Registries of particles, media and components under histories.
//   reg TRACE virgin | script FILE | random N
#include "vtrace.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
using namespace PROPOSAL;
void names(Trace& t, Rng& g, int n); // reg_names.h: the media by name, in a unit of their own
static std::vector<DecayTable> decays() { static std::vector<DecayTable> d { DecayTable(), DecayTable().addChannel(1.1, StableChannel()), DecayTable().addChannel(1., TwoBodyPhaseSpace(EMinusDef(), NuEBarDef())), DecayTable().addChannel(.5, TwoBodyPhaseSpace(EMinusDef(), NuEBarDef())) }; return d; }
static HardComponentTables::VecType own { { 1, 2 }, { 3, 4 } };
static int tab(HardComponentTables::VecType const& v) { return v == HardComponentTables::EmptyTable ? 0 : v == HardComponentTables::MuonTable ? 1 : v == HardComponentTables::TauTable ? 2 : v == own ? 3 : -1; }
static json def(ParticleDef const& p) {
    auto d = decays(); int k = -1; for (size_t i = 0; i < d.size(); ++i) if (d[i] == p.decay_table) k = i;
    return { { "name", p.name }, { "mass", D(p.mass) }, { "low", D(p.low) }, { "life", D(p.lifetime) }, { "charge", D(p.charge) }, { "table", tab(p.hard_component_table) }, { "decay", k }, { "type", p.particle_type }, { "partner", p.weak_partner } };
}
struct C { std::string name; double Z, A, n; json js() const { return { { "name", name }, { "Z", D(Z) }, { "A", D(A) }, { "n", D(n) } }; } Component make() const { return Component(name, Z, A, n); } };
static json comp(Component const& c) { return C { c.GetName(), c.GetNucCharge(), c.GetAtomicNum(), c.GetAtomInMolecule() }.js(); }
struct M {
    std::string name; double p[8]; std::vector<C> c;
    json js() const { json j { { "name", name } }; int i = 0; for (auto k : { "I", "C", "a", "m", "X0", "X1", "d0", "rho" }) j[k] = D(p[i++]); j["comps"] = json::array(); for (auto& x : c) j["comps"].push_back(x.js()); return j; }
    Medium make() const { std::vector<Component> v; for (auto& x : c) v.push_back(x.make()); return Medium(name, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], v); }
};
static json med(Medium const& m) {
    json j { { "name", m.GetName() }, { "I", D(m.GetI()) }, { "C", D(m.GetC()) }, { "a", D(m.GetA()) }, { "m", D(m.GetM()) }, { "X0", D(m.GetX0()) }, { "X1", D(m.GetX1()) }, { "d0", D(m.GetD0()) }, { "rho", D(m.GetMassDensity()) } };
    j["comps"] = json::array(); j["w"] = json::array(); for (auto& c : m.GetComponents()) { j["comps"].push_back(comp(c)); j["w"].push_back(D(c.GetAverageNucleonWeight())); }
    j["sumZ"] = D(m.GetSumCharge()); j["sumA"] = D(m.GetSumNucleons()); j["ZA"] = D(m.GetZA()); j["mol"] = D(m.GetMolDensity()); j["MM"] = D(m.GetMM()); return j;
}
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed()); std::string mode = argv[2]; Logging::SetGlobalLoglevel(spdlog::level::off);
    auto nohash = [&](size_t h) { for (int k = 0; k < 2; ++k) t({ { "k", "nohash" }, { "what", k }, { "thrown", thrown([&] { if (k) Medium::GetMediumForHash(h); else Component::GetComponentForHash(h); }) } }); };
    auto type = [&](int ty) { json j { { "k", "type" }, { "t", ty }, { "got", json::object() } }; j["thrown"] = thrown([&] { j["got"] = def(ParticleDef::GetParticleDefForType(ty)); }); t(j); };
    if (mode == "virgin") { // the first thing a process does
        t({ { "k", "start" } });
        int k = std::atoi(argv[3]);
        if (k == 0) type(-13); else if (k == 1) type(12345); else if (k == 2) nohash(42); else if (k == 3) { TauPlusDef p; type(15); } else { auto w = Water(); nohash(7); }
        for (int ty : { 11, 0, -16, 1000015, 77, -41, 2212 }) type(ty);
        return 0;
    }
    std::vector<ParticleDef> built; // constructed as a user does
    for (auto& p : std::initializer_list<ParticleDef> { EMinusDef(), EPlusDef(), NuEDef(), NuEBarDef(), MuMinusDef(), MuPlusDef(), NuMuDef(), NuMuBarDef(), TauMinusDef(), TauPlusDef(), NuTauDef(), NuTauBarDef(), GammaDef(), Pi0Def(), PiPlusDef(), PiMinusDef(), K0Def(), KPlusDef(), KMinusDef(), MonopoleDef(), SMPPlusDef(), SMPMinusDef(), StauPlusDef(), StauMinusDef() }) built.push_back(p);
    auto ref = [&](int ty) { json r = json::array(); for (auto& p : built) if (p.particle_type == ty) r.push_back(def(p)); return r; };
    auto anti = [&](ParticleDef const& p) -> ParticleDef const& { for (auto& q : built) if (p.particle_type != 41 && q.particle_type == -p.particle_type) return q; return p; };
    t({ { "k", "start" } });
    for (auto& p : built) { auto& a = anti(p); t({ { "k", "builtin" }, { "def", def(p) }, { "got", def(ParticleDef::GetParticleDefForType(p.particle_type)) }, { "anti", a.particle_type }, { "antimass", D(a.mass) }, { "antilife", D(a.lifetime) } }); }
    struct P { std::string name; double mass, low, life, charge; int table, decay, type, partner; };
    auto tables = [&](int i) -> HardComponentTables::VecType const& { return i == 0 ? HardComponentTables::EmptyTable : i == 1 ? HardComponentTables::MuonTable : i == 2 ? HardComponentTables::TauTable : own; };
    auto particle = [&](P p) {
        json j { { "k", "particle" }, { "got", json::object() }, { "ref", ref(p.type) } };
        j["def"] = { { "name", p.name }, { "mass", D(p.mass) }, { "low", D(p.low) }, { "life", D(p.life) }, { "charge", D(p.charge) }, { "table", p.table }, { "decay", p.decay }, { "type", p.type }, { "partner", p.partner } };
        j["thrown"] = thrown([&] { ParticleDef x(p.name, p.mass, p.low, p.life, p.charge, tables(p.table), decays()[p.decay], p.type, p.partner); j["got"] = def(x); });
        t(j);
    };
    long nr = 0; int fresh_type = 20000;
    auto history = [&](json const& ops) {
        ++nr; t({ { "k", "start" } }); int T = fresh_type; fresh_type += 3;
        P p0 { "p" + std::to_string(nr), g.lu(1, 1e5), 0, g.i(0, 1) ? -1 : g.lu(1e-12, 1e-3), double(g.i(-2, 2)), g.i(0, 3), g.i(0, 3), T + 1, g.i(0, 1) ? 0 : 12 }; p0.low = p0.mass;
        auto pv = [&](int i) { P p = p0; if (i == 2) switch (nr % 4) { case 0: p.mass *= 1.0000001; break; case 1: p.charge += 1; break; case 2: p.life = p.life < 0 ? 1 : p.life * 2; break; default: p.low *= 2; } if (i == 3) p.type = T + 2; if (i == 4) p.name += "x"; if (i == 5) { if (nr % 3 == 0) p.table = (p.table + 1) % 4; else if (nr % 3 == 1) p.decay = (p.decay + 1) % 4; else p.partner = p.partner ? 0 : 14; } return p; };
        M m0; m0.name = "m" + std::to_string(nr); for (auto& x : m0.p) x = g.u(.1, 10); for (int i = g.i(2, 4); i > 0; --i) m0.c.push_back({ "c" + std::to_string(i), std::round(g.u(1, 92)), g.u(1, 240) + i, g.i(0, 1) ? g.i(1, 4) : g.u(.1, 5) });
        auto mv = [&](int i) { M m = m0; if (i == 2) m.name += "x"; if (i == 3) m.p[nr % 8] *= 1.0000001; if (i == 4) std::swap(m.c[0], m.c[1]); if (i == 5) m.c[0].n *= 2; if (i == 6) m.c[1].name += "x"; return m; };
        auto cv = [&](int i) { C c = m0.c[0]; if (i == 2) c.name += "x"; if (i == 3) c.Z += 1; if (i == 4) c.n += 1; if (i == 5) c.A += .5; return c; };
        std::map<int, size_t> mh, ch;
        for (auto& o : ops) {
            std::string k = o["k"]; int i = o.value("i", 0);
            if (k == "particle") particle(pv(i));
            else if (k == "type") type(T + o["t"].get<int>());
            else if (k == "medium") { auto x = mv(i).make(); mh[i] = x.GetHash(); for (size_t q = 0; q < x.GetComponents().size(); ++q) if (q == 0) ch[1] = x.GetComponents()[0].GetHash(); t({ { "k", "medium" }, { "m", mv(i).js() }, { "got", med(x) } }); }
            else if (k == "comp") { auto x = cv(i).make(); ch[i] = x.GetHash(); t({ { "k", "comp" }, { "c", cv(i).js() } }); }
            else if (k == "medhash" && mh.count(i)) { json j { { "k", k }, { "m", mv(i).js() }, { "got", json::object() } }; j["thrown"] = thrown([&] { j["got"] = med(Medium::GetMediumForHash(mh[i])); }); t(j); }
            else if (k == "comphash" && ch.count(i)) { if (i == 1 && mh.size() && (mh.begin()->first == 4 || mh.begin()->first == 5)) continue; json j { { "k", k }, { "c", cv(i).js() }, { "got", json::object() } }; j["thrown"] = thrown([&] { j["got"] = comp(Component::GetComponentForHash(ch[i])); }); t(j); }
            else nohash(g.g());
        }
    };
    if (mode == "script") { std::ifstream f(argv[3]); std::string l; while (std::getline(f, l)) history(json::parse(l)); return 0; }
    for (int n = std::atoi(argv[3]); n > 0; --n) {
        json ops = json::array();
        for (int i = g.i(5, 15); i > 0; --i) switch (g.i(0, 5)) {
            case 0: ops.push_back({ { "k", "particle" }, { "i", g.i(1, 5) } }); break; case 1: ops.push_back({ { "k", "type" }, { "t", g.i(0, 2) } }); break;
            case 2: ops.push_back({ { "k", "medium" }, { "i", g.i(1, 6) } }); break; case 3: ops.push_back({ { "k", "medhash" }, { "i", g.i(1, 6) } }); break;
            case 4: ops.push_back({ { "k", "comp" }, { "i", g.i(2, 5) } }); break; default: ops.push_back({ { "k", "comphash" }, { "i", g.i(2, 5) } }); break;
        }
        history(ops);
        // built-in types with own content are refused, with their own content accepted
        auto b = g.pick(built); int k = g.i(0, 4);
        json j { { "k", "particle" }, { "ref", ref(b.particle_type) }, { "got", json::object() } }; json d = def(b);
        if (k == 0) d["name"] = "other"; if (k == 1) d["mass"] = D(b.mass + 1); if (k == 2) d["charge"] = D(b.charge + 1); if (k == 3) d["partner"] = b.weak_partner + 1;
        j["def"] = d; j["thrown"] = thrown([&] { ParticleDef x(d["name"], std::strtod(d["mass"].get<std::string>().c_str(), nullptr), b.low, b.lifetime, std::strtod(d["charge"].get<std::string>().c_str(), nullptr), b.hard_component_table, b.decay_table, b.particle_type, d["partner"]); j["got"] = def(x); });
        t(j);
        { double m = g.lu(1, 1e5), lo = g.i(0, 1) ? g.lu(.1, 1) * m : m * g.u(1, 3); auto x = ParticleDef::Builder().SetMass(m).SetLow(lo).SetName("b").SetParticleType(fresh_type++).SetCharge(g.i(-1, 1)).build(); auto y = ParticleDef::Builder().SetParticleDef(x).build(); t({ { "k", "builder" }, { "set", D(lo) }, { "mass", D(m) }, { "low", D(x.low) }, { "copied", x == y && y == x && !(x != y) } }); }
    }
    names(t, g, std::atoi(argv[3]));
}
#include "PROPOSAL/medium/MediumFactory.h"
void names(Trace& t, Rng& g, int n) {
    std::vector<std::pair<std::string, Medium>> all { { "waterpdg2001", PDG2001::Water() }, { "waterpdg2020", PDG2020::Water() }, { "icepdg2001", PDG2001::Ice() }, { "icepdg2020", PDG2020::Ice() }, { "salt", Salt() }, { "standardrock", StandardRock() }, { "frejusrock", FrejusRock() }, { "iron", Iron() }, { "hydrogen", Hydrogen() }, { "lead", Lead() }, { "copper", Copper() }, { "uranium", Uranium() }, { "air", Air() }, { "paraffin", Paraffin() }, { "antareswater", AntaresWater() }, { "cascadiabasinwater", CascadiaBasinWater() }, { "liquidargon", LiquidArgon() }, { "calciumcarbonate", CalciumCarbonate() } };
    auto equal = [&](Medium const& m) { json e = json::array(); for (auto& a : all) if (a.second == m && a.second.GetHash() == m.GetHash()) e.push_back(a.first); return e; };
    std::vector<std::string> base(Medium_Name.begin(), Medium_Name.end()); for (auto s : { "", "wate", "waterr", "vacuum", "pdg2001", "water ", "standard rock", "rock" }) base.push_back(s);
    for (int i = -2; i < 22; ++i) { json j { { "k", "kind" }, { "i", i }, { "equal", json::array() } }; j["thrown"] = thrown([&] { j["equal"] = equal(*CreateMedium((Medium_Type)i)); }); t(j); }
    for (int k = 0; k < n; ++k) for (auto s : base) {
        for (auto& c : s) if (k > 0) c = k == 1 || g.i(0, 1) ? std::toupper(c) : c;
        if (k > 1 && g.i(0, 20) == 0) s += g.i(0, 1) ? "x" : "é";
        std::string low = s; for (auto& c : low) c = std::tolower((unsigned char)c);
        json j { { "k", "name" }, { "name", s }, { "low", low }, { "equal", json::array() } }; j["thrown"] = thrown([&] { j["equal"] = equal(*CreateMedium(s)); }); t(j);
        if (n > 40) k += 5;
    }
    for (auto& a : all) { auto h = a.second.GetHash(); json j { { "k", "medium" }, { "m", med(a.second) }, { "got", med(a.second) } }; t(j); json q { { "k", "medhash" }, { "m", med(a.second) } }; q["thrown"] = thrown([&] { q["got"] = med(Medium::GetMediumForHash(h)); }); t(q); }
}
