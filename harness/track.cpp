// LIB=full
// Builds tracks in worlds of known physics and puts every query to them.
//   track TRACE random <count> <part>     part: state | losses | geo
//   track TRACE script <file> <part>      tracks from the specification
#include "world.h"
#include "PROPOSAL/particle/ParticleDef.h"

struct Builder {
    Trace& tr; Rng& r; std::vector<Sec> secs; std::vector<std::shared_ptr<Geometry>> geos; std::vector<Sector> sectors; Calls calls;
    std::unique_ptr<Secondaries> t; std::vector<ParticleState> pts; std::vector<InteractionType> types;
    Builder(Trace& tr, Rng& r, std::vector<Sec> s) : tr(tr), r(r), secs(s) {
        json w = json::array();
        for (auto& x : secs) { std::shared_ptr<Geometry> g; sectors.push_back(x.make(calls, g)); geos.push_back(g); w.push_back(x.js()); }
        tr({ { "e", "world" }, { "sectors", w } });
        t = std::make_unique<Secondaries>(std::make_shared<ParticleDef>(MuMinusDef()), sectors);
    }
    int sector(Cartesian3D const& p, Cartesian3D const& d) const {
        int b = -1;
        for (size_t i = 0; i < secs.size(); ++i) if (geos[i]->IsInside(p, d) && (b < 0 || secs[i].h > secs[b].h)) b = i;
        return b;
    }
    void push(ParticleState p, InteractionType ty, size_t hash, int sec) {
        int how = r.i(0, 2);
        if (r.i(0, 5) == 0) t->reserve(r.i(0, 50));
        if (how) t->push_back(p, ty, hash);
        else t->emplace_back((ParticleType)p.type, p.position, p.direction, p.energy, p.time, p.propagated_distance, ty, hash);
        pts.push_back(p); types.push_back(ty);
        json j = state(p); j["type"] = ity(ty); j["hash"] = std::to_string(hash); j["sec"] = sec + 1;
        tr({ { "e", "push" }, { "pt", j } });
    }
    // continuous step of length L (cut at the next sector border), new direction afterwards
    bool step(double L, Cartesian3D const& u, Cartesian3D const& after) {
        ParticleState q = pts.back();
        int s = sector(q.position, u);
        if (s < 0) return false;
        double b = geos[s]->DistanceToBorder(q.position, u).first;
        for (size_t i = 0; i < secs.size(); ++i) if (secs[i].h > secs[s].h) { double x = geos[i]->DistanceToBorder(q.position, u).first; if (x >= 0) b = std::min(b, x); }
        if (L > b) L = b;
        auto& w = secs[s];
        MockDisp disp(w.a, w.b, 0); double X = w.rho * L, E = L > 0 ? disp.UpperLimitTrackIntegral(q.energy, X) : q.energy;
        if (E < 106) return false;
        q.time += w.exact ? w.kt * (q.energy - E) / w.rho : X / (w.rho * SPEED);
        q.energy = E; q.position = q.position + L * u; q.propagated_distance += L; q.direction = after;
        push(q, InteractionType::ContinuousEnergyLoss, 0, s);
        return true;
    }
    void loss(double v, InteractionType ty, size_t hash, Cartesian3D const& after) {
        ParticleState q = pts.back(); q.energy *= 1 - v; if (q.energy < 106) return; q.direction = after;
        push(q, ty, hash, 0);
    }
};
static json sl(std::vector<StochasticLoss> const& v) {
    json a = json::array();
    for (auto& x : v) a.push_back({ { "ty", x.type - 1000000000 }, { "E", D(x.energy) }, { "parent", D(x.parent_particle_energy) }, { "p", D3(x.position) }, { "d", D3(x.direction) }, { "t", D(x.time) }, { "s", D(x.propagated_distance) }, { "hash", std::to_string(x.target_hash) } });
    return a;
}
static json cl(std::vector<ContinuousLoss> const& v) {
    json a = json::array();
    for (auto& x : v) a.push_back({ { "ty", x.type - 1000000000 }, { "E", D(x.energy) }, { "parent", D(x.parent_particle_energy) }, { "p0", D3(x.start_position) }, { "p1", D3(x.end_position) }, { "d0", D3(x.direction_initial) }, { "d1", D3(x.direction_final) }, { "t0", D(x.time_initial) }, { "t1", D(x.time_final) } });
    return a;
}
static json all(std::vector<ParticleState> const& v) { json a = json::array(); for (auto& x : v) a.push_back(state(x)); return a; }
static std::vector<InteractionType> const kinds = { InteractionType::Brems, InteractionType::Ioniz, InteractionType::Epair, InteractionType::Photonuclear, InteractionType::MuPair, InteractionType::Compton, InteractionType::WeakInt, InteractionType::Annihilation, InteractionType::Photopair, InteractionType::Photoproduction, InteractionType::PhotoMuPair, InteractionType::Photoeffect };

static void getters(Builder& b) {
    auto& t = *b.t; json pos = json::array(), dir = json::array(), ty = json::array(), h = json::array();
    for (auto& p : t.GetTrackPositions()) pos.push_back(D3(p));
    for (auto& p : t.GetTrackDirections()) dir.push_back(D3(p));
    for (auto x : t.GetTrackTypes()) ty.push_back(ity(x));
    for (auto x : t.GetTargetHashes()) h.push_back(std::to_string(x));
    json e = { { "e", "getters" }, { "len", t.GetTrackLength() }, { "track", all(t.GetTrack()) }, { "types", ty }, { "hashes", h }, { "E", DV(t.GetTrackEnergies()) }, { "t", DV(t.GetTrackTimes()) }, { "s", DV(t.GetTrackPropagatedDistances()) }, { "pos", pos }, { "dir", dir } };
    if (t.GetTrackLength()) { e["first"] = state(t.GetInitialState()); e["last"] = state(t.GetFinalState()); e["back"] = state(t.back()); }
    b.tr(e);
}
static void ask_state(Builder& b) {
    auto& t = *b.t; auto& r = b.r; auto& P = b.pts; size_t n = P.size();
    double E0 = P.front().energy, E1 = P.back().energy, s0 = P.front().propagated_distance, s1 = P.back().propagated_distance;
    std::vector<double> qs { E0, E1, E0 * 1.5, E1 * .5 }, ds { s0, s1, s0 - 1, s1 + 1 };
    for (int k = 0; k < 6; ++k) { qs.push_back(r.u(E1, E0)); ds.push_back(r.u(s0, s1)); qs.push_back(P[r.i(0, n - 1)].energy); ds.push_back(P[r.i(0, n - 1)].propagated_distance);
        size_t i = r.i(1, std::max<int>(1, n - 1)); if (i < n) { qs.push_back((P[i].energy + P[i - 1].energy) / 2); ds.push_back((P[i].propagated_distance + P[i - 1].propagated_distance) / 2); } }
    for (double q : qs) b.tr({ { "e", "energy" }, { "q", D(q) }, { "r", state(t.GetStateForEnergy(q)) } });
    for (double q : ds) b.tr({ { "e", "distance" }, { "q", D(q) }, { "r", state(t.GetStateForDistance(q)) } });
}
static json ins(Builder& b, Geometry const& g) { json a = json::array(); for (auto& p : b.pts) a.push_back(g.IsInside(p.position, p.direction)); return a; }
static Shape rnd_shape(Rng& r, double size) {
    Shape s; int k = r.i(0, 2); s.kind = k == 0 ? "box" : k == 1 ? "sphere" : "cylinder";
    if (k == 0) { s.x = 2 * size * r.u(.4, 1); s.y = 2 * size * r.u(.4, 1); s.z = 2 * size * r.u(.4, 1); }
    else { s.ro = size; s.ri = r.i(0, 1) ? 0 : size * r.u(.2, .8); s.z = 2 * size * r.u(.3, 1.2); }
    return s;
}
static Shape ask_shape(Builder& b) { // a geometry somewhere on the track, or one of the sectors
    auto& r = b.r;
    if (r.i(0, 3) == 0) return b.secs[r.i(0, b.secs.size() - 1)].g;
    double len = std::max(1., b.pts.back().propagated_distance - b.pts.front().propagated_distance);
    if (r.i(0, 4) == 0) for (size_t i = 1; i < b.pts.size(); ++i) { // the track begins on the border: looking away from what it enters, or into what it leaves
        auto u = b.pts[i].position - b.pts[0].position; if (u.magnitude() == 0) continue; u.normalize(); auto c = u - b.pts[0].direction; if (c.magnitude() < .02) break; c.normalize(); if (r.i(0, 3) == 0) c = -c;
        Shape s; s.kind = "sphere"; s.ro = std::min(3e3, len * r.lu(.1, 10)); auto q = b.pts[0].position + s.ro * c; for (int k = 0; k < 3; ++k) s.c[k] = q[k]; return s;
    }
    Shape s = rnd_shape(r, len * r.lu(.02, 1));
    auto& p = b.pts[r.i(0, b.pts.size() - 1)].position; double off = r.i(0, 3) ? .3 * len : 0;
    for (int k = 0; k < 3; ++k) s.c[k] = p[k] + off * r.u(-1, 1);
    return s;
}
static void ask_losses(Builder& b) {
    auto& t = *b.t; auto& r = b.r;
    json bt = json::array(), bn = json::array();
    for (auto k : kinds) { if (r.i(0, 1)) bt.push_back({ { "ty", ity(k) }, { "r", sl(t.GetStochasticLosses(k)) } }); else bn.push_back({ { "ty", ity(k) }, { "r", sl(t.GetStochasticLosses(Type_Interaction_Name_Map.at(k))) } }); }
    b.tr({ { "e", "losses" }, { "stoch", sl(t.GetStochasticLosses()) }, { "cont", cl(t.GetContinuousLosses()) }, { "bytype", bt }, { "byname", bn }, { "unknown", thrown([&] { t.GetStochasticLosses(std::string("no such interaction")); }) } });
    for (int k = 0; k < 3; ++k) { auto s = ask_shape(b); auto g = s.make(); b.tr({ { "e", "geoloss" }, { "g", s.js() }, { "ins", ins(b, *g) }, { "stoch", sl(t.GetStochasticLosses(*g)) }, { "cont", cl(t.GetContinuousLosses(*g)) } }); }
    b.tr({ { "e", "decay" }, { "products", all(t.GetDecayProducts()) } });
}
static void ask_geo(Builder& b, Shape const& s) {
    auto& t = *b.t; auto g = s.make();
    auto en = t.GetEntryPoint(*g), ex = t.GetExitPoint(*g);
    b.tr({ { "e", "geo" }, { "g", s.js() }, { "ins", ins(b, *g) }, { "track", all(t.GetTrack(*g)) }, { "noentry", !en }, { "entry", state(en ? *en : ParticleState()) }, { "noexit", !ex }, { "exit", state(ex ? *ex : ParticleState()) },
        { "closest", state(*t.GetClosestApproachPoint(*g)) }, { "hit", t.HitGeometry(*g) }, { "elost", D(t.GetELost(*g)) } });
}
static void ask(Builder& b, std::string const& part) {
    getters(b);
    if (b.pts.empty()) return;
    if (part == "state") ask_state(b);
    if (part == "losses") ask_losses(b);
    if (part == "geo") for (int k = 0; k < 5; ++k) ask_geo(b, ask_shape(b));
    if (b.r.i(0, 3) == 0) getters(b);
}
int main(int argc, char** argv) {
    Logging::SetGlobalLoglevel(spdlog::level::off);
    Trace tr(argv[1]); std::string mode = argv[2], part = argv[4]; Rng r(env_seed());
    if (mode == "script") { // tracks of the model: along x, integers; one sector, a=1, rho=2
        std::ifstream in(argv[3]); std::string line;
        while (std::getline(in, line)) {
            auto j = json::parse(line);
            Sec s; s.g.kind = "box"; s.g.x = s.g.y = s.g.z = 1e4; s.rho = 2; s.a = 8; s.exact = true; s.kt = 1e-3;
            Builder b(tr, r, { s });
            for (auto& p : j) b.push(ParticleState(ParticleType::MuMinus, Cartesian3D(p["s"].get<double>(), 0, 0), Cartesian3D(1, 0, 0), p["E"].get<double>(), p["t"].get<double>() * 1e-3, p["s"].get<double>()), (InteractionType)(1000000000 + p["type"].get<int>()), p["type"] == 8 ? 0 : 5, 0);
            getters(b);
            if (part == "state") { double E0 = b.pts[0].energy, E1 = b.pts.back().energy, s1 = b.pts.back().propagated_distance;
                for (double q = E1 - 4; q <= E0 + 4; q += 4) tr({ { "e", "energy" }, { "q", D(q) }, { "r", state(b.t->GetStateForEnergy(q)) } });
                for (double q = -.5; q <= s1 + .5; q += .5) tr({ { "e", "distance" }, { "q", D(q) }, { "r", state(b.t->GetStateForDistance(q)) } }); }
            else if (part == "losses") ask_losses(b);
            else { double s1 = b.pts.back().propagated_distance; // boxes across the track: from lo to hi in halves
                for (double lo = -1; lo <= s1; lo += .5) for (double w : { .5, 1., 1.25, 4. }) { Shape g; g.kind = "box"; g.c[0] = lo + w / 2; g.x = w; g.y = g.z = 2; ask_geo(b, g); } }
        }
        return 0;
    }
    int count = std::stoi(argv[3]);
    for (int c = 0; c < count; ++c) {
        double size = r.lu(100, 1e6);
        std::vector<Sec> secs; int ns = r.i(1, 3);
        for (int i = 0; i < ns; ++i) {
            Sec s; s.h = i == 0 ? 0 : (unsigned)r.i(1, 3) + i; s.g = rnd_shape(r, size * std::pow(.5, i)); if (i == 0) { s.g.ri = 0; }
            for (int k = 0; k < 3; ++k) s.g.c[k] = size * (i == 0 ? r.u(-1, 1) : 0) + (i ? secs[0].g.c[k] + size * .3 * r.u(-1, 1) : 0);
            s.rho = r.i(0, 2) ? r.lu(1e-2, 20) : 1; s.exact = r.i(0, 1); s.kt = r.lu(1e-12, 1e-9);
            double lossfrac = r.lu(.01, 2); s.a = 1e4 * lossfrac / (size * s.rho); s.b = r.i(0, 1) ? lossfrac / (size * s.rho) * r.u(.1, 1) : 0;
            secs.push_back(s);
        }
        Builder b(tr, r, secs);
        Cartesian3D c0(secs[0].g.c[0], secs[0].g.c[1], secs[0].g.c[2]);
        for (int tries = 0; tries < 2; ++tries) {
            bool straight = r.i(0, 2) == 0; auto dir = r.i(0, 4) ? rnd_dir(r) : Cartesian3D(0, 0, r.i(0, 1) ? 1 : -1);
            Cartesian3D p0 = c0 + (size * r.u(0, .5)) * rnd_dir(r);
            auto turn = [&] { if (straight || r.i(0, 3) == 0) return dir; Cartesian3D d = dir; d.deflect(std::cos(r.i(0, 4) ? r.u(0, .3) : r.u(0, 3)), r.u(0, 6.28)); dir = d; return d; };
            if (b.sector(p0, dir) < 0) continue;
            b.push(ParticleState(ParticleType::MuMinus, p0, dir, r.lu(2e3, 1e5), r.i(0, 1) ? 0 : r.u(0, 1e-6), r.i(0, 1) ? 0 : r.u(0, size)), InteractionType::ContinuousEnergyLoss, 0, 0);
            int n = r.i(0, 9);
            for (int k = 0; k < n; ++k) {
                auto u = dir; // mean direction of the step may differ from the direction at its start
                if (!straight && r.i(0, 1)) u.deflect(std::cos(r.u(0, .2)), r.u(0, 6.28));
                if (!b.step(r.i(0, 9) ? size * r.lu(.01, .6) : 0, u, turn())) break;
                if (r.i(0, 1)) b.loss(r.i(0, 7) ? r.u(1e-3, .5) : 0, r.pick(kinds), r.g() >> 1, turn());
                if (r.i(0, 9) == 0) b.loss(r.u(1e-3, .2), r.pick(kinds), r.g() >> 1, turn());
                if (part == "state" && r.i(0, 7) == 0) ask(b, part);
            }
            if (r.i(0, 2) == 0) b.push(b.pts.back(), InteractionType::Decay, 0, 0);
            ask(b, part);
            if (tries == 0) { if (r.i(0, 3)) break; b.t->clear(); b.pts.clear(); b.types.clear(); tr({ { "e", "clear" } }); getters(b); }
        }
    }
}
