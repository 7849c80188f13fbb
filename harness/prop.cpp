// LIB=full
// Propagates through worlds of known physics; everything the propagation
// consults and everything it records is logged.
//   prop TRACE random <count>        prop TRACE script <file>
#include "world.h"
#include "PROPOSAL/particle/ParticleDef.h"

struct World {
    std::vector<Sec> secs; std::vector<std::shared_ptr<Geometry>> geos; std::vector<Sector> sectors; Calls calls; std::unique_ptr<Propagator> prop;
    World(Trace& tr, std::vector<Sec> s) : secs(s) {
        json w = json::array();
        for (auto& x : secs) { std::shared_ptr<Geometry> g; for (auto& c : x.cross) c->c = &calls; sectors.push_back(x.make(calls, g)); geos.push_back(g); w.push_back(x.js()); }
        prop = std::make_unique<Propagator>(MuMinusDef(), sectors);
        tr({ { "e", "world" }, { "sectors", w } });
    }
};
static json point(Secondaries const& t, size_t i) {
    auto track = t.GetTrack(); auto types = t.GetTrackTypes(); auto hashes = t.GetTargetHashes();
    json j = state(track[i]); j["type"] = ity(types[i]); j["hash"] = std::to_string(hashes[i]); return j;
}
static void run(Trace& tr, World& w, ParticleState const& init, double maxd, double mine, unsigned hc, Rng& r, int how, json const& expect) {
    auto& calls = w.calls; calls.list = json::array();
    std::function<double()> f = [&] { double u = std::min(1 - 1e-12, std::max(1e-9, r.u())); calls.list.push_back({ { "c", "rnd" }, { "r", D(u) } }); return u; };
    RandomGenerator::Get().SetRandomNumberGenerator(f);
    std::unique_ptr<Secondaries> t; std::string err;
    err = thrown([&] {
        t = std::make_unique<Secondaries>(how == 0 ? w.prop->Propagate(init, maxd, mine, hc) : how == 1 ? w.prop->Propagate(init, maxd, mine) : how == 2 ? w.prop->Propagate(init, maxd) : w.prop->Propagate(init));
    });
    RandomGenerator::Get().SetDefaultRandomNumberGenerator();
    json list; std::swap(list, calls.list); calls.list = json::array();
    json e = { { "e", "run" }, { "init", state(init) }, { "maxd", D(how <= 2 ? maxd : 1e20) }, { "mine", D(how <= 1 ? mine : 0) }, { "hc", how == 0 ? hc : 0 } };
    if (t) { e["first"] = point(*t, 0); e["n"] = t->GetTrackLength(); } else { e["n"] = 0; e["first"] = json::object(); }
    tr(e);
    // one iteration: what was proposed, then the step, then the interaction
    std::vector<json> iters; bool fresh = true; bool seen_dec = false, seen_int = false;
    auto blank = [] { return json { { "dec", json::array() }, { "int", json::array() }, { "ms", json::array() }, { "rand", json::array() }, { "defl", json::array() }, { "loss", json::array() }, { "rnd", json::array() } }; };
    json pending = json::array(), at;
    for (auto& c : list) {
        std::string k = c["c"];
        if (k == "rnd") { pending.push_back(c["r"]); continue; }
        bool prop = k == "dec" || k == "int";
        if (prop && (fresh || (k == "dec" && seen_dec) || (k == "int" && seen_int) || c["E"] != at)) { iters.push_back(blank()); seen_dec = seen_int = false; fresh = false; }
        if (prop) at = c["E"];
        if (k == "dec") seen_dec = true; else if (k == "int") seen_int = true; else fresh = true;
        if (iters.empty()) iters.push_back(blank());
        for (auto& p : pending) iters.back()["rnd"].push_back(p);
        pending = json::array();
        json d = c; d.erase("c"); iters.back()[k].push_back(d);
    }
    if (!iters.empty()) for (auto& p : pending) iters.back()["rnd"].push_back(p);
    size_t k = 1, n = t ? t->GetTrackLength() : 0;
    if (t) for (auto& it : iters) {
        json pts = json::array();
        if (k < n) pts.push_back(point(*t, k++));
        while (k < n && t->GetTrackTypes()[k] != InteractionType::ContinuousEnergyLoss) pts.push_back(point(*t, k++));
        it["e"] = "iter"; it["pts"] = pts; tr(it);
    }
    json all = json::array();
    if (!expect.is_null() && t) { auto tk = t->GetTrack(); auto ty = t->GetTrackTypes(); for (size_t i = 0; i < n; ++i) all.push_back({ D(tk[i].position.GetX()), D(tk[i].direction.GetX()), D(tk[i].energy), D(tk[i].propagated_distance), ity(ty[i]) }); }
    tr({ { "e", "end" }, { "thrown", err }, { "left", n - std::min(n, k) }, { "model", !expect.is_null() }, { "expect", expect.is_null() ? json::array() : expect }, { "got", all } });
}
static Shape shape(Rng& r, double size) {
    Shape s; int k = r.i(0, 2); s.kind = k == 0 ? "box" : k == 1 ? "sphere" : "cylinder";
    if (k == 0) { s.x = 2 * size * r.u(.4, 1); s.y = 2 * size * r.u(.4, 1); s.z = 2 * size * r.u(.4, 1); }
    else { s.ro = size; s.ri = r.i(0, 2) ? 0 : size * r.u(.2, .8); s.z = 2 * size * r.u(.3, 1.2); }
    return s;
}
static std::vector<InteractionType> const kinds = { InteractionType::Brems, InteractionType::Ioniz, InteractionType::Epair, InteractionType::Photonuclear, InteractionType::MuPair, InteractionType::WeakInt };

int main(int argc, char** argv) {
    Logging::SetGlobalLoglevel(spdlog::level::off);
    Trace tr(argv[1]); std::string mode = argv[2]; Rng r(env_seed());
    if (mode == "script") { // behaviours of the model: a line of boxes, whole numbers
        std::ifstream in(argv[3]); std::string line; std::map<std::string, std::unique_ptr<World>> worlds;
        std::vector<std::pair<std::string, json>> lines; 
        while (std::getline(in, line)) { auto j = json::parse(line); lines.push_back({ j["w"].dump(), j }); }
        std::stable_sort(lines.begin(), lines.end(), [](auto& a, auto& b) { return a.first < b.first; });
        std::string cur; std::unique_ptr<World> w;
        for (auto& l : lines) {
            auto& j = l.second;
            if (l.first != cur) {
                cur = l.first; std::vector<Sec> secs;
                for (auto& b : j["w"]) {
                    Sec s; s.g.kind = "box"; double lo = b["lo"].get<int>() / 2., hi = b["hi"].get<int>() / 2.; s.g.c[0] = (lo + hi) / 2; s.g.x = hi - lo; s.g.y = s.g.z = 64 * (hi - lo);
                    s.h = b["h"].get<unsigned>(); s.rho = b["rho"].get<int>(); s.m = b["m"].get<int>() / 2.; s.a = 1; s.tau = b["dec"].get<bool>() ? 1 : 0; s.exact = true; s.kt = 1;
                    s.cross.push_back(std::make_shared<MockCross>(InteractionType::Brems, std::vector<std::pair<size_t, double>> { { 77, 1. } }, 0, 0));
                    s.defl.push_back(std::make_shared<MockDefl>(nullptr, InteractionType::Brems, b["back"].get<bool>() ? 2 * M_PI : 0, 0));
                    secs.push_back(s);
                }
                w = std::make_unique<World>(tr, secs);
            }
            for (auto& d : w->secs) for (auto& x : d.defl) x->c = &w->calls;
            size_t k = 0; auto& ch = j["ch"]; // choices: one triple per iteration
            bool used_int = false, used_dec = false; double at = -1;
            w->calls.script = [&](char const* what, double E) -> double {
                std::string c = what;
                if ((c == "int" && used_int) || (c == "dec" && used_dec) || (c != "loss" && at >= 0 && at != E)) { ++k; used_int = used_dec = false; }
                if (c != "loss") at = E;
                if (c == "int") used_int = true;
                if (c == "dec") used_dec = true;
                if (k >= ch.size()) return 0;
                if (c == "int") return ch[k][0].get<int>() / 2.;
                if (c == "dec") return ch[k][1].get<int>() / 2.;
                return ch[k][2].get<int>() / 2.;
            };
            auto& st = j["init"]; auto half = [](json const& v) { return v.get<int>() / 2.; };
            ParticleState init(ParticleType::MuMinus, Cartesian3D(half(st["x"]), 0, 0), Cartesian3D(st["d"].get<int>(), 0, 0), half(st["E"]), half(st["t"]), half(st["s"]));
            json exp = json::array();
            for (auto& p : j["pts"]) exp.push_back({ D(half(p[0])), D(p[1].get<int>()), D(half(p[2])), D(half(p[3])), p[4] });
            run(tr, *w, init, half(j["maxd"]), half(j["mine"]), j["hc"].get<unsigned>(), r, 0, exp);
        }
        return 0;
    }
    int count = std::stoi(argv[3]);
    for (int c = 0; c < count; ++c) {
        double size = r.lu(1e2, 1e5); bool straight = r.i(0, 3) == 0;
        std::vector<Sec> secs; int ns = r.i(1, 4);
        for (int i = 0; i <= ns; ++i) {
            Sec s; s.h = i == 0 ? 0 : 1 + (unsigned)r.i(0, 4); 
            if (i == 0) { s.g.kind = "sphere"; s.g.ro = 1e3 * size; } else s.g = shape(r, size * r.lu(.1, 1));
            bool clash = true;
            for (int tries = 0; clash && tries < 20; ++tries) { clash = false; for (auto& o : secs) if (o.h == s.h) { s.h = r.i(1, 9); clash = true; } }
            if (clash) continue;
            if (i) for (int k = 0; k < 3; ++k) s.g.c[k] = size * r.u(-1, 1);
            s.rho = r.i(0, 2) ? r.lu(1e-2, 20) : 1; s.exact = r.i(0, 1); s.kt = r.lu(1e-12, 1e-9); s.m = r.i(0, 1) ? 106 : r.u(106, 500);
            double loss = r.lu(.01, 2); s.a = 1e4 * loss / (size * s.rho); s.b = r.i(0, 1) ? loss / (size * s.rho) * r.u(.1, 1) : 0;
            s.lambda = r.lu(1e2, 3e4); if (r.i(0, 2) == 0) s.tau = r.lu(1e3, 1e5) / s.rho; if (r.i(0, 1)) s.crand = r.u(.01, .5);
            if (!straight && r.i(0, 3)) s.ms = r.lu(.01, 5) / std::sqrt(size * s.rho);
            int nx = r.i(0, 3);
            for (int k = 0; k < nx; ++k) {
                std::vector<std::pair<size_t, double>> rates; int nt = r.i(1, 3);
                for (int q = 0; q < nt; ++q) rates.push_back({ r.g() >> 1, r.i(0, 5) ? r.lu(1e-3, 1) : 0 });
                double v0 = r.u(0, .5); s.cross.push_back(std::make_shared<MockCross>(kinds[(2 * k + r.i(0, 1)) % kinds.size()], rates, v0, r.u(v0, .95)));
            }
            if (nx == 0) s.cross.push_back(std::make_shared<MockCross>(InteractionType::Ioniz, std::vector<std::pair<size_t, double>> { { 1, 0. } }, .1, .2));
            if (!straight) for (auto& k : kinds) if (r.i(0, 3) == 0) s.defl.push_back(std::make_shared<MockDefl>(nullptr, k, r.i(0, 5) ? r.u(0, .3) : r.u(0, 3.1), r.i(0, 2)));
            secs.push_back(s);
        }
        if (r.i(0, 1)) std::shuffle(secs.begin(), secs.end(), r.g);
        World w(tr, secs);
        for (auto& d : w.secs) for (auto& x : d.defl) x->c = &w.calls;
        int runs = r.i(1, 4);
        for (int k = 0; k < runs; ++k) {
            double mine = r.i(0, 1) ? 0 : r.lu(50, 3e3), E = r.i(0, 9) ? r.lu(2e3, 5e4) : r.lu(60, 2e3), s0 = r.i(0, 1) ? 0 : r.u(0, size), maxd = r.i(0, 1) ? 1e20 : s0 + (r.i(0, 9) ? size * r.lu(1e-3, 5) : -size * r.u(0, .1));
            if (r.i(0, 30) == 0) maxd = s0;
            if (r.i(0, 30) == 0) mine = E;
            Cartesian3D p = (size * r.u(0, 1.2)) * rnd_dir(r);
            run(tr, w, ParticleState(ParticleType::MuMinus, p, r.i(0, 4) ? rnd_dir(r) : Cartesian3D(0, 0, r.i(0, 1) ? 1 : -1), E, r.i(0, 1) ? 0 : r.u(0, 1e-6), s0), maxd, mine, r.i(0, 5), r, r.i(0, 5) == 0 ? r.i(1, 3) : 0, json());
        }
    }
}
