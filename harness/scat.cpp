// Scattering: models, directions, deflections, containers, documents.   LIB=full
//   scat TRACE GEN N
#include "world.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/medium/MediumFactory.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/scattering/ScatteringFactory.h"
#include "PROPOSAL/scattering/ScatteringMultiplier.h"
namespace ms = multiple_scattering; namespace sd = stochastic_deflection;
static std::vector<Medium> media() { return { Water(), Ice(), Air(), StandardRock(), Iron(), Hydrogen(), Lead(), Copper(), Salt(), Uranium(), Paraffin(), LiquidArgon() }; }
static ParticleDef def(double m, double q) { static int type = 70000; ++type; return ParticleDef("t", m, m, 1e-6, q, HardComponentTables::EmptyTable, DecayTable(), type, 0); }
static json phys(ParticleDef const& p, Medium const& m, double a = 0, double b = 0) {
    json c = json::array(); for (auto& x : m.GetComponents()) c.push_back({ { "Z", D(x.GetNucCharge()) }, { "A", D(x.GetAtomicNum()) }, { "k", D(x.GetAtomInMolecule()) } });
    return { { "m", D(p.mass) }, { "charge", D(p.charge) }, { "X0", D(m.GetRadiationLength()) }, { "comp", c }, { "a", D(a) }, { "b", D(b) } };
}
static json off(ms::ScatteringOffset const& o) { return { D(o.sx), D(o.sy), D(o.tx), D(o.ty) }; }
struct LossCross : MockCross { double a, b, low; LossCross(double a, double b, double low = 106) : MockCross(InteractionType::Ioniz, {}, 0, 1), a(a), b(b), low(low) {} double CalculatedEdx(double E) override { return a + b * E; } double GetLowerEnergyLim() const override { return low; } };
int main(int argc, char** argv) {
    Trace t(argv[1]); Rng g(env_seed()); Logging::SetGlobalLoglevel(spdlog::level::off); int N = std::atoi(argv[3]); auto M = media();
    auto rnd1 = [&] { switch (g.i(0, 9)) { case 0: return g.lu(1e-12, 1e-2); case 1: return 1 - g.lu(1e-12, 1e-2); case 2: return g.i(0, 2) ? .5 : 1 - std::pow(2., -53); default: return g.u(1e-6, 1 - 1e-6); } };
    auto axis = [&] { Cartesian3D a[] = { { 0, 0, 1 }, { 0, 0, -1 }, { 1, 0, 0 }, { 0, -1, 0 }, { -1, 0, 0 } }; return g.i(0, 4) ? rnd_dir(g) : a[g.i(0, 4)]; };
    // directions
    for (int n = N * 6; n > 0; --n) {
        auto d = axis(); ms::ScatteringOffset o; double s = g.lu(1e-9, g.i(0, 2) ? .7 : 5); o.sx = g.u(-s, s); o.sy = g.u(-s, s); o.tx = g.u(-s, s); o.ty = g.u(-s, s); if (g.i(0, 9) == 0) o.sx = 0; if (g.i(0, 9) == 0) o.tx = o.ty = 0;
        auto r = g.i(0, 1) ? ms::ScatterInitialDirection(d, o) : ms::ScatterInitialDirection(Spherical3D(d), o);
        t({ { "k", "dir" }, { "d", D3(d) }, { "o", off(o) }, { "mean", D3(r.first) }, { "final", D3(r.second) } });
    }
    // multiple scattering
    for (int n = N; n > 0; --n) {
        auto const& m = g.pick(M); double mass = g.i(0, 3) ? g.pick(std::vector<double> { MMU, ME, MTAU, MPI }) : g.lu(.4, 1e5); auto p = def(mass, g.pick(std::vector<double> { -1, 1, 1, -1, 2, -2 }));
        double a = g.lu(.5, 5), b = g.lu(1e-7, 1e-4); auto disp = std::make_shared<MockDisp>(a, b, mass * 1.01); int kind = g.i(0, 5); bool tab = kind == 5 || kind == 3;
        std::unique_ptr<ms::Parametrization> x; std::string name;
        if (kind == 0) { x = std::make_unique<ms::Highland>(p, m); name = "highland"; }
        else if (kind == 1 || kind == 2) { x = std::make_unique<ms::Moliere>(p, m); name = "moliere"; }
        else if (kind == 3) { x = std::make_unique<ms::MoliereInterpol>(p, m); name = "moliere"; }
        else { std::vector<std::shared_ptr<CrossSectionBase>> lc { std::make_shared<LossCross>(a, b, mass * 1.01) }; x = make_highland_integral(p, m, lc, tab); name = "integral"; }
        if (g.i(0, 4) == 0) { x = x->clone(); std::vector<std::vector<char>> junk(64, std::vector<char>(8 * g.i(1, 40), 0x55)); }
        for (int q = g.i(1, 4); q > 0; --q) {
            bool coarse = name == "integral" && tab; double Ei = mass * g.lu(coarse ? 2. : 1.05, g.i(0, 1) ? 20 : 1e6), Ef = std::max(mass * (coarse ? 1.5 : 1.02), coarse || g.i(0, 1) ? Ei * g.u(.5, coarse ? .95 : 1) : Ei * (1 - g.lu(1e-6, .5))), X = name == "integral" ? disp->SolveTrackIntegral(Ei, Ef) : g.i(0, 12) ? g.lu(1e-4, 1e5) : 0; if (X <= 0 && name == "integral") continue;
            std::array<double, 4> r; for (auto& v : r) v = rnd1(); if (name == "moliere") for (auto& v : r) v = std::min(1 - 1e-6, std::max(1e-6, v));
            auto o = x->CalculateRandomAngle(X, Ei, Ef, r);
            double an = x->CalculateScatteringAngle(X, Ei, Ef, r[1]), an2 = x->CalculateScatteringAngle2D(X, Ei, Ef, r[1], r[3]);
            std::array<double, 4> o4; for (auto& v : o4) v = g.u(.01, .99); double Eo = mass * g.lu(1.1, 1e4); x->CalculateRandomAngle(g.lu(1e-2, 1e3), Eo, Eo * .99, o4);
            auto again = x->CalculateRandomAngle(X, Ei, Ef, r);
            t({ { "k", "ms" }, { "model", name }, { "table", tab }, { "P", phys(p, m, a, b) }, { "X", D(X) }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "rnd", DV(r) }, { "o", off(o) }, { "again", off(again) }, { "angle", D(an) }, { "angle2", D(an2) } });
        }
    }
    // deflections
    std::vector<std::string> names { "ioniznaive", "bremstsaiapproximation", "photoborogpetrukhin", "epairginneken", "photoginneken", "bremsginneken" };
    for (int n = N * 10; n > 0; --n) {
        auto const& m = g.pick(M); auto const comps = m.GetComponents(); auto const comp = g.pick(comps); double mass = g.i(0, 3) ? MMU : MTAU; auto p = def(mass, -1); std::string name = g.pick(names);
        double Ei = mass * g.lu(g.i(0, 1) ? 12 : 2, 1e8), lo, hi; auto made = make_stochastic_deflection(name, p, m);
        if (name == "ioniznaive") { double gm = Ei / mass, r = ME / mass; hi = 2 * ME * (gm * gm - 1) / ((1 + 2 * gm * r + r * r) * Ei); hi = std::min(hi, 1 - mass / Ei); lo = 1e-6 * m.GetI() / Ei; }
        else if (name == "epairginneken") { lo = 4 * ME / Ei; hi = 1 - .75 * SQRTE * mass / Ei * std::cbrt(comp.GetNucCharge()); }
        else if (name[0] == 'p') { double W = MP; lo = (MPI + MPI * MPI / (2 * W)) / Ei; hi = 1 - W / (2 * Ei) * (1 + mass * mass / W / W); }
        else { lo = 1e-6; hi = 1 - .75 * SQRTE * mass / Ei * std::cbrt(comp.GetNucCharge()); hi = std::min(hi, 1 - mass / Ei); }
        if (!(lo < hi)) continue;
        double v = g.i(0, 2) ? lo * g.lu(1, hi / lo) : g.i(0, 2) ? g.u(lo, hi) : g.i(0, 1) ? lo * (1 + g.lu(1e-15, 1e-3)) : hi * (1 - g.lu(1e-15, 1e-2)); if (g.i(0, 20) == 0) v = g.i(0, 1) ? lo : hi; v = std::min(hi, std::max(lo, v));
        double Ef = Ei * (1 - v);
        if (name == "bremsginneken" && g.i(0, 1)) { // where the branches meet
            double E = Ei / 1e3, k4 = .26 * std::pow(E, -.91), q = .81 * std::sqrt(E) / (std::sqrt(E) + 1.8), a = .5, b = 1; for (int i = 0; i < 60; ++i) { double c = (a + b) / 2; (k4 * std::pow(c, 1 + q) * std::pow(1 - c, -q) < .2 ? a : b) = c; }
            Ef = Ei - (Ei - mass) * a * (1 + g.u(-1, 1) * g.lu(1e-9, 1e-2)); if (!(Ef > mass * 1.0000001 && Ef < Ei)) continue; // log-uniform around it
        }
        if (!(Ef >= mass)) continue;
        std::vector<double> r(made->RequiredRandomNumbers()); for (auto& x : r) x = rnd1(); if (g.i(0, 30) == 0 && !r.empty()) r[0] = 0;
        UnitSphericalVector u(0, 0); std::string th = thrown([&] { u = made->CalculateStochasticDeflection(Ei, Ef, r, comp.GetHash()); });
        t({ { "k", "defl" }, { "name", name }, { "m", D(mass) }, { "Z", D(comp.GetNucCharge()) }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "rnd", DV(r) }, { "n", r.size() }, { "thrown", th }, { "zen", D(u.zenith) }, { "az", D(u.azimuth) } });
    }
    // containers
    std::vector<InteractionType> T { InteractionType::Brems, InteractionType::Ioniz, InteractionType::Epair, InteractionType::Photonuclear, InteractionType::Compton, InteractionType::WeakInt };
    for (int n = N; n > 0; --n) {
        Calls c; bool has = g.i(0, 3); double k = g.lu(1e-3, 1); std::unique_ptr<ms::Parametrization> p; if (has) p = std::make_unique<MockMS>(&c, k);
        std::vector<std::unique_ptr<sd::Parametrization>> ds; json jd = json::array(); for (auto ty : T) if (g.i(0, 1)) { size_t q = g.i(0, 3); ds.push_back(std::make_unique<MockDefl>(&c, ty, g.u(0, 1.5), q)); jd.push_back({ { "t", ity(ty) }, { "n", q } }); }
        std::shuffle(ds.begin(), ds.end(), g.g);
        bool mult = g.i(0, 1); double mm = mult ? g.u(0, 2) : 1; std::vector<std::pair<InteractionType, double>> sm; json js = json::array(); if (mult) for (auto ty : T) if (g.i(0, 1)) { sm.emplace_back(ty, g.u(0, 2)); js.push_back({ { "t", ity(ty) }, { "v", D(sm.back().second) } }); }
        std::shared_ptr<Scattering> s; bool copy = has && g.i(0, 2) == 0;
        if (copy) { MockMS const q(&c, k); auto const& cds = ds; s = mult ? std::make_shared<ScatteringMultiplier>(q, cds, mm, sm) : std::make_shared<Scattering>(q, cds); }
        else if (!has && g.i(0, 1)) s = mult ? std::make_shared<ScatteringMultiplier>(nullptr, std::move(ds), mm, sm) : std::make_shared<Scattering>(nullptr, std::move(ds));
        else s = mult ? std::make_shared<ScatteringMultiplier>(std::move(p), std::move(ds), mm, sm) : std::make_shared<Scattering>(std::move(p), std::move(ds));
        PropagationUtility::Collection col; auto disp = std::make_shared<MockDisp>(1, 0, 1); col.displacement_calc = disp; col.time_calc = std::make_shared<ApproximateTimeBuilder>(); col.scattering = s;
        col.interaction_calc = std::make_shared<MockInter>(disp, std::vector<std::shared_ptr<CrossSectionBase>> { std::make_shared<MockCross>(InteractionType::Ioniz, std::vector<std::pair<size_t, double>> {}, 0, 1) }, c, 1); PropagationUtility u(col);
        for (int q = g.i(2, 8); q > 0; --q) {
            auto d = axis(); double Ei = g.lu(200, 1e6), Ef = Ei * g.u(.1, 1), X = g.lu(1e-3, 1e2); std::vector<double> r; c.list = json::array(); auto draw = [&] { r.push_back(g.u()); return r.back(); };
            if (g.i(0, 1)) { auto o = u.DirectionsScatter(X, Ei, Ef, d, draw); t({ { "k", "scatter" }, { "ms", has }, { "mm", D(mm) }, { "d", D3(d) }, { "X", D(X) }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "rnd", DV(r) }, { "drawn", r.size() }, { "calls", c.list }, { "mean", D3(std::get<0>(o)) }, { "final", D3(std::get<1>(o)) } }); }
            else { auto ty = g.pick(T); size_t comp = g.i(1, 99); auto o = u.DirectionDeflect(ty, Ei, Ef, d, draw, comp); t({ { "k", "deflect" }, { "defl", jd }, { "sm", js }, { "t", ity(ty) }, { "comp", std::to_string(comp) }, { "d", D3(d) }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "rnd", DV(r) }, { "drawn", r.size() }, { "calls", c.list }, { "new", D3(o) } }); }
        }
    }
    // documents
    std::ifstream f(argv[2]); std::string l; auto low = [](std::string s) { for (auto& c : s) c = std::tolower(c); return s; }; int line = 0; MuMinusDef mu; Ice ice;
    std::vector<std::shared_ptr<CrossSectionBase>> cross { std::make_shared<LossCross>(2, 3e-6) };
    std::vector<std::shared_ptr<ms::Parametrization>> base { std::make_shared<ms::Highland>(mu, ice), std::make_shared<ms::Moliere>(mu, ice), std::make_shared<ms::MoliereInterpol>(mu, ice), std::shared_ptr<ms::Parametrization>(make_highland_integral(mu, ice, cross, false)) };
    std::vector<std::string> bn { "highland", "moliere", "moliereinterpol", "highlandintegral" };
    std::map<std::string, std::shared_ptr<sd::Parametrization>> dp { { "ioniznaive", std::make_shared<sd::IonizNaive>(mu, ice) }, { "bremstsaiapproximation", std::make_shared<sd::BremsTsaiApproximation>(mu, ice) }, { "bremsginneken", std::make_shared<sd::BremsGinneken>(mu, ice) }, { "photoborogpetrukhin", std::make_shared<sd::PhotoBorogPetrukhin>(mu, ice) }, { "photoginneken", std::make_shared<sd::PhotoGinneken>(mu, ice) }, { "epairginneken", std::make_shared<sd::EpairGinneken>(mu, ice) } };
    std::vector<std::pair<std::string, InteractionType>> ty { { "ioniz", InteractionType::Ioniz }, { "brems", InteractionType::Brems }, { "photonuclear", InteractionType::Photonuclear }, { "epair", InteractionType::Epair }, { "compton", InteractionType::Compton } };
    while (std::getline(f, l)) {
        json j = json::parse(l), d = json::object(), lw = j; lw["ms"] = low(j["ms"]); for (auto& x : lw["sd"]) x = low(x); for (auto& x : lw["sm"]) x["t"] = low(x["t"]);
        if (j["ms"] != "") d["multiple_scattering"] = j["ms"];
        if (j["mm"] != "") d["multiple_scattering_multiplier"] = std::stod(j["mm"].get<std::string>());
        if (!j["sd"].empty() || g.i(0, 1)) d["stochastic_deflection"] = j["sd"];
        if (!j["sm"].empty()) { d["stochastic_deflection_multiplier"] = json::object(); for (auto& x : j["sm"]) d["stochastic_deflection_multiplier"][x["t"].get<std::string>()] = std::stod(x["v"].get<std::string>()); }
        json e { { "k", "doc" }, { "low", lw } }; double Ei = g.lu(2e4, 1e6), Ef = Ei * g.u(.8, .999), X = g.lu(10, 1000); std::array<double, 4> r; for (auto& v : r) v = g.u(.01, .99); std::vector<double> r2 { g.u(), g.u() }; size_t comp = ice.GetComponents()[0].GetHash();
        e["base"] = json::object(); e["angles"] = json::object(); e["defl"] = json::array(); e["ms"] = json::array();
        for (size_t i = 0; i < base.size(); ++i) e["base"][bn[i]] = off(base[i]->CalculateRandomAngle(X, Ei, Ef, r));
        for (auto& x : dp) { auto n = x.second->RequiredRandomNumbers(); auto u = x.second->CalculateStochasticDeflection(Ei, Ef, std::vector<double>(r2.begin(), r2.begin() + n), comp); e["angles"][x.first] = { { "n", n }, { "zen", D(u.zenith) }, { "az", D(u.azimuth) } }; }
        e["thrown"] = thrown([&] {
            auto s = make_scattering(d, mu, ice, cross, false); e["nms"] = s->MultipleScatteringRandomNumbers(); e["ms"] = off(s->CalculateMultipleScattering(X, Ei, Ef, r));
            for (auto& q : ty) { auto n = s->StochasticDeflectionRandomNumbers(q.second); auto u = s->CalculateStochasticDeflection(q.second, Ei, Ef, std::vector<double>(r2.begin(), r2.begin() + std::min<size_t>(n, 2)), comp); e["defl"].push_back({ { "t", q.first }, { "n", n }, { "zen", D(u.zenith) }, { "az", D(u.azimuth) } }); }
        });
        t(e);
    }
}
