// Every parametrization of every process, for the particles it is made for.
#pragma once
#include "world.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/CrossSectionBuilder.h"
#include "PROPOSAL/crosssection/CrossSectionMultiplier.h"
#include "PROPOSAL/crosssection/parametrization/Annihilation.h"
#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
#include "PROPOSAL/crosssection/parametrization/Compton.h"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoQ2Integration.h"
#include "PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.h"
#include "PROPOSAL/crosssection/parametrization/Photoeffect.h"
#include "PROPOSAL/crosssection/parametrization/Photoproduction.h"
#include "PROPOSAL/crosssection/parametrization/WeakInteraction.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
namespace xs = crosssection;
using Cut = std::shared_ptr<const EnergyCutSettings>;
struct Target { // a component, or the medium as a whole
    size_t hash; double w; json j;
    std::function<xs::KinematicLimits(double)> lim; std::function<double(double, double)> ds, de, de2, free; // free: without LPM effect
};
struct Entry {
    std::string kind, name; bool lpm = false, hard = false; ParticleDef p; Medium m; Cut cut; double low; std::vector<Target> t; std::function<std::shared_ptr<CrossSectionBase>(bool)> cross; std::string shadow {}; std::shared_ptr<xs::PhotoQ2Integral> q2 {}; double dc = 1;
    json head() const { return { { "kind", kind }, { "name", name }, { "lpm", lpm }, { "hard", hard }, { "m", D(p.mass) }, { "q", D(p.charge) }, { "low", D(low) } }; }
};
inline json comp_json(Component const& c) { return { { "Z", D(c.GetNucCharge()) }, { "A", D(c.GetAtomicNum()) }, { "k", D(c.GetAtomInMolecule()) }, { "M", D(c.GetAverageNucleonWeight()) }, { "log", D(c.GetLogConstant()) }, { "bp", D(c.GetBPrime()) }, { "ws", D(c.GetWoodSaxon()) } }; }
inline json medium_json(Medium const& m) { json c = json::array(); for (auto& x : m.GetComponents()) c.push_back(comp_json(x)); return { { "I", D(m.GetI()) }, { "C", D(-m.GetC()) }, { "a", D(m.GetA()) }, { "mm", D(m.GetM()) }, { "x0", D(m.GetX0()) }, { "x1", D(m.GetX1()) }, { "d0", D(m.GetD0()) }, { "rho", D(m.GetMassDensity()) }, { "comp", c } }; }
template <typename P> std::enable_if_t<xs::is_component_wise<P>::value> targets(Entry& e, std::shared_ptr<P> x) {
    double sum = 0; for (auto& c : e.m.GetComponents()) sum += c.GetAtomInMolecule() * c.GetAtomicNum();
    for (auto& c : e.m.GetComponents()) e.t.push_back({ c.GetHash(), 0, comp_json(c), [x, p = e.p, c](double E) { return x->GetKinematicLimits(p, c, E); }, [x, p = e.p, c](double E, double v) { return x->DifferentialCrossSection(p, c, E, v); },
            [x, p = e.p, c](double E, double v) { return x->FunctionToDEdxIntegral(p, c, E, v); }, [x, p = e.p, c](double E, double v) { return x->FunctionToDE2dxIntegral(p, c, E, v); } });
}
template <typename P> std::enable_if_t<!xs::is_component_wise<P>::value> targets(Entry& e, std::shared_ptr<P> x) {
    auto m = e.m; e.t.push_back({ m.GetHash(), 1, medium_json(m), [x, p = e.p, m](double E) { return x->GetKinematicLimits(p, m, E); }, [x, p = e.p, m](double E, double v) { return x->DifferentialCrossSection(p, m, E, v); },
        [x, p = e.p, m](double E, double v) { return x->FunctionToDEdxIntegral(p, m, E, v); }, [x, p = e.p, m](double E, double v) { return x->FunctionToDE2dxIntegral(p, m, E, v); } });
}
template <typename P> Entry entry(std::string kind, std::string name, P x, ParticleDef p, Medium m, Cut cut) {
    Entry e { kind, name, false, false, p, m, cut, x.GetLowerEnergyLim(p), {}, {} }; targets<P>(e, std::make_shared<P>(x));
    e.cross = [x, p, m, cut](bool interpol) { return std::shared_ptr<CrossSectionBase>(make_crosssection(P(x), p, m, cut, interpol)); }; return e;
}
template <typename P> Entry entry(std::string kind, std::string name, P x, ParticleDef p, Medium m, Cut cut, bool lpm, P off) {
    auto e = entry(kind, name, x, p, m, cut); e.lpm = lpm; if (lpm) { auto f = entry(kind, name, off, p, m, cut); for (size_t i = 0; i < e.t.size(); ++i) e.t[i].free = f.t[i].ds; } return e;
}
inline std::vector<Medium> xs_media() { return { Water(), Ice(), Air(), StandardRock(), Iron(), Hydrogen(), Lead(), Copper(), Salt(), Uranium(), Paraffin(), LiquidArgon(),
    Medium("light", 40., 3., .2, 3., .1, 2., 0., 1., { Component("He", 2, 4.0026, 1), Component("Li", 3, 6.94, 2), Component("Be", 4, 9.0122, 1), Component("H", 1, 1.008, 3) }) }; }
struct XsChoice { std::string kind, name; };
inline std::vector<XsChoice> xs_all() {
    return { { "brems", "KelnerKokoulinPetrukhin" }, { "brems", "PetrukhinShestakov" }, { "brems", "CompleteScreening" }, { "brems", "AndreevBezrukovBugaev" }, { "brems", "SandrockSoedingreksoRhode" }, { "brems", "ElectronScreening" },
        { "epair", "KelnerKokoulinPetrukhin" }, { "epair", "SandrockSoedingreksoRhode" }, { "epair", "ForElectronPositron" }, { "ioniz", "BetheBlochRossi" }, { "ioniz", "BergerSeltzerBhabha" }, { "ioniz", "BergerSeltzerMoller" },
        { "mupair", "KelnerKokoulinPetrukhin" }, { "q2", "AbramowiczLevinLevyMaor91" }, { "q2", "AbramowiczLevinLevyMaor97" }, { "q2", "ButkevichMikheyev" }, { "q2", "RenoSarcevicSu" }, { "q2", "AbtFT" }, { "q2", "BlockDurandHa" },
        { "real", "Zeus" }, { "real", "BezrukovBugaev" }, { "real", "Kokoulin" }, { "real", "Rhode" }, { "compton", "KleinNishina" }, { "photopair", "Tsai" }, { "photopair", "KochMotz" }, { "photomupair", "BurkhardtKelnerKokoulin" }, { "weak", "CooperSarkarMertsch" } };
}
inline Entry make_entry(Rng& g, XsChoice const& c, Medium const& m, Cut cut) {
    auto n = c.name; bool lpm = g.i(0, 3) == 0; double dc = g.i(0, 1) ? 1. : g.u(.3, 2); auto in = [&](Entry e) { e.dc = dc; return e; }; ParticleDef mu = g.i(0, 1) ? ParticleDef(MuMinusDef()) : ParticleDef(MuPlusDef()), tau = TauMinusDef(), e = g.i(0, 1) ? ParticleDef(EMinusDef()) : ParticleDef(EPlusDef());
    EnergyCutSettings icut = cut ? *cut : EnergyCutSettings(INF, 1, false);
    if (c.kind == "brems") {
        bool only_e = n == "ElectronScreening"; auto p = only_e ? e : g.i(0, 2) ? mu : g.i(0, 1) ? tau : e;
        auto mk = [&](auto* t) { using P = std::remove_pointer_t<decltype(t)>; return in(entry(c.kind, n, lpm ? P(true, p, m, dc) : P(false), p, m, cut, lpm, P(false))); };
        if (n == "ElectronScreening") return mk((xs::BremsElectronScreening*)0);
        if (n == "KelnerKokoulinPetrukhin") return mk((xs::BremsKelnerKokoulinPetrukhin*)0); if (n == "PetrukhinShestakov") return mk((xs::BremsPetrukhinShestakov*)0);
        if (n == "CompleteScreening") return mk((xs::BremsCompleteScreening*)0); if (n == "AndreevBezrukovBugaev") return mk((xs::BremsAndreevBezrukovBugaev*)0); return mk((xs::BremsSandrockSoedingreksoRhode*)0);
    }
    if (c.kind == "epair") {
        auto p = n == "ForElectronPositron" ? e : g.i(0, 2) ? mu : tau; auto mk = [&](auto* t) { using P = std::remove_pointer_t<decltype(t)>; return in(entry(c.kind, n, lpm ? P(true, p, m, dc) : P(false), p, m, cut, lpm, P(false))); };
        if (n == "ForElectronPositron") return mk((xs::EpairForElectronPositron*)0);
        if (n == "KelnerKokoulinPetrukhin") return mk((xs::EpairKelnerKokoulinPetrukhin*)0); return mk((xs::EpairSandrockSoedingreksoRhode*)0);
    }
    if (n == "BetheBlochRossi") return entry(c.kind, n, xs::IonizBetheBlochRossi(icut), g.i(0, 2) ? mu : tau, m, cut);
    if (n == "BergerSeltzerBhabha") return entry(c.kind, n, xs::IonizBergerSeltzerBhabha(icut), EPlusDef(), m, cut);
    if (n == "BergerSeltzerMoller") return entry(c.kind, n, xs::IonizBergerSeltzerMoller(icut), EMinusDef(), m, cut);
    if (c.kind == "mupair") return entry(c.kind, n, xs::MupairKelnerKokoulinPetrukhin(), g.i(0, 2) ? mu : tau, m, cut);
    if (c.kind == "q2") {
        std::shared_ptr<xs::ShadowEffect> s; if (g.i(0, 1)) s = std::make_shared<xs::ShadowDuttaRenoSarcevicSeckel>(); else s = std::make_shared<xs::ShadowButkevichMikheyev>(); auto p = g.i(0, 2) ? mu : tau;
        auto mk = [&](auto* t) { using P = std::remove_pointer_t<decltype(t)>; auto e = entry(c.kind, n, P(s), p, m, cut); e.q2 = std::make_shared<P>(s); e.shadow = std::dynamic_pointer_cast<xs::ShadowButkevichMikheyev>(s) ? "ButkevichMikheyev" : "DuttaRenoSarcevicSeckel"; return e; };
        if (n == "AbramowiczLevinLevyMaor91") return mk((xs::PhotoAbramowiczLevinLevyMaor91*)0); if (n == "AbramowiczLevinLevyMaor97") return mk((xs::PhotoAbramowiczLevinLevyMaor97*)0);
        if (n == "ButkevichMikheyev") return mk((xs::PhotoButkevichMikheyev*)0); if (n == "RenoSarcevicSu") return mk((xs::PhotoRenoSarcevicSu*)0);
        if (n == "AbtFT") return mk((xs::PhotoAbtFT*)0); return mk((xs::PhotoBlockDurandHa*)0);
    }
    if (c.kind == "real") {
        auto p = g.i(0, 3) ? mu : g.i(0, 1) ? tau : e; bool hard = g.i(0, 1) && p.mass > 1; auto real = [&](Entry e) { e.hard = hard; return e; };
        if (n == "Zeus") return real(entry(c.kind, n, xs::PhotoZeus(hard), p, m, cut)); if (n == "BezrukovBugaev") return real(entry(c.kind, n, xs::PhotoBezrukovBugaev(hard), p, m, cut));
        if (n == "Kokoulin") return real(entry(c.kind, n, xs::PhotoKokoulin(hard), p, m, cut)); return real(entry(c.kind, n, xs::PhotoRhode(hard), p, m, cut));
    }
    GammaDef ga;
    if (c.kind == "compton") return entry(c.kind, n, xs::ComptonKleinNishina(), ga, m, cut);
    if (n == "Tsai") return in(entry(c.kind, n, lpm ? xs::PhotoPairTsai(true, ga, m, dc) : xs::PhotoPairTsai(), ga, m, Cut(), lpm, xs::PhotoPairTsai()));
    if (n == "KochMotz") return in(entry(c.kind, n, lpm ? xs::PhotoPairKochMotz(true, ga, m, dc) : xs::PhotoPairKochMotz(), ga, m, Cut(), lpm, xs::PhotoPairKochMotz()));
    if (c.kind == "photomupair") return entry(c.kind, n, xs::PhotoMuPairBurkhardtKelnerKokoulin(), ga, m, Cut());
    return entry(c.kind, n, xs::WeakCooperSarkarMertsch(), g.i(0, 1) ? mu : tau, m, Cut());
}
inline double logit(double v) { return std::log(v) - std::log1p(-v); }
// nodes of a composite 8-point rule in ln v/(1-v), refined towards both ends
inline json region(std::function<double(double)> f, double a, double b) {
    static const double X[] = { 0.01985507175123188, 0.10166676129318664, 0.2372337950418355, 0.40828267875217511, 0.59171732124782489, 0.7627662049581645, 0.89833323870681336, 0.98014492824876812 };
    json r { { "a", D(a) }, { "b", D(b) }, { "n", json::array() } }; if (!(b > a)) return r;
    double ya = logit(a > 0 ? a : 1e-10 * b), yb = logit(std::min(b, 1 - 1e-12)); int n = 1 + (int)std::floor((yb - ya) / 1.2); double h = (yb - ya) / n; std::vector<double> y { ya };
    for (int k = 8; k >= 0; --k) y.push_back(ya + h / 2 * std::pow(4., -k)); for (int i = 1; i < n; ++i) y.push_back(ya + i * h); for (int k = 0; k <= 8; ++k) y.push_back(yb - h / 2 * std::pow(4., -k)); y.push_back(yb);
    for (size_t p = 0; p + 1 < y.size(); ++p) for (double u : X) { double v = 1 / (1 + std::exp(-(y[p] + u * (y[p + 1] - y[p])))); r["n"].push_back({ D(v), D(f(v)) }); }
    return r;
}
