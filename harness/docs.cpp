// LIB=full  Configuration documents: what is built from them, next to what code builds from the same values.
#include "xs.h"
#include "PROPOSAL/geometry/GeometryFactory.h"
#include "PROPOSAL/medium/MediumFactory.h"
#include "PROPOSAL/density_distr/density_distr.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/density_distr/density_splines.h"
#include "PROPOSAL/math/Spherical3D.h"
#include "PROPOSAL/math/Spline.h"
#include "PROPOSAL/crosssection/Factories/AnnihilationFactory.h"
#include "PROPOSAL/crosssection/Factories/BremsstrahlungFactory.h"
#include "PROPOSAL/crosssection/Factories/ComptonFactory.h"
#include "PROPOSAL/crosssection/Factories/EpairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/IonizationFactory.h"
#include "PROPOSAL/crosssection/Factories/MupairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoMuPairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoPairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoeffectFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotonuclearFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoproductionFactory.h"
#include "PROPOSAL/crosssection/Factories/WeakInteractionFactory.h"
using Doc = nlohmann::json;
static Doc value(json const& v) {
    auto t = v["t"].get<std::string>(), s = v["s"].get<std::string>();
    if (t == "num") { Doc d = std::strtod(s.c_str(), nullptr); return d; } if (t == "int") return std::atoi(s.c_str()); if (t == "str") return s; if (t == "bool") return s == "true"; if (t == "obj") return Doc::object();
    if (t == "arr") { Doc a = Doc::array(); for (auto& x : v["a"]) a.push_back(value(x)); return a; } return nullptr;
}
static Doc document(json const& d) { Doc o = Doc::object(); if (d.is_object()) for (auto& x : d.items()) o[x.key()] = value(x.value()); return o; }
static double num(json const& v) { return std::strtod(v.get<std::string>().c_str(), nullptr); }
static Cartesian3D vec(json const& v, size_t i) { return Cartesian3D(num(v[i]), num(v[i + 1]), num(v[i + 2])); }
static std::shared_ptr<Density_distr> density(json const& v) {
    auto k = v[0].get<std::string>(); double m = num(v[1]); if (k == "homogeneous") return std::make_shared<Density_homogeneous>(m);
    std::unique_ptr<Axis> axis; if (v[2] == "radial") axis.reset(new RadialAxis(vec(v, 3))); else axis.reset(new CartesianAxis(vec(v, 6), vec(v, 3)));
    std::vector<double> r; for (size_t i = 9; i < v.size(); ++i) r.push_back(num(v[i]));
    if (k == "exponential") return std::make_shared<Density_exponential>(*axis, r[0], r[1], m);
    if (k == "polynomial") return std::make_shared<Density_polynomial>(*axis, Polynom(r), m);
    std::vector<double> x(r.begin(), r.begin() + r.size() / 2), y(r.begin() + r.size() / 2, r.end());
    if (k == "linear") return std::make_shared<Density_splines>(*axis, Linear_Spline(x, y), m); return std::make_shared<Density_splines>(*axis, Cubic_Spline(x, y), m);
}
static std::shared_ptr<Medium> medium(std::string n) {
    if (n == "PDG2001::Water") return std::make_shared<PDG2001::Water>(); if (n == "PDG2020::Water") return std::make_shared<PDG2020::Water>(); if (n == "PDG2001::Ice") return std::make_shared<PDG2001::Ice>(); if (n == "PDG2020::Ice") return std::make_shared<PDG2020::Ice>();
#define M(c) if (n == #c) return std::make_shared<c>();
    M(Salt) M(StandardRock) M(FrejusRock) M(Iron) M(Hydrogen) M(Lead) M(Copper) M(Uranium) M(Air) M(Paraffin) M(AntaresWater) M(CascadiaBasinWater) M(LiquidArgon)
    return nullptr;
}
using Cross = std::shared_ptr<CrossSectionBase>;
static Cut cut() { return std::make_shared<const EnergyCutSettings>(500., .05, false); }
static ParticleDef who(std::string const& kind, std::string const& n) {
    if (kind == "annihilation" || n == "BergerSeltzerBhabha") return EPlusDef(); if (n == "ElectronScreening" || n == "ForElectronPositron" || n == "BergerSeltzerMoller") return EMinusDef();
    if (kind == "compton" || kind == "photopair" || kind == "photomupair" || kind == "photoeffect" || kind == "photoproduction") return GammaDef(); return MuMinusDef();
}
static Cross by_code(json const& v) {
    auto k = v[0].get<std::string>(), n = v[1].get<std::string>(), f = v[3].get<std::string>(); bool on = f == "true"; auto p = who(k, n); auto m = Ice();
#define P(kind_, name_, ...) if (k == kind_ && n == #name_) return Cross(make_crosssection(__VA_ARGS__, p, m, cut(), false));
#define Q(kind_, name_, ...) if (k == kind_ && n == #name_) return Cross(make_crosssection(__VA_ARGS__, p, m, nullptr, false));
#define L(kind_, pre, name_) P(kind_, name_, xs::pre##name_(on, p, m))
    L("brems", Brems, KelnerKokoulinPetrukhin) L("brems", Brems, AndreevBezrukovBugaev) L("brems", Brems, PetrukhinShestakov) L("brems", Brems, CompleteScreening) L("brems", Brems, SandrockSoedingreksoRhode) L("brems", Brems, ElectronScreening)
    L("epair", Epair, KelnerKokoulinPetrukhin) L("epair", Epair, SandrockSoedingreksoRhode) L("epair", Epair, ForElectronPositron)
    Q("photopair", Tsai, xs::PhotoPairTsai(on, p, m)) Q("photopair", KochMotz, xs::PhotoPairKochMotz(on, p, m)) Q("annihilation", Heitler, xs::AnnihilationHeitler()) Q("photomupair", BurkhardtKelnerKokoulin, xs::PhotoMuPairBurkhardtKelnerKokoulin())
    Q("photoeffect", Sauter, xs::PhotoeffectSauter()) Q("weak", CooperSarkarMertsch, xs::WeakCooperSarkarMertsch()) P("compton", KleinNishina, xs::ComptonKleinNishina()) P("mupair", KelnerKokoulinPetrukhin, xs::MupairKelnerKokoulinPetrukhin())
    P("ioniz", BetheBlochRossi, xs::IonizBetheBlochRossi(*cut())) P("ioniz", BergerSeltzerBhabha, xs::IonizBergerSeltzerBhabha(*cut())) P("ioniz", BergerSeltzerMoller, xs::IonizBergerSeltzerMoller(*cut()))
    P("real", Zeus, xs::PhotoZeus(on)) P("real", BezrukovBugaev, xs::PhotoBezrukovBugaev(on)) P("real", Kokoulin, xs::PhotoKokoulin(on)) P("real", Rhode, xs::PhotoRhode(on))
    std::shared_ptr<xs::ShadowEffect> s; if (f == "ButkevichMikheyev") s = std::make_shared<xs::ShadowButkevichMikheyev>(); else s = std::make_shared<xs::ShadowDuttaRenoSarcevicSeckel>();
    P("q2", AbramowiczLevinLevyMaor91, xs::PhotoAbramowiczLevinLevyMaor91(s)) P("q2", AbramowiczLevinLevyMaor97, xs::PhotoAbramowiczLevinLevyMaor97(s)) P("q2", ButkevichMikheyev, xs::PhotoButkevichMikheyev(s)) P("q2", RenoSarcevicSu, xs::PhotoRenoSarcevicSu(s)) P("q2", AbtFT, xs::PhotoAbtFT(s)) P("q2", BlockDurandHa, xs::PhotoBlockDurandHa(s))
    Q("photoproduction", Zeus, xs::PhotoproductionZeus()) Q("photoproduction", BezrukovBugaev, xs::PhotoproductionBezrukovBugaev()) Q("photoproduction", Caldwell, xs::PhotoproductionCaldwell()) Q("photoproduction", Kokoulin, xs::PhotoproductionKokoulin()) Q("photoproduction", Rhode, xs::PhotoproductionRhode()) Q("photoproduction", Heck, xs::PhotoproductionHeck()) Q("photoproduction", HeckC7Shadowing, xs::PhotoproductionHeckC7Shadowing())
    return nullptr;
}
static Cross by_document(std::string const& k, Doc const& d, std::string const& n) {
    auto p = who(k, n); auto m = Ice(); auto c = cut();
    if (k == "brems") return make_bremsstrahlung(p, m, c, false, d); if (k == "epair") return make_epairproduction(p, m, c, false, d); if (k == "ioniz") return make_ionization(p, m, c, false, d); if (k == "mupair") return make_mupairproduction(p, m, c, false, d);
    if (k == "q2") return make_photonuclearQ2(p, m, c, false, d); if (k == "real") return make_photonuclearreal(p, m, c, false, d); if (k == "compton") return make_compton(p, m, c, false, d); if (k == "photopair") return make_photopairproduction(p, m, false, d);
    if (k == "photomupair") return make_photomupairproduction(p, m, false, d); if (k == "annihilation") return make_annihilation(p, m, false, d); if (k == "photoeffect") return make_photoeffect(p, m, d); if (k == "photoproduction") return make_photoproduction(p, m, d); return make_weakinteraction(p, m, false, d);
}
static json rates(CrossSectionBase& c, double E) { return DV(std::vector<double> { c.CalculatedNdx(E), c.CalculatedEdx(E), c.CalculatedE2dx(E) }); }
int main(int, char** a) {
    Trace t(a[1]); Rng g(std::strtoull(std::getenv("VERIF_SEED") ? std::getenv("VERIF_SEED") : "1", nullptr, 10)); std::ifstream in(a[2]); std::string s; std::map<std::string, std::pair<Cross, json>> code;
    bool scaled = std::string(a[3]) == "scaled";
    while (std::getline(in, s)) {
        auto q = json::parse(s); auto k = q["kind"].get<std::string>(); auto means = q["means"]; bool good = !means.empty();
        if (scaled) { // every number that is not an integer times the same factor
            if (k == "medium" || k == "cuts") continue; double f = g.u(.1, 1); std::function<void(json&)> fix = [&](json& v) { if (v["t"] == "num") v["s"] = D(f * num(v["s"])); for (auto& x : v["a"]) fix(x); };
            // (the meaning is worked out anew from the document by the specification; code builds from its texts)
            std::map<std::string, std::string> texts; std::function<void(json const&)> old = [&](json const& v) { if (v["t"] == "num") texts[v["s"].get<std::string>()] = D(f * num(v["s"])); for (auto& x : v["a"]) old(x); };
            bool clash = false; for (auto& x : q["doc"].items()) { old(x.value()); fix(x.value()); } // integers and defaults keep their texts
            for (auto& x : q["doc"].items()) { std::function<void(json const&)> ints = [&](json const& v) { if (v["t"] == "int" && texts.count(v["s"].get<std::string>())) clash = true; for (auto& y : v["a"]) ints(y); }; ints(x.value()); }
            if (clash || texts.empty() || texts.count("1") || texts.count("0")) continue; for (auto& x : means) if (x.is_string() && texts.count(x.get<std::string>())) x = texts[x.get<std::string>()];
        }
        auto d = document(q["doc"]); json e { { "kind", k }, { "doc", q["doc"] }, { "same", true } };
        e["thrown"] = thrown([&] {
            if (k == "cartesian") { Cartesian3D v(d.contains("v") ? d["v"] : d); e["got"] = D3(v); if (good) e["same"] = v == vec(means, 0); }
            else if (k == "spherical") { Spherical3D v(d["v"]); e["got"] = D3(v); }
            else if (k == "cuts") { EnergyCutSettings c(d); e["got"] = json::array({ D(c.GetEcut()), D(c.GetVcut()), c.GetContRand() ? "true" : "false" }); if (good) e["same"] = c == EnergyCutSettings(means[0] == "inf" ? INF : num(means[0]), num(means[1]), means[2] == "true"); }
            else if (k == "geometry") {
                auto o = CreateGeometry(d); auto x = o->GetPosition(); json got { o->GetName(), D(x.GetX()), D(x.GetY()), D(x.GetZ()), std::to_string(o->GetHierarchy()) }; std::shared_ptr<Geometry> r;
                if (auto* y = dynamic_cast<Sphere*>(o.get())) { got.push_back(D(y->GetRadius())); got.push_back(D(y->GetInnerRadius())); r = std::make_shared<Sphere>(x, y->GetRadius(), y->GetInnerRadius()); }
                if (auto* y = dynamic_cast<Box*>(o.get())) { got.push_back(D(y->GetX())); got.push_back(D(y->GetY())); got.push_back(D(y->GetZ())); r = std::make_shared<Box>(x, y->GetX(), y->GetY(), y->GetZ()); }
                if (auto* y = dynamic_cast<Cylinder*>(o.get())) { got.push_back(D(y->GetRadius())); got.push_back(D(y->GetInnerRadius())); got.push_back(D(y->GetZ())); r = std::make_shared<Cylinder>(x, y->GetZ(), y->GetRadius(), y->GetInnerRadius()); }
                r->SetHierarchy(o->GetHierarchy()); e["same"] = *r == *o && *o == *r; e["got"] = got;
            } else if (k == "density") {
                auto o = CreateDensityDistribution(d); e["at"] = json::array();
                if (good) { auto r = density(means); e["same"] = *r == *o && *o == *r; bool flat = means[0] == "homogeneous"; auto p0 = flat ? Cartesian3D(0, 0, 0) : vec(means, 3);
                    for (double s : { 0., .5, 1.25, 2.5 }) { Cartesian3D x = p0 + s * Cartesian3D(g.u(-.5, .5), g.u(-.5, .5), 1); e["at"].push_back({ { "x", D3(x) }, { "rho", D(o->Evaluate(x)) } }); } }
            } else if (k == "medium") { auto o = CreateMedium(d["name"].get<std::string>()); if (good) { auto r = medium(means[0]); e["same"] = r && *r == *o && r->GetName() == o->GetName() && r->GetMassDensity() == o->GetMassDensity() && r->GetHash() == o->GetHash(); } }
            else {
                auto c = by_document(k, d, good ? means[1].get<std::string>() : ""); e["rates"] = json::array();
                if (good) {
                    auto id = k + "|" + means[1].get<std::string>() + "|" + means[3].get<std::string>(); auto& r = code[id]; std::vector<double> Es = k == "compton" || k == "photoeffect" ? std::vector<double> { 1.5, 700 } : std::vector<double> { 2e4, 3e7 };
                    if (!r.first) { r.first = by_code(means); for (double E : Es) r.second.push_back(rates(*r.first, E)); }
                    for (size_t i = 0; i < Es.size(); ++i) e["rates"].push_back({ rates(*c, Es[i]), r.second[i] });
                    e["same"] = c->GetParametrizationName() == r.first->GetParametrizationName() && c->GetInteractionType() == r.first->GetInteractionType() && c->GetLowerEnergyLim() == r.first->GetLowerEnergyLim() && (num(means[2]) != 1 || c->GetHash() == r.first->GetHash());
                }
            }
        });
        t(e);
    }
}
