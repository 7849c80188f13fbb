// Value semantics of copyable and comparable objects.   LIB=full
//   objs TRACE script FILE all|turns | random N
#include "vtrace.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/density_distr/density_splines.h"
#include "PROPOSAL/geometry/Box.h"
#include "PROPOSAL/geometry/Cylinder.h"
#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/math/Spherical3D.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/propagation_utility/PropagationUtility.h"
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/scattering/multiple_scattering/Moliere.h"
using namespace PROPOSAL;
using Par = std::vector<std::string>;
static double N(std::string const& s) { return std::strtod(s.c_str(), nullptr); }
static Rng g(env_seed());
struct Obj {
    std::string fam, kind; Par par;
    virtual ~Obj() = default;
    virtual std::unique_ptr<Obj> copy() const = 0;   // by copy constructor or clone
    virtual bool assign(Obj const&) = 0;             // false: not assignable
    virtual bool eq(Obj const&) const = 0;
    virtual bool ne(Obj const&) const = 0;
    virtual json beh() = 0;
    virtual Par get() const { return par; }
    virtual bool set(Trace&, std::function<json(json)>) { return false; }
    virtual bool change(Trace&, std::function<json(json)>) { return false; }
};
template <class T, class = void> struct has_clone : std::false_type { };
template <class T> struct has_clone<T, decltype(void(std::declval<T const&>().clone()))> : std::true_type { };
template <class B, class = void> struct has_ne : std::false_type { };
template <class B> struct has_ne<B, decltype(void(std::declval<B const&>() != std::declval<B const&>()))> : std::true_type { };
template <class B, class T> struct Of : Obj {
    std::shared_ptr<T> p;
    using Beh = std::function<json(T&)>; using Get = std::function<Par(T const&, Par const&)>;
    struct Setter { int f; int n; std::function<void(T&, std::vector<double> const&)> set; };
    struct Change { std::string name; std::function<void(T&)> go; };
    Beh b; Get gt; std::vector<Setter> setters; std::vector<Change> changes;
    template <class Q = T> static T* cloned(Q const& t, std::true_type) { auto c = t.clone(); return dynamic_cast<T*>(release(c)); }
    template <class Q = T> static T* cloned(Q const& t, std::false_type) { return new T(t); }
    template <class X> static X* release(X* x) { return x; }
    template <class X> static X* release(std::unique_ptr<X>& x) { return x.release(); }
    std::unique_ptr<Obj> copy() const override {
        std::unique_ptr<Of> o(new Of(*this));
        o->p.reset(g.i(0, 1) ? cloned(*p, has_clone<T>()) : new T(*p)); return o;
    }
    template <class Q> static bool as(Q& a, Q const& b, std::true_type) { a = b; return true; }
    template <class Q> static bool as(Q&, Q const&, std::false_type) { return false; }
    bool assign(Obj const& o) override { auto q = dynamic_cast<Of const*>(&o); if (!q || q->kind != kind || !as(*p, *q->p, std::integral_constant<bool, std::is_copy_assignable<T>::value && !std::is_base_of<DecayChannel, T>::value>())) return false; par = q->par; return true; }
    struct Base { }; // comparison always through the base
    static B const& base(Obj const& o);
    B const* pb() const { return p.get(); }
    std::function<B const*()> asbase() const { return [this] { return pb(); }; }
    virtual void const* raw() const { return static_cast<B const*>(p.get()); }
    bool eq(Obj const& o) const override { return *pb() == *static_cast<B const*>(rawof(o)); }
    template <class Q> static bool neq(Q const& a, Q const& b, std::true_type) { return a != b; }
    template <class Q> static bool neq(Q const& a, Q const& b, std::false_type) { return !(a == b); }
    bool ne(Obj const& o) const override { return neq<B>(*pb(), *static_cast<B const*>(rawof(o)), has_ne<B>()); }
    static void const* rawof(Obj const& o);
    json beh() override { return b(*p); }
    Par get() const override { return gt ? gt(*p, par) : par; }
    bool set(Trace&, std::function<json(json)> log) override {
        if (setters.empty()) return false; auto& s = setters[g.i(0, setters.size() - 1)]; std::vector<double> v; json j = json::array();
        for (int i = 0; i < s.n; ++i) { v.push_back(s.f + i == 7 && fam == "geometry" ? g.i(0, 3) : std::round(g.u(1, 40)) / 4); j.push_back(D(v[i])); par[s.f - 1 + i] = D(v[i]); }
        s.set(*p, v); log({ { "k", "set" }, { "f", s.f }, { "v", j } }); return true;
    }
    bool change(Trace&, std::function<json(json)> log) override { if (changes.empty()) return false; auto& c = changes[g.i(0, changes.size() - 1)]; c.go(*p); log({ { "k", "do" }, { "op", c.name } }); return true; }
};
// all objects of a family share the base; the address of the base is asked virtually
struct Raw { virtual void const* raw() const = 0; virtual ~Raw() = default; };

template <class B, class T> struct Made : Of<B, T>, Raw {
    void const* raw() const override { return static_cast<B const*>(this->p.get()); }
    std::unique_ptr<Obj> copy() const override { std::unique_ptr<Made> o(new Made(*this)); o->p.reset(g.i(0, 1) ? Of<B, T>::cloned(*this->p, has_clone<T>()) : new T(*this->p)); return o; }
};
template <class B, class T> void const* Of<B, T>::rawof(Obj const& o) { return dynamic_cast<Raw const&>(o).raw(); }
template <class B, class T> std::unique_ptr<Made<B, T>> mk(T* t, typename Of<B, T>::Beh b, typename Of<B, T>::Get gt = {}) { std::unique_ptr<Made<B, T>> o(new Made<B, T>); o->p.reset(t); o->b = b; o->gt = gt; return o; }

static std::vector<Cartesian3D> probe { { 0.3, 0.2, -0.4 }, { -7, 1.3, 2.1 }, { 1.1, -9, 0.7 }, { 2.3, 3.1, 11 } };
static std::vector<Cartesian3D> ways { { 0, 0, 1 }, { 0.6, 0, 0.8 }, { 0, -0.6, -0.8 } };
static json geo(Geometry& q) { json a = json::array(); for (auto& p : probe) for (auto& w : ways) { auto d = q.DistanceToBorder(p, w); a.push_back(D(d.first)); a.push_back(D(d.second)); a.push_back(q.IsInside(p, w) ? 1 : q.IsInfront(p, w) ? 2 : 3); a.push_back(D(q.DistanceToClosestApproach(p, w))); } return a; }
static json ax(Axis& q) { json a = json::array(); for (auto& p : probe) for (auto& w : ways) { a.push_back(D(q.GetDepth(p))); a.push_back(D(q.GetEffectiveDistance(p, w))); } return a; }
static json dens(Density_distr& q) { json a = json::array(); for (auto& p : probe) { a.push_back(D(q.Evaluate(p))); for (auto& w : ways) { a.push_back(D(q.Calculate(p, w, 2.5))); a.push_back(D(q.Integrate(p, w, 1.5))); std::string e; double c = 0; e = thrown([&] { c = q.Correct(p, w, .01, 100); }); a.push_back(e.empty() ? D(c) : e); } a.push_back(D(q.GetAxis().GetDepth(p))); } return a; }
static json vec(Vector3D& v) { auto c = v.GetCartesianCoordinates(), s = v.GetSphericalCoordinates(); json a = json::array(); for (auto x : c) a.push_back(D(x)); for (auto x : s) a.push_back(D(x)); a.push_back(D(v.magnitude())); return a; }
static json poly(Polynom& p) { json a = json::array(); for (double x : { -2., 0., .7, 3. }) { a.push_back(D(p.evaluate(x))); a.push_back(D(p.GetFunction()(x))); a.push_back(D(p.GetDerivative().evaluate(x))); a.push_back(D(p.GetAntiderivative(2).evaluate(x))); } a.push_back(DV(p.GetCoefficient())); return a; }
static json spl(Spline& s) { json a = json::array(); auto d = s.GetDomain(); for (int i = 0; i <= 8; ++i) a.push_back(D(s.evaluate(d.first + (d.second - d.first) * i / 8))); a.push_back(D(d.first)); a.push_back(D(d.second)); return a; }
static json chan(DecayChannel& c) {
    json a = json::array(); RandomGenerator::Get().SetSeed(11); TauMinusDef tau;
    for (int k = 0; k < 2; ++k) { ParticleState s(ParticleType::TauMinus, Cartesian3D(1, 2, 3), Cartesian3D(0, 0.6, 0.8), 5000, 3, 4); for (auto& p : c.Decay(tau, s)) { a.push_back(p.type); a.push_back(D(p.energy)); a.push_back(D3(p.direction)); } }
    a.push_back(c.GetName()); return a;
}
static json scat(multiple_scattering::Parametrization& s) { json a = json::array(); for (double e : { 300., 5000., 1e6 }) for (double x : { .1, 30. }) { auto o = s.CalculateRandomAngle(x, e, e * .9, { .2, .6, .7, .35 }); for (double v : { o.sx, o.sy, o.tx, o.ty }) a.push_back(D(v)); } return a; }
struct Tools : PropagationUtility::Collection { bool operator==(Tools const& o) const { auto a = *this; return static_cast<PropagationUtility::Collection&>(a) == o; } };
static Cartesian3D V(Par const& p, int i) { return { N(p[i]), N(p[i + 1]), N(p[i + 2]) }; }
static std::vector<ParticleDef> const& pdefs() { static std::vector<ParticleDef> v { EMinusDef(), MuMinusDef(), MuPlusDef(), TauMinusDef(), SMPMinusDef(), PiMinusDef() }; return v; }
static std::vector<Medium> const& meds() { static std::vector<Medium> v { Water(), Ice(), Lead(), Air(), StandardRock(), Hydrogen() }; return v; }
static ParticleDef const& lep(std::string const& s) { static std::map<std::string, ParticleDef> m { { "e", EMinusDef() }, { "m", MuMinusDef() }, { "ne", NuEBarDef() }, { "nm", NuMuBarDef() }, { "nt", NuTauDef() }, { "pi", PiMinusDef() }, { "g", GammaDef() }, { "pi0", Pi0Def() } }; return m.at(s); }
struct Kind { std::string fam, kind; std::function<Par()> fresh; std::function<void(Par&, int)> vary; std::function<std::unique_ptr<Obj>(Par const&)> make; };
static std::string q() { return D(std::round(g.u(1, 40)) / 4); }
static std::string c() { return D(std::round(g.u(-20, 20)) / 4 + .125); }
static Par cat(Par a, Par const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static Par axis() { return g.i(0, 1) ? Par { "radial", c(), c(), c(), "0", "0", "1" } : Par { "cartesian", c(), c(), c(), "0", g.i(0, 1) ? "0.6" : "0.8", g.i(0, 1) ? "0.6" : "0.8" }; }
static Axis* mkaxis(Par const& p) { return p[0] == "radial" ? (Axis*)new RadialAxis(V(p, 1)) : (Axis*)new CartesianAxis(V(p, 4), V(p, 1)); }
static void num(Par& p, int i) { p[i] = D(N(p[i]) + .5); }
static std::vector<double> nums(Par const& p, size_t a, size_t n) { std::vector<double> v; for (size_t i = a; i < a + n; ++i) v.push_back(N(p[i])); return v; }
static std::vector<Kind> kinds() {
    std::vector<Kind> k;
    auto anyn = [](Par& p, int r) { num(p, r % p.size()); };
    auto geom = [&](std::string kind, int n) { return [=] { Par p { c(), c(), c() }; for (int i = 0; i < 3; ++i) p.push_back(i < n ? q() : "1"); if (kind != "box" && g.i(0, 2) == 0) p[4] = "0"; p.push_back(std::to_string(g.i(0, 3))); return p; }; };
    auto gvary = [](Par& p, int r) { r %= 7; if (r == 6) p[6] = std::to_string(std::stoi(p[6]) + 1); else num(p, r); };
    auto gget = [](Geometry const& x, std::vector<double> m) { auto p = x.GetPosition(); Par r { D(p.GetX()), D(p.GetY()), D(p.GetZ()) }; for (double v : m) r.push_back(D(v)); r.push_back(std::to_string(x.GetHierarchy())); return r; };
    k.push_back({ "geometry", "box", geom("box", 3), gvary, [=](Par const& p) {
        auto o = mk<Geometry, Box>(new Box(V(p, 0), N(p[3]), N(p[4]), N(p[5])), geo, [=](Box const& b, Par const&) { return gget(b, { b.GetX(), b.GetY(), b.GetZ() }); }); o->p->SetHierarchy(std::stoi(p[6]));
        o->setters = { { 1, 3, [](Box& b, auto& v) { b.SetPosition(Cartesian3D(v[0], v[1], v[2])); } }, { 4, 1, [](Box& b, auto& v) { b.SetX(v[0]); } }, { 5, 1, [](Box& b, auto& v) { b.SetY(v[0]); } }, { 6, 1, [](Box& b, auto& v) { b.SetZ(v[0]); } }, { 7, 1, [](Box& b, auto& v) { b.SetHierarchy(v[0]); } } }; return o; } });
    k.push_back({ "geometry", "sphere", geom("sphere", 2), [=](Par& p, int r) { r %= 7; if (r == 5) r = 4; gvary(p, r); }, [=](Par const& p) {
        auto o = mk<Geometry, Sphere>(new Sphere(V(p, 0), N(p[3]), N(p[4])), geo, [=](Sphere const& b, Par const& q) { return gget(b, { b.GetRadius(), b.GetInnerRadius(), N(q[5]) }); }); o->p->SetHierarchy(std::stoi(p[6]));
        o->setters = { { 1, 3, [](Sphere& b, auto& v) { b.SetPosition(Cartesian3D(v[0], v[1], v[2])); } }, { 4, 1, [](Sphere& b, auto& v) { b.SetRadius(v[0]); } }, { 5, 1, [](Sphere& b, auto& v) { b.SetInnerRadius(v[0]); } }, { 7, 1, [](Sphere& b, auto& v) { b.SetHierarchy(v[0]); } } }; return o; } });
    k.push_back({ "geometry", "cylinder", geom("cylinder", 3), gvary, [=](Par const& p) {
        auto o = mk<Geometry, Cylinder>(new Cylinder(V(p, 0), N(p[5]), N(p[3]), N(p[4])), geo, [=](Cylinder const& b, Par const&) { return gget(b, { b.GetRadius(), b.GetInnerRadius(), b.GetZ() }); }); o->p->SetHierarchy(std::stoi(p[6]));
        o->setters = { { 1, 3, [](Cylinder& b, auto& v) { b.SetPosition(Cartesian3D(v[0], v[1], v[2])); } }, { 4, 1, [](Cylinder& b, auto& v) { b.SetRadius(v[0]); } }, { 5, 1, [](Cylinder& b, auto& v) { b.SetInnerRadius(v[0]); } }, { 6, 1, [](Cylinder& b, auto& v) { b.SetZ(v[0]); } }, { 7, 1, [](Cylinder& b, auto& v) { b.SetHierarchy(v[0]); } } }; return o; } });
    auto vget = [](Vector3D const& v, Par const&) { return Par { D(v[0]), D(v[1]), D(v[2]) }; };
    auto vpar = [] { return Par { q(), c(), c() }; };
    k.push_back({ "vector", "cartesian", vpar, anyn, [=](Par const& p) { auto o = mk<Vector3D, Cartesian3D>(new Cartesian3D(V(p, 0)), vec, vget);
        o->setters = { { 1, 3, [](Cartesian3D& v, auto& x) { v.SetCoordinates(x[0], x[1], x[2]); } }, { 1, 1, [](Cartesian3D& v, auto& x) { v.SetX(x[0]); } }, { 2, 1, [](Cartesian3D& v, auto& x) { v.SetY(x[0]); } }, { 3, 1, [](Cartesian3D& v, auto& x) { v.SetZ(x[0]); } } }; return o; } });
    k.push_back({ "vector", "spherical", vpar, anyn, [=](Par const& p) { auto o = mk<Vector3D, Spherical3D>(new Spherical3D(N(p[0]), N(p[1]), N(p[2])), vec, vget);
        o->setters = { { 1, 3, [](Spherical3D& v, auto& x) { v.SetCoordinates(x[0], x[1], x[2]); } }, { 1, 1, [](Spherical3D& v, auto& x) { v.SetRadius(x[0]); } }, { 2, 1, [](Spherical3D& v, auto& x) { v.SetAzimuth(x[0]); } }, { 3, 1, [](Spherical3D& v, auto& x) { v.SetZenith(x[0]); } } }; return o; } });
    auto axvary = [](Par& p, int r) { num(p, p[0] == "radial" ? 1 + r % 3 : 1 + r % 6); };
    k.push_back({ "axis", "radialaxis", [] { return Par { "radial", c(), c(), c() }; }, axvary, [](Par const& p) { return mk<Axis, RadialAxis>(new RadialAxis(V(p, 1)), ax, [](RadialAxis const& a, Par const&) { auto f = a.GetFp0(); return Par { "radial", D(f.GetX()), D(f.GetY()), D(f.GetZ()) }; }); } });
    k.push_back({ "axis", "cartesianaxis", [] { return Par { "cartesian", c(), c(), c(), q(), q(), c() }; }, axvary, [](Par const& p) { return mk<Axis, CartesianAxis>(new CartesianAxis(V(p, 4), V(p, 1)), ax, [](CartesianAxis const& a, Par const&) { auto f = a.GetFp0(), x = a.GetAxis(); return Par { "cartesian", D(f.GetX()), D(f.GetY()), D(f.GetZ()), D(x.GetX()), D(x.GetY()), D(x.GetZ()) }; }); } });
    k.push_back({ "density", "homogeneous", [] { return Par { q() }; }, anyn, [](Par const& p) { return mk<Density_distr, Density_homogeneous>(new Density_homogeneous(N(p[0])), dens); } });
    auto dvary = [axvary](Par& p, int r) { int n = int(p.size()) - 7; if (r % (n + 6) < n) num(p, 7 + r % (n + 6)); else axvary(p, r % (n + 6) - n); };
    k.push_back({ "density", "exponential", [] { return cat(axis(), { D(N(q()) + 20), c(), q() }); }, dvary, [](Par const& p) { std::unique_ptr<Axis> a(mkaxis(p)); return mk<Density_distr, Density_exponential>(new Density_exponential(*a, N(p[7]), N(p[8]), N(p[9])), dens); } });
    k.push_back({ "density", "polynomial", [] { return cat(axis(), { q(), "30", D(N(q()) / 40), D(N(q()) / 4000) }); }, dvary, [](Par const& p) { std::unique_ptr<Axis> a(mkaxis(p)); Polynom f(nums(p, 8, 3)); auto o = mk<Density_distr, Density_polynomial>(new Density_polynomial(*a, f, N(p[7])), dens); f.shift(3); return o; } });
    for (bool cub : { false, true }) k.push_back({ "density", cub ? "cubic" : "linear", [] { return cat(axis(), { q(), q(), q(), q(), q(), q(), q() }); }, dvary, [cub](Par const& p) {
        std::unique_ptr<Axis> a(mkaxis(p)); std::vector<double> x { -60, -10, -1, 3, 20, 80 }; std::unique_ptr<Spline> s; if (cub) s.reset(new Cubic_Spline(x, nums(p, 8, 6))); else s.reset(new Linear_Spline(x, nums(p, 8, 6)));
        auto o = mk<Density_distr, Density_splines>(new Density_splines(*a, *s, N(p[7])), dens); s->Derivative(); return o; } });
    k.push_back({ "polynom", "polynom", [] { Par p; for (int n = g.i(1, 5); n > 0; --n) p.push_back(c()); return p; }, anyn, [](Par const& p) { auto v = nums(p, 0, p.size()); auto o = mk<Polynom, Polynom>(new Polynom(v), poly); o->changes = { { "shift 1", [](Polynom& f) { f.shift(1); } }, { "shift -2.5", [](Polynom& f) { f.shift(-2.5); } } }; return o; } });
    for (bool cub : { false, true }) k.push_back({ "spline", cub ? "cubicspline" : "linearspline", [] { Par p; int n = g.i(4, 6); double x = -3; for (int i = 0; i < n; ++i) p.push_back(D(x += g.i(1, 4))); for (int i = 0; i < n; ++i) p.push_back(c()); return p; }, [](Par& p, int r) { num(p, r % p.size()); }, [cub](Par const& p) -> std::unique_ptr<Obj> {
        int n = p.size() / 2; auto x = nums(p, 0, n), y = nums(p, n, n);
        if (cub) { auto o = mk<Spline, Cubic_Spline>(new Cubic_Spline(x, y), spl); o->changes = { { "d", [](Spline& s) { s.Derivative(); } }, { "a 0", [](Spline& s) { s.Antiderivative(0); } }, { "a 2", [](Spline& s) { s.Antiderivative(2); } } }; return o; }
        auto o = mk<Spline, Linear_Spline>(new Linear_Spline(x, y), spl); o->changes = { { "d", [](Spline& s) { s.Derivative(); } }, { "a 0", [](Spline& s) { s.Antiderivative(0); } }, { "a 2", [](Spline& s) { s.Antiderivative(2); } } }; return o; } });
    auto cbeh = [](Component& x) { return json::array({ D(x.GetLogConstant()), D(x.GetBPrime()), D(x.GetAverageNucleonWeight()), D(x.GetWoodSaxon()), std::to_string(x.GetHash()) }); };
    k.push_back({ "component", "component", [] { return Par { "c" + q(), D(g.i(1, 92)), D(g.i(1, 230)), q() }; }, [](Par& p, int r) { r %= 4; if (r == 0) p[0] += "x"; else if (r == 1) p[1] = D(N(p[1]) + 1); else num(p, r); }, [cbeh](Par const& p) { return mk<Component, Component>(new Component(p[0], N(p[1]), N(p[2]), N(p[3])), cbeh, [](Component const& x, Par const&) { return Par { x.GetName(), D(x.GetNucCharge()), D(x.GetAtomicNum()), D(x.GetAtomInMolecule()) }; }); } });
    k.push_back({ "medium", "medium", [] { Par p { "m" + q() }; for (int i = 0; i < 8; ++i) p.push_back(q()); for (int n = g.i(1, 3); n > 0; --n) { p.push_back("c" + q()); p.push_back(D(g.i(1, 90))); p.push_back(D(g.i(1, 230))); p.push_back(q()); } return p; },
        [](Par& p, int r) { r %= p.size(); if (r == 0 || (r >= 9 && (r - 9) % 4 == 0)) p[r] += "x"; else num(p, r); }, [cbeh](Par const& p) {
            std::vector<Component> cs; for (size_t i = 9; i < p.size(); i += 4) cs.push_back(Component(p[i], N(p[i + 1]), N(p[i + 2]), N(p[i + 3])));
            auto o = mk<Medium, Medium>(new Medium(p[0], N(p[1]), N(p[2]), N(p[3]), N(p[4]), N(p[5]), N(p[6]), N(p[7]), N(p[8]), cs), [cbeh](Medium& m) { json a = json::array({ D(m.GetZA()), D(m.GetMolDensity()), D(m.GetMM()), D(m.GetRadiationLength()), D(m.GetSumCharge()), std::to_string(m.GetHash()) }); for (auto x : m.GetComponents()) a.push_back(cbeh(x)); return a; },
                [](Medium const& m, Par const&) { Par p { m.GetName() }; for (double v : { m.GetI(), m.GetC(), m.GetA(), m.GetM(), m.GetX0(), m.GetX1(), m.GetD0(), m.GetMassDensity() }) p.push_back(D(v)); for (auto& x : m.GetComponents()) { p.push_back(x.GetName()); p.push_back(D(x.GetNucCharge())); p.push_back(D(x.GetAtomicNum())); p.push_back(D(x.GetAtomInMolecule())); } return p; });
            cs.clear(); return o; } });
    k.push_back({ "channel", "stable", [] { return Par {}; }, [](Par&, int) {}, [](Par const&) { return mk<DecayChannel, StableChannel>(new StableChannel(), chan); } });
    k.push_back({ "channel", "twobody", [] { return Par { g.i(0, 1) ? "pi" : "m", g.i(0, 1) ? "nt" : "g" }; }, [](Par& p, int r) { if (r % 2) p[0] = p[0] == "e" ? "m" : "e"; else p[1] = p[1] == "ne" ? "nt" : "ne"; }, [](Par const& p) { return mk<DecayChannel, TwoBodyPhaseSpace>(new TwoBodyPhaseSpace(lep(p[0]), lep(p[1])), chan); } });
    k.push_back({ "channel", "leptonic", [] { return Par { g.i(0, 1) ? "e" : "m", "ne", "nt" }; }, [](Par& p, int r) { if (r % 3 == 0) p[0] = p[0] == "e" ? "m" : "e"; else p[r % 3] = p[r % 3] == "nm" ? "ne" : "nm"; }, [](Par const& p) { return mk<DecayChannel, LeptonicDecayChannel>(new LeptonicDecayChannel(lep(p[0]), lep(p[1]), lep(p[2])), chan); } });
    k.push_back({ "channel", "manybody", [] { Par p { "pi", "nt" }; for (int n = g.i(1, 3); n > 0; --n) p.push_back(g.i(0, 1) ? "pi0" : "pi"); return p; }, [](Par& p, int r) { r %= p.size() + 1; if (r == int(p.size())) p.push_back("g"); else p[r] = p[r] == "e" ? "ne" : "e"; }, [](Par const& p) { std::vector<std::shared_ptr<const ParticleDef>> d; for (auto& s : p) d.push_back(std::make_shared<ParticleDef>(lep(s))); return mk<DecayChannel, ManyBodyPhaseSpace>(new ManyBodyPhaseSpace(d), chan); } });
    auto spar = [](bool mol, int i, int m) { auto& d = pdefs()[i]; auto& md = meds()[m]; Par p { std::to_string(i), std::to_string(m) }; (void)mol; (void)d; (void)md; return p; };
    (void)spar;
    using MSP = multiple_scattering::Parametrization;
    // the parameters a scattering depends on; the indices to make it lead
    auto scpar = [](bool mol, int i, int m) { auto& d = pdefs()[i]; auto& md = meds()[m]; Par p { D(d.mass) }; if (mol) for (auto& x : md.GetComponents()) { p.push_back(D(x.GetNucCharge())); p.push_back(D(x.GetAtomicNum())); p.push_back(D(x.GetAtomInMolecule())); } else { p.push_back(D(d.charge)); p.push_back(D(md.GetRadiationLength())); } return p; };
    for (bool mol : { false, true }) k.push_back({ "scattering", mol ? "moliere" : "highland", [=] { return scpar(mol, g.i(0, pdefs().size() - 1), g.i(0, meds().size() - 1)); }, [=](Par& p, int r) { for (size_t i = 0; i < 36; ++i) { auto n = scpar(mol, (i + r) % 6, (i / 6 + r) % 6); if (n != p) { p = n; return; } } }, [=](Par const& p) -> std::unique_ptr<Obj> {
        for (int a = 0; a < 36; ++a) { int s = g.i(0, 35); for (int t = 0; t < 36; ++t) { int i = (s + t) % 6, m = ((s + t) / 6) % 6; if (scpar(mol, i, m) != p) continue; if (mol) return mk<MSP, multiple_scattering::Moliere>(new multiple_scattering::Moliere(pdefs()[i], meds()[m]), scat); return mk<MSP, multiple_scattering::Highland>(new multiple_scattering::Highland(pdefs()[i], meds()[m]), scat); } }
        std::abort(); } });
    // which tools a sector works with: the same, or others (never used here)
    k.push_back({ "collection", "collection", [] { Par p; for (int i = 0; i < 6; ++i) p.push_back(std::to_string(g.i(0, 3))); return p; }, [](Par& p, int r) { r %= 6; p[r] = std::to_string((std::stoi(p[r]) + 1) % 4); }, [](Par const& p) {
        static char pool[6][4]; auto c = new Tools; auto at = [&](auto& x, int i) { using T = typename std::remove_reference_t<decltype(x)>::element_type; int n = std::stoi(p[i]); if (n) x = std::shared_ptr<T>(std::shared_ptr<char>(), reinterpret_cast<T*>(&pool[i][n])); };
        at(c->interaction_calc, 0); at(c->displacement_calc, 1); at(c->time_calc, 2); at(c->scattering, 3); at(c->decay_calc, 4); at(c->cont_rand, 5);
        return mk<Tools, Tools>(c, [](Tools& t) { json a = json::array(); int i = 0; for (void const* q : { (void const*)t.interaction_calc.get(), (void const*)t.displacement_calc.get(), (void const*)t.time_calc.get(), (void const*)t.scattering.get(), (void const*)t.decay_calc.get(), (void const*)t.cont_rand.get() }) { a.push_back(q ? int((char const*)q - pool[i]) : 0); ++i; } return a; }); } });
    return k;
}
int main(int argc, char** argv) {
    Trace t(argv[1]); std::string mode = argv[2]; Logging::SetGlobalLoglevel(spdlog::level::off);
    auto ks = kinds(); std::map<std::string, std::vector<Kind*>> fam; for (auto& k : ks) fam[k.fam].push_back(&k);
    size_t turn = 0;
    auto history = [&](json const& ops, Kind& main) {
        ++turn; std::map<int, std::unique_ptr<Obj>> o; auto& same = fam[main.fam]; Par base = main.fresh(); int vary = g.i(0, 1000);
        auto log = [&](json e) {
            json seen = json::array(), eq = json::array();
            for (auto& x : o) { json gt = json::array(); for (auto& s : x.second->get()) gt.push_back(s); auto b = x.second->beh(); if (g.i(0, 3) == 0) b = x.second->beh(); seen.push_back({ { "s", x.first }, { "get", gt }, { "beh", b } }); }
            for (auto& a : o) for (auto& b : o) if (a.second->fam == b.second->fam) eq.push_back({ { "a", a.first }, { "b", b.first }, { "eq", a.second->eq(*b.second) }, { "ne", a.second->ne(*b.second) } });
            e["seen"] = seen; e["eq"] = eq; t(e); return e;
        };
        t({ { "k", "start" }, { "seen", json::array() }, { "eq", json::array() } });
        for (auto& op : ops) {
            std::string k = op["k"]; int s = op["s"];
            if (k == "make") {
                int v = op["v"]; Kind* kd = &main; if (v == 2) kd = same[g.i(0, same.size() - 1)];
                Par p = v == 2 ? kd->fresh() : base; if (v == 1) kd->vary(p, vary); if (v == 3) kd->vary(p, g.i(0, 1000));
                o[s] = kd->make(p); o[s]->fam = kd->fam; o[s]->kind = kd->kind; o[s]->par = p; json jp = json::array(); for (auto& x : p) jp.push_back(x);
                log({ { "k", k }, { "s", s }, { "fam", kd->fam }, { "kind", kd->kind }, { "par", jp } });
                auto gp = o[s]->get(); o[s]->par = gp; // as made (shells)
            }
            else if (k == "drop" && o.count(s)) { o.erase(s); log(op); }
            else if (k == "copy" && o.count(op["from"])) { auto c = o[op["from"]]->copy(); o[s] = std::move(c); log(op); }
            else if (k == "assign" && o.count(s) && o.count(op["from"]) && o[s]->assign(*o[op["from"]])) log(op);
            else if (k == "set" && o.count(s)) o[s]->set(t, [&](json e) { e["s"] = s; return log(e); });
            else if (k == "do" && o.count(s)) o[s]->change(t, [&](json e) { e["s"] = s; return log(e); });
        }
    };
    if (mode == "script") {
        std::ifstream f(argv[3]); std::string l; bool all = std::string(argv[4]) == "all";
        while (std::getline(f, l)) { auto ops = json::parse(l); if (all) for (auto& k : ks) history(ops, k); else history(ops, ks[turn % ks.size()]); }
        return 0;
    }
    for (int n = std::atoi(argv[3]); n > 0; --n) {
        json ops = json::array(); ops.push_back({ { "k", "make" }, { "s", 1 }, { "v", 0 } });
        for (int i = g.i(6, 20); i > 0; --i) switch (int s = g.i(1, 4); g.i(0, 6)) {
            case 0: case 1: ops.push_back({ { "k", "make" }, { "s", s }, { "v", g.i(0, 3) } }); break; case 2: ops.push_back({ { "k", "copy" }, { "s", s }, { "from", s % 4 + 1 } }); break;
            case 3: ops.push_back({ { "k", "assign" }, { "s", s }, { "from", g.i(1, 4) } }); break; case 4: ops.push_back({ { "k", "set" }, { "s", s } }); break; case 5: ops.push_back({ { "k", "do" }, { "s", s } }); break; default: if (g.i(0, 2) == 0) ops.push_back({ { "k", "drop" }, { "s", s } });
        }
        history(ops, ks[n % ks.size()]);
    }
}
