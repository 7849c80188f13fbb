// A world whose physics is exactly known: stand-ins for the tables a
// propagation consults (all of them interfaces of the library), so that only
// the code between them is exercised.
#pragma once
#include "vtrace.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/Propagator.h"
#include "PROPOSAL/Secondaries.h"
#include "PROPOSAL/crosssection/CrossSection.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/geometry/Box.h"
#include "PROPOSAL/geometry/Cylinder.h"
#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/propagation_utility/ContRand.h"
#include "PROPOSAL/propagation_utility/Decay.h"
#include "PROPOSAL/propagation_utility/Displacement.h"
#include "PROPOSAL/propagation_utility/Interaction.h"
#include "PROPOSAL/propagation_utility/PropagationUtility.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
#include "PROPOSAL/scattering/Scattering.h"
using namespace PROPOSAL;

struct Shape {
    std::string kind; double c[3] = { 0, 0, 0 }, x = 0, y = 0, z = 0, ri = 0, ro = 0;
    std::shared_ptr<Geometry> make() const {
        Cartesian3D pos(c[0], c[1], c[2]);
        if (kind == "box") return std::make_shared<Box>(pos, x, y, z);
        if (kind == "sphere") return std::make_shared<Sphere>(pos, ro, ri);
        return std::make_shared<Cylinder>(pos, z, ro, ri);
    }
    json js() const {
        return { { "kind", kind }, { "c", json::array({ D(c[0]), D(c[1]), D(c[2]) }) }, { "x", D(x) }, { "y", D(y) },
            { "z", D(z) }, { "ri", D(std::min(ri, ro)) }, { "ro", D(std::max(ri, ro)) } };
    }
};
// dE/dX = a + b E
struct MockDisp : Displacement {
    double a, b;
    MockDisp(double a, double b, double m) : a(a), b(b) { lower_lim = m; hash = 1; }
    double SolveTrackIntegral(double Ei, double Ef) override { return b == 0 ? (Ei - Ef) / a : std::log((a + b * Ei) / (a + b * Ef)) / b; }
    double UpperLimitTrackIntegral(double Ei, double X) override { return b == 0 ? Ei - a * X : ((a + b * Ei) * std::exp(-b * X) - a) / b; }
};
struct MockTime : Time { // time goes with the energy lost
    double k; MockTime(double k) : k(k) {}
    double TimeElapsed(double Ei, double Ef, double, double density) override { return k * (Ei - Ef) / density; }
};
struct Calls { json list = json::array(); std::function<double(char const*, double)> script; };
struct MockCross : CrossSectionBase {
    InteractionType t; std::vector<std::pair<size_t, double>> rates; double v0, v1; Calls* c = nullptr;
    MockCross(InteractionType t, std::vector<std::pair<size_t, double>> r, double v0, double v1) : t(t), rates(r), v0(v0), v1(v1) {}
    double total() { double s = 0; for (auto& r : rates) s += r.second; return s; }
    double CalculatedEdx(double) override { return 0; }
    double CalculatedE2dx(double) override { return 0; }
    double CalculatedNdx(double) override { return total(); }
    double CalculatedNdx(double, size_t h) override { for (auto& r : rates) if (r.first == h) return r.second; return 0; }
    double CalculateCumulativeCrosssection(double, size_t, double) override { return 0; }
    std::vector<std::pair<size_t, double>> CalculatedNdx_PerTarget(double) override { return rates; }
    double CalculateStochasticLoss(size_t h, double E, double rate) override {
        double v = c && c->script ? c->script("loss", E) : v0 + (v1 - v0) * rate / CalculatedNdx(E, h);
        if (c) c->list.push_back({ { "c", "loss" }, { "t", ity_(t) }, { "h", std::to_string(h) }, { "E", D(E) }, { "rate", D(rate) }, { "v", D(v) } });
        return v;
    }
    static int ity_(InteractionType t) { return t == InteractionType::Undefined ? 0 : (int)t - 1000000000; }
    double GetLowerEnergyLim() const override { return 0; }
    size_t GetHash() const noexcept override { return 7; }
    InteractionType GetInteractionType() const noexcept override { return t; }
    std::string GetParametrizationName() const noexcept override { return "mock"; }
    std::shared_ptr<const EnergyCutSettings> GetEnergyCutSettings() const noexcept override { return nullptr; }
};
struct MockInter : Interaction {
    Calls& c; double lambda;
    MockInter(std::shared_ptr<Displacement> d, std::vector<std::shared_ptr<CrossSectionBase>> x, Calls& c, double lambda) : Interaction(d, x), c(c), lambda(lambda) {}
    double EnergyInteraction(double E, double rnd) override {
        double r = c.script ? c.script("int", E) : std::max(disp->GetLowerLim(), E + lambda * std::log(rnd));
        c.list.push_back({ { "c", "int" }, { "E", D(E) }, { "rnd", D(rnd) }, { "r", D(r) } });
        return r;
    }
    double EnergyIntegral(double, double) override { return 0; }
    double MeanFreePath(double) override { return 1; }
};
struct MockDecay : Decay {
    Calls& c; double tau;
    MockDecay(std::shared_ptr<Displacement> d, Calls& c, double tau) : Decay(d, 1, 1), c(c), tau(tau) {}
    double EnergyDecay(double E, double rnd, double density) override {
        double r = c.script ? c.script("dec", E) : std::max(disp->GetLowerLim(), E + tau * density * std::log(rnd));
        c.list.push_back({ { "c", "dec" }, { "E", D(E) }, { "rnd", D(rnd) }, { "density", D(density) }, { "r", D(r) } });
        return r;
    }
};
inline std::vector<std::shared_ptr<CrossSectionBase>> randomisable() {
    struct X : MockCross { using MockCross::MockCross; std::shared_ptr<const EnergyCutSettings> GetEnergyCutSettings() const noexcept override { return std::make_shared<EnergyCutSettings>(500, 1, true); } };
    return { std::make_shared<X>(InteractionType::Ioniz, std::vector<std::pair<size_t, double>> {}, 0, 0) };
}
struct MockRand : ContRand {
    Calls& c; double s;
    MockRand(std::shared_ptr<Displacement> d, Calls& c, double s) : ContRand(d, randomisable()), c(c), s(s) {}
    double Variance(double, double) override { return 0; }
    double EnergyRandomize(double Ei, double Ef, double rnd, double Emin) override {
        double r = std::min(Ei, std::max(std::max(Emin, disp->GetLowerLim()), Ef + s * (Ei - Ef) * (rnd - .5)));
        c.list.push_back({ { "c", "rand" }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "rnd", D(rnd) }, { "min", D(Emin) }, { "r", D(r) } });
        return r;
    }
};
struct MockMS : multiple_scattering::Parametrization {
    Calls* c; double k;
    MockMS(Calls* c, double k) : c(c), k(k) { mass = 1; }
    std::unique_ptr<Parametrization> clone() const override { return std::make_unique<MockMS>(*this); }
    bool compare(Parametrization const&) const override { return true; }
    void print(std::ostream&) const override {}
    double lim(double x) { return std::max(-.3, std::min(.3, x)); }
    multiple_scattering::ScatteringOffset CalculateRandomAngle(double X, double Ei, double Ef, std::array<double, 4> const& r) override {
        multiple_scattering::ScatteringOffset o; double w = k * std::sqrt(std::max(0., X));
        o.sx = lim(w * (r[0] - .5)); o.sy = lim(w * (r[1] - .5)); o.tx = lim(w * (r[2] - .5)); o.ty = lim(w * (r[3] - .5));
        c->list.push_back({ { "c", "ms" }, { "X", D(X) }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "rnd", DV(r) }, { "o", { D(o.sx), D(o.sy), D(o.tx), D(o.ty) } } });
        return o;
    }
    double CalculateScatteringAngle(double, double, double, double) override { return 0; }
    double CalculateScatteringAngle2D(double, double, double, double, double) override { return 0; }
};
struct MockDefl : stochastic_deflection::Parametrization {
    Calls* c; InteractionType t; double z; size_t n;
    MockDefl(Calls* c, InteractionType t, double z, size_t n) : c(c), t(t), z(z), n(n) {}
    std::unique_ptr<Parametrization> clone() const override { return std::make_unique<MockDefl>(*this); }
    size_t RequiredRandomNumbers() const noexcept override { return n; }
    InteractionType GetInteractionType() const noexcept override { return t; }
    UnitSphericalVector CalculateStochasticDeflection(double Ei, double Ef, std::vector<double> const& r, size_t comp) const override {
        UnitSphericalVector u(0, 0);
        u.zenith = z * (n > 0 ? r.at(0) : .5); u.azimuth = 2 * M_PI * (n > 1 ? r.at(1) : .25);
        c->list.push_back({ { "c", "defl" }, { "t", (int)t - 1000000000 }, { "Ei", D(Ei) }, { "Ef", D(Ef) }, { "rnd", DV(r) }, { "comp", std::to_string(comp) }, { "zen", D(u.zenith) }, { "az", D(u.azimuth) } });
        return u;
    }
};
struct Sec { // one sector and what its stand-ins do
    Shape g; unsigned h = 0; double rho = 1, a = 1, b = 0, m = 0; bool exact = false; double kt = 1e-10;
    double lambda = 1; double tau = 0; double crand = 0; double ms = 0;
    std::vector<std::shared_ptr<MockCross>> cross; std::vector<std::shared_ptr<MockDefl>> defl;
    json js() const {
        json x = json::array();
        for (auto& c : cross) {
            json r = json::array();
            for (auto& p : c->rates) r.push_back({ { "h", std::to_string(p.first) }, { "r", D(p.second) } });
            x.push_back({ { "t", (int)c->t - 1000000000 }, { "rates", r }, { "v0", D(c->v0) }, { "v1", D(c->v1) } });
        }
        json d = json::array();
        for (auto& p : defl) d.push_back((int)p->t - 1000000000);
        return { { "g", g.js() }, { "h", h }, { "rho", D(rho) }, { "a", D(a) }, { "b", D(b) }, { "m", D(m) }, { "exact", exact }, { "kt", D(kt) },
            { "cross", x }, { "decay", tau > 0 }, { "crand", D(crand) }, { "ms", ms > 0 }, { "scatter", ms > 0 || !defl.empty() }, { "defl", d } };
    }
    Sector make(Calls& c, std::shared_ptr<Geometry>& geo) const {
        auto g_ = g.make(); g_->SetHierarchy(h); geo = g_;
        PropagationUtility::Collection col;
        auto disp = std::make_shared<MockDisp>(a, b, m);
        col.displacement_calc = disp;
        std::vector<std::shared_ptr<CrossSectionBase>> cl(cross.begin(), cross.end());
        if (cl.empty()) cl.push_back(std::make_shared<MockCross>(InteractionType::Ioniz, std::vector<std::pair<size_t, double>> { { 1, 1. } }, .1, .2));
        col.interaction_calc = std::make_shared<MockInter>(disp, cl, c, lambda);
        if (exact) col.time_calc = std::make_shared<MockTime>(kt); else col.time_calc = std::make_shared<ApproximateTimeBuilder>();
        if (tau > 0) col.decay_calc = std::make_shared<MockDecay>(disp, c, tau);
        if (crand > 0) col.cont_rand = std::make_shared<MockRand>(disp, c, crand);
        if (ms > 0 || !defl.empty()) {
            std::unique_ptr<multiple_scattering::Parametrization> p;
            if (ms > 0) p = std::make_unique<MockMS>(&c, ms);
            std::vector<std::unique_ptr<stochastic_deflection::Parametrization>> ds;
            for (auto& d : defl) ds.push_back(std::make_unique<MockDefl>(&c, d->t, d->z, d->n));
            col.scattering = std::make_shared<Scattering>(std::move(p), std::move(ds));
        }
        return Sector(g_, PropagationUtility(col), std::make_shared<Density_homogeneous>(rho));
    }
};
inline json state(ParticleState const& p) {
    return { { "ty", p.type }, { "p", D3(p.position) }, { "d", D3(p.direction) }, { "E", D(p.energy) }, { "t", D(p.time) }, { "s", D(p.propagated_distance) } };
}
inline Cartesian3D rnd_dir(Rng& r) {
    double z = r.u(-1, 1), a = r.u(0, 2 * M_PI), q = std::sqrt(1 - z * z);
    return Cartesian3D(q * std::cos(a), q * std::sin(a), z);
}
inline int ity(InteractionType t) { return t == InteractionType::Undefined ? 0 : (int)t - 1000000000; }
