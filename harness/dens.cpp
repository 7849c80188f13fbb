// Density distributions along rays.
//   dens TRACE lattice <gen file> | dens TRACE random <count>
#include "vtrace.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/density_distr/density_splines.h"
#include "PROPOSAL/math/Function.h"
#include "PROPOSAL/math/Spline.h"
#include "PROPOSAL/medium/Medium.h"
#include <algorithm>
using namespace PROPOSAL;
using V = Cartesian3D;
static const double GX[8] = { 0.01985507175123188, 0.10166676129318664, 0.2372337950418355, 0.40828267875217511, 0.59171732124782489, 0.7627662049581645, 0.89833323870681336, 0.98014492824876812 };

struct Dens {
    std::string kind; bool radial = false; V a, p0; double m = 1, sigma = 1, d0 = 0; std::vector<double> c, xs, ys;
    std::shared_ptr<Density_distr> d;
    void make() {
        std::unique_ptr<Axis> ax; if (radial) ax.reset(new RadialAxis(p0)); else ax.reset(new CartesianAxis(a, p0));
        if (kind == "homogeneous") d.reset(new Density_homogeneous(m));
        else if (kind == "exponential") d.reset(new Density_exponential(*ax, sigma, d0, m));
        else if (kind == "polynomial") d.reset(new Density_polynomial(*ax, Polynom(c), m));
        else if (kind == "linear") d.reset(new Density_splines(*ax, Linear_Spline(xs, ys), m));
        else d.reset(new Density_splines(*ax, Cubic_Spline(xs, ys), m));
    }
    json js() const { return { { "kind", kind }, { "axis", radial ? "radial" : "cartesian" }, { "a", D3(a) }, { "p0", D3(p0) }, { "m", D(m) }, { "sigma", D(sigma) }, { "d0", D(d0) }, { "c", DV(c) }, { "xs", DV(xs) }, { "ys", DV(ys) } }; }
    double depth(V const& x) const { return radial ? (x - p0).magnitude() : a * (x - p0); }
    double delta(V const& x, V const& dir) const { V q = x - p0; if (radial && q.magnitude() == 0) return 1; return radial ? (q * dir) / q.magnitude() : a * dir; }
};
static Trace* tr;
static void go(Dens& s, V x, V dir, double l, Rng& r, bool oblique = false) {
    auto& d = *s.d;
    // cut the ray at spline points so that the quadrature is exact
    std::vector<double> cut { 0, l };
    double dl = s.delta(x, dir), dp = s.depth(x);
    if (dl != 0) for (double k : s.xs) { double t = (k - dp) / dl; if (t > 0 && t < l) cut.push_back(t); }
    int n = s.kind == "exponential" ? std::min(60, 2 + int(std::abs(l * dl / s.sigma))) : 2;
    for (int i = 1; i < n; ++i) cut.push_back(l * i / n);
    std::sort(cut.begin(), cut.end());
    json sub = json::array(); double slope = 0, low = INFINITY;
    for (size_t i = 0; i + 1 < cut.size(); ++i) {
        double len = cut[i + 1] - cut[i]; if (!(len > 0)) continue;
        json rho = json::array();
        for (double g : GX) { double v = d.Evaluate(x + dir * (cut[i] + g * len)); slope = std::max(slope, v); low = std::min(low, v); rho.push_back(D(v)); }
        sub.push_back({ { "len", D(len) }, { "rho", rho } });
    }
    if (!(low > 0) || !std::isfinite(slope)) return; // not a density
    slope = std::max({ slope, d.Evaluate(x), d.Evaluate(x + dir * l) });
    double cond = std::max({ std::abs(d.Integrate(x, dir, 0)), std::abs(d.Integrate(x, dir, l)), s.m * 1e-3 });
    if (s.radial) cond *= 10; 
    // rounding of positions moves the depth
    cond += slope * (x.magnitude() + s.p0.magnitude() + l) * 1e-1;
    double l1 = l * r.u(); double calc = d.Calculate(x, dir, l);
    (*tr)({ { "e", "grammage" }, { "g", s.js() }, { "p", D3(x) }, { "d", D3(dir) }, { "l", D(l) }, { "calc", D(calc) }, { "zero", D(d.Calculate(x, dir, 0)) },
        { "part1", D(d.Calculate(x, dir, l1)) }, { "part2", D(d.Calculate(x + dir * l1, dir, l - l1)) }, { "sub", sub }, { "rho", D(d.Evaluate(x)) }, { "cond", D(cond) }, { "key", oblique ? "radial-oblique" : "grammage" } });
    if (oblique) return;
    for (int k = 0; k < 3; ++k) {
        double res = k == 0 ? calc * r.u() : k == 1 ? calc * r.u(1.01, 3) : calc * r.u(1e-6, 1e-3);
        double dist = 0, back = 0; std::string th;
        try { dist = d.Correct(x, dir, res, l); back = d.Calculate(x, dir, dist); if (s.kind == "exponential" && dist > l && s.delta(x, dir) / s.sigma * dist < -20) continue; } catch (DensityException const&) { th = "density"; }
        // a density that ends within l (exponential falling off) reaches less than res
        double total = calc; if (th != "" && s.kind == "exponential") { double kk = s.delta(x, dir) / s.sigma; total = kk < 0 ? d.Evaluate(x) / -kk : INFINITY; }
        (*tr)({ { "e", "correct" }, { "g", s.js() }, { "p", D3(x) }, { "d", D3(dir) }, { "res", D(res) }, { "max", D(l) }, { "dist", D(dist) }, { "back", D(back) }, { "thrown", th }, { "total", D(total) }, { "slope", D(slope) }, { "cond", D(cond) } });
    }
}
static void spline(Dens& s, Rng& r, double lo, double hi, int n) {
    s.xs.clear(); s.ys.clear();
    for (int i = 0; i <= n; ++i) { s.xs.push_back(lo + (hi - lo) * (i + (i && i < n ? r.u(-.3, .3) : 0)) / n); s.ys.push_back(r.u(.5, 1.5)); }
}
int main(int argc, char** argv) {
    Logging::SetGlobalLoglevel(spdlog::level::off);
    Trace t(argv[1]); tr = &t; std::string mode = argv[2]; Rng r(env_seed());
    if (mode == "lattice") {
        std::ifstream in(argv[3]); std::string line;
        while (std::getline(in, line)) {
            auto j = json::parse(line); auto v = [&](json const& a) { return V(a[0].get<double>(), a[1].get<double>(), a[2].get<double>()); };
            Dens s; s.kind = j["p"]["kind"]; int n = j["p"]["n"]; s.radial = j["radial"]; s.a = v(j["axis"]); s.p0 = v(j["ref"]); s.m = 0.5 + n % 3 * .75 + 1;
            V x = v(j["x"]), d = v(j["d"]); if (s.radial) { if (r.i(0, 3) == 0) x = V(0, 0, 0); x = x + s.p0; } d.normalize();
            if (s.a.magnitude() == 5) s.a.normalize();
            if (s.kind == "exponential") { s.sigma = n; s.d0 = n % 2 ? 1.5 : 0; }
            if (s.kind == "polynomial") s.c = n == 0 ? std::vector<double> { 2 } : n == 1 ? std::vector<double> { 40, 1 } : n == 2 ? std::vector<double> { 3, 1, .25 } : std::vector<double> { 500, .5, -.25, .0625 };
            if (s.kind == "linear" || s.kind == "cubic") { s.xs = { -40, -10, 0, 1, 5, 20, 60 }; s.ys = { 2, 1, 3, 2, 4, 1, 2 }; if (n == 1) { s.xs = { 0, 4, 8 }; s.ys = { 5, 5, 5 }; } if (n == 2) { s.xs = { -50, -1, 1, 50 }; s.ys = { 1, 2, 2.5, 3 }; } }
            s.make(); for (double l : { 3., 11.5 }) go(s, x, d, l, r);
        }
    } else {
        int n = std::stoi(argv[3]);
        for (int k = 0; k < n; ++k) {
            Dens s; s.kind = r.pick(std::vector<std::string> { "homogeneous", "exponential", "polynomial", "linear", "cubic" });
            double L = r.lu(1e-1, 1e5);
            auto dir = [&] { double z = r.u(-1, 1), a = r.u(0, 2 * M_PI), q = std::sqrt(1 - z * z); return V(q * std::cos(a), q * std::sin(a), z); };
            s.radial = r.i(0, 3) == 0; s.a = dir(); if (r.i(0, 4) == 0) s.a = s.a * r.u(.2, 3); s.p0 = r.i(0, 1) ? V(0, 0, 0) : V(r.u(-L, L), r.u(-L, L), r.u(-L, L)); s.m = r.lu(1e-4, 20);
            V x(r.u(-L, L), r.u(-L, L), r.u(-L, L)); x = x + s.p0; V d = dir(); double l = L * r.u(.05, 1);
            if (s.radial && k % 50 == 0 && s.kind != "homogeneous") { // oblique to the radius
                if (s.kind == "exponential") { s.sigma = L; s.d0 = 0; } else { s.kind = "polynomial"; s.c = { 1, 1 / L }; }
                V q = x - s.p0; q.normalize(); V o = vector_product(q, s.a); o.normalize(); s.make(); go(s, x, o, l, r, true); continue;
            }
            if (s.radial) { d = x - s.p0; double rad = d.magnitude(); d.normalize(); if (r.i(0, 1)) { d = -d; l = std::min(l, rad * .9); } }
            else if (r.i(0, 4) == 0) { d = s.a; d.normalize(); if (r.i(0, 1)) d = -d; }
            if (s.kind == "exponential") { s.sigma = L * r.lu(.1, 20) * (r.i(0, 1) ? 1 : -1); s.d0 = r.u(-L, L); }
            if (s.kind == "polynomial") { int deg = r.i(0, 4); double q = 1; for (int i = 0; i <= deg; ++i, q /= L) s.c.push_back(r.u(-1, 1) * q * .3); s.c[0] = r.u(1, 30); }
            if (s.kind == "linear" || s.kind == "cubic") spline(s, r, -3 * L, 3 * L, r.i(1, 12));
            s.make();
            if (r.i(0, 5) == 0) s.d.reset(s.d->clone());
            go(s, x, d, l, r);
            if (!s.xs.empty() && !s.radial) { double k = s.xs[0], aa = s.a * s.a; V y = s.p0 + s.a * (k / aa); if (s.depth(y) == k) t({ { "e", "local" }, { "g", s.js() }, { "p", D3(y) }, { "rho", D(s.d->Evaluate(y)) } }); }
        }
    }
}
