// Vector algebra, conversions and deflection.
#include "vtrace.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
using namespace PROPOSAL;
static void pair(Trace& t, Cartesian3D a, Cartesian3D b, double k) {
    json o; o["e"] = "algebra"; o["a"] = D3(a); o["b"] = D3(b); o["k"] = D(k);
    Cartesian3D const ca = a, cb = b;
    o["add"] = D3(ca + cb); o["sub"] = D3(ca - cb); o["neg"] = D3(-ca); o["ka"] = D3(k * ca); o["ak"] = D3(ca * k);
    o["dot"] = D(ca * cb); o["cross"] = D3(vector_product(ca, cb)); o["mag"] = D(ca.magnitude());
    Cartesian3D s = ca; s += cb; o["addto"] = D3(s);
    Cartesian3D n = ca; n.normalize(); o["norm"] = D3(n);
    o["a2"] = D3(ca); o["b2"] = D3(cb);
    o["eq"] = ca == cb; o["ne"] = ca != cb; o["eqaa"] = ca == Cartesian3D(a); o["eqspherical"] = ca == Spherical3D(a[0], a[1], a[2]);
    o["oob"] = thrown([&] { (void)ca[3]; });
    t(o);
    Spherical3D sp(ca); Cartesian3D back(sp); UnitSphericalVector u(sp); auto self = ca.GetCartesianCoordinates();
    t({ { "e", "conv" }, { "v", D3(ca) }, { "s", D3(sp) }, { "back", D3(back) }, { "self", D3(self) }, { "unit", { D(u.zenith), D(u.azimuth) } } });
    Cartesian3D w; w.SetX(a[0]); w.SetY(a[1]); w.SetZ(a[2]); Cartesian3D w2(b); w2.SetCoordinates(a[0], a[1], a[2]);
    Spherical3D q; q.SetRadius(a[0]); q.SetAzimuth(a[1]); q.SetZenith(a[2]); Spherical3D q2; q2.SetCoordinates({ a[0], a[1], a[2] });
    Cartesian3D i; i[0] = a[0]; i[1] = a[1]; i[2] = a[2];
    t({ { "e", "set" }, { "v", D3(a) }, { "r", { D(w.GetX()), D(w.GetY()), D(w.GetZ()) } }, { "r2", D3(w2) }, { "sph", { D(q.GetRadius()), D(q.GetAzimuth()), D(q.GetZenith()) } }, { "sph2", D3(q2) }, { "i", D3(i) } });
}
static void sph(Trace& t, double r, double az, double ze) {
    Spherical3D s(r, az, ze), n(s); Cartesian3D c(s); n.normalize(); auto self = s.GetSphericalCoordinates();
    t({ { "e", "sph" }, { "s", D3(s) }, { "c", D3(c) }, { "self", D3(self) }, { "mag", D(s.magnitude()) }, { "norm", D3(n) } });
}
static void deflect(Trace& t, Cartesian3D v, double c, double th) {
    Cartesian3D r(v); r.deflect(c, th);
    t({ { "e", "deflect" }, { "v", D3(v) }, { "cosphi", D(c) }, { "theta", D(th) }, { "r", D3(r) } });
}
int main(int argc, char** argv) {
    if (argc < 4) return 2;
    Trace t(argv[1]);
    if (std::string(argv[2]) == "lattice") {
        std::ifstream f(argv[3]); std::string l;
        while (std::getline(f, l)) if (!l.empty()) {
            auto j = json::parse(l);
            auto v = [&](char const* n) { return Cartesian3D(j[n][0].get<double>(), j[n][1].get<double>(), j[n][2].get<double>()); };
            if (j["k"] == "pair") pair(t, v("a"), v("b"), j["s"].get<int>());
            else { auto d = v("v"); d.normalize(); deflect(t, d, j["c"].get<int>() / 4., j["t"].get<int>() * M_PI / 4); }
        }
        return 0;
    }
    Rng g(env_seed());
    for (int n = std::atoi(argv[3]); n > 0; --n) {
        double sc = g.i(0, 1) ? 1 : g.lu(1e-100, 1e100), sc2 = g.i(0, 1) ? sc : g.lu(1e-40, 1e40);
        auto rv = [&](double s) { Cartesian3D v(g.u(-1, 1) * s, g.u(-1, 1) * s, g.u(-1, 1) * s); if (g.i(0, 5) == 0) v[g.i(0, 2)] *= g.i(0, 1) ? 0 : 1e-9; return v; };
        pair(t, rv(sc), rv(sc2), g.i(0, 1) ? g.u(-3, 3) : g.lu(1e-20, 1e20));
        sph(t, g.lu(1e-3, 1e9), g.u(-M_PI, M_PI), g.u(0, M_PI));
        for (int i = 0; i < 3; ++i) {
            Cartesian3D d = rv(1); if (g.i(0, 4) == 0) d = Cartesian3D(g.u(-1, 1) * 1e-7, g.u(-1, 1) * 1e-7, g.i(0, 1) ? 1 : -1);
            d.normalize();
            double c = g.i(0, 2) ? g.u(-1, 1) : (1 - g.lu(1e-15, 0.1)) * (g.i(0, 3) ? 1 : -1);
            deflect(t, d, c, g.u(0, 2 * M_PI));
        }
    }
}
