// Puts rays to geometries and logs every answer.
//   geo TRACE lattice <gen file> <count>
//   geo TRACE random <count>
//   geo TRACE walk <count>
#include "vtrace.h"
#include "PROPOSAL/geometry/Box.h"
#include "PROPOSAL/geometry/Cylinder.h"
#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
using namespace PROPOSAL;

struct Shape {
    std::string kind; double c[3], x = 0, y = 0, z = 0, ri = 0, ro = 0;
    std::shared_ptr<Geometry> make() const {
        Cartesian3D pos(c[0], c[1], c[2]);
        if (kind == "box") return std::make_shared<Box>(pos, x, y, z);
        if (kind == "sphere") return std::make_shared<Sphere>(pos, ro, ri);
        return std::make_shared<Cylinder>(pos, z, ro, ri);
    }
    json js() const { // measures as documented: the larger radius is the outer one
        return { { "kind", kind }, { "c", json::array({ D(c[0]), D(c[1]), D(c[2]) }) }, { "x", D(x) }, { "y", D(y) },
            { "z", D(z) }, { "ri", D(std::min(ri, ro)) }, { "ro", D(std::max(ri, ro)) } };
    }
    double size() const { return std::max({ 1., x, y, z, ri, ro }); }
};
static json ray(Shape const& s, std::shared_ptr<Geometry> g, Cartesian3D p, Cartesian3D d, double scale) {
    json e;
    auto f = g->DistanceToBorder(p, d);
    auto b = g->DistanceToBorder(p, -d);
    e = { { "e", "ray" }, { "g", s.js() }, { "p", D3(p) }, { "d", D3(d) }, { "scale", D(scale) }, { "w", D(1e-5 * scale) },
        { "dist", { D(f.first), D(f.second) } }, { "back", { D(b.first), D(b.second) } },
        { "inside", g->IsInside(p, d) }, { "infront", g->IsInfront(p, d) }, { "behind", g->IsBehind(p, d) },
        { "entering", g->IsEntering(p, d) }, { "leaving", g->IsLeaving(p, d) },
        { "location", (int)g->GetLocation(p, d) }, { "approach", D(g->DistanceToClosestApproach(p, d)) } };
    return e;
}
static Shape rnd_shape(Rng& r, double L) {
    Shape s; int k = r.i(0, 2);
    s.kind = k == 0 ? "box" : k == 1 ? "sphere" : "cylinder";
    for (auto& v : s.c) v = r.i(0, 2) ? r.u(-L, L) : 0;
    if (k == 0) { s.x = r.u(.05, 1) * L; s.y = r.u(.05, 1) * L; s.z = r.u(.05, 1) * L; }
    else { s.ro = r.u(.1, 1) * L; s.ri = r.i(0, 1) ? r.u(.05, .95) * s.ro : 0; if (r.i(0, 7) == 0) std::swap(s.ri, s.ro); if (s.ro == 0) std::swap(s.ri, s.ro);
        if (k == 2) s.z = r.u(.05, 2) * L; }
    return s;
}
static Cartesian3D rnd_dir(Rng& r) {
    double z = r.u(-1, 1), a = r.u(0, 2 * M_PI), q = std::sqrt(1 - z * z);
    return Cartesian3D(q * std::cos(a), q * std::sin(a), z);
}
static Cartesian3D rnd_pos(Rng& r, Shape const& s) {
    double e = s.kind == "box" ? std::max({ s.x, s.y, s.z }) / 2 : std::max({ s.ro, s.ri, s.z / 2 });
    double m = r.i(0, 3) == 0 ? 3. : 1.2;
    return Cartesian3D(s.c[0] + m * e * r.u(-1, 1), s.c[1] + m * e * r.u(-1, 1), s.c[2] + m * e * r.u(-1, 1));
}
int main(int argc, char** argv) {
    Logging::SetGlobalLoglevel(spdlog::level::off);
    Trace tr(argv[1]);
    std::string mode = argv[2];
    Rng r(env_seed());
    if (mode == "lattice") {
        std::vector<Shape> sh; std::vector<std::array<int, 3>> off, dir;
        std::ifstream in(argv[3]); std::string l;
        while (std::getline(in, l)) {
            auto j = json::parse(l);
            if (j["t"] == "shape") {
                auto g = j["g"]; Shape s; s.kind = g["kind"]; for (int i = 0; i < 3; ++i) s.c[i] = g["c"][i];
                s.x = g["x"]; s.y = g["y"]; s.z = g["z"]; s.ri = g["ri"]; s.ro = g["ro"]; sh.push_back(s);
            } else (j["t"] == "off" ? off : dir).push_back(j["v"].get<std::array<int, 3>>());
        }
        size_t total = sh.size() * off.size() * dir.size(), n = std::min<size_t>(std::stoul(argv[4]), total);
        // a stride coprime to the total visits distinct lattice points
        size_t stride = total / n | 1; if (n == total) stride = 1; while (std::gcd(stride, total) != 1) stride += 2;
        size_t at = r.g() % total;
        for (size_t k = 0; k < n; ++k, at = (at + stride) % total) {
            auto const& s = sh[at % sh.size()]; auto const& d = dir[(at / sh.size()) % dir.size()]; auto const& o = off[at / sh.size() / dir.size()];
            double len = std::sqrt(double(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]));
            Cartesian3D dv(d[0] / len, d[1] / len, d[2] / len);
            tr(ray(s, s.make(), Cartesian3D(s.c[0] + o[0], s.c[1] + o[1], s.c[2] + o[2]), dv, 12));
        }
    } else if (mode == "random") {
        int n = std::stoi(argv[3]);
        for (int k = 0; k < n; ++k) {
            double L = r.lu(1e-1, 1e6);
            auto s = rnd_shape(r, L); auto g = s.make();
            auto p = rnd_pos(r, s); auto d = rnd_dir(r);
            switch (r.i(0, 9)) { // special rays
            case 0: d = Cartesian3D(0, 0, r.i(0, 1) ? 1 : -1); break;
            case 1: d = Cartesian3D(r.i(0, 1) ? 1 : -1, 0, 0); break;
            case 2: d = Cartesian3D(0, r.i(0, 1) ? 1 : -1, 0); break;
            case 3: { double a = r.u(0, 6.28); d = Cartesian3D(std::cos(a), std::sin(a), 0); break; }
            case 4: { Cartesian3D t(s.c[0] - p.GetX(), s.c[1] - p.GetY(), s.c[2] - p.GetZ()); t.normalize(); d = t; break; }
            }
            if (r.i(0, 4) == 0) { Spherical3D sp(d); sp.SetRadius(1); d = Cartesian3D(sp); }
            if (r.i(0, 5) == 0) { auto g2 = s; for (auto& c : g2.c) c = 0; auto gg = g2.make(); gg->SetPosition(Cartesian3D(s.c[0], s.c[1], s.c[2])); g = gg; }
            tr(ray(s, g, p, d, std::max(L, 1.)));
        }
    } else if (mode == "walk") { // follow rays from border to border
        int n = std::stoi(argv[3]);
        for (int k = 0; k < n; ++k) {
            double L = r.lu(1, 1e2);
            auto s = rnd_shape(r, L); auto g = s.make();
            auto p = rnd_pos(r, s); auto d = rnd_dir(r);
            if (r.i(0, 3)) { Cartesian3D t(s.c[0] - p.GetX(), s.c[1] - p.GetY(), s.c[2] - p.GetZ()); t.normalize(); d = t + d * 0.4; d.normalize(); }
            double t = 0;
            for (int step = 0; step < 6; ++step) {
                auto q = p + d * t;
                auto f = g->DistanceToBorder(q, d);
                tr({ { "e", "walk" }, { "g", s.js() }, { "p", D3(p) }, { "d", D3(d) }, { "t", D(t) }, { "dist", { D(f.first), D(f.second) } }, { "scale", D(L) }, { "w", D(1e-5 * L) } });
                tr(ray(s, g, q, d, L));
                if (!(f.first > 0)) break;
                t += step % 2 ? f.first : r.u() < .5 ? f.first : f.first * r.u(.2, .8);
            }
        }
    }
}
