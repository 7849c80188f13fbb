// LIB=core  Interpolation tables: histories of copying, storing and asking.
//   interp TRACE CASES repetitions
#include "vtrace.h"
#include "PROPOSAL/math/Interpolant.h"
#include "PROPOSAL/math/InterpolantBuilder.h"
#include "PROPOSAL/math/Spline.h"
#include "PROPOSAL/Logging.h"
#include <set>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace PROPOSAL;
using F1 = std::function<double(double)>;
struct Fun { F1 f; bool mono; };
static Fun pick1(Rng& g, bool rational = false) {
    double p = g.u(-2, 3), s = g.u(2, 20), c = g.u(1, 8); if (std::abs(p) < .3) p = 1;
    switch (rational ? g.i(1, 4) : g.i(0, 6)) {
    case 0: return { [=](double x) { return std::exp(-x / s); }, true };
    case 1: return { [=](double x) { return std::pow(std::abs(x) + .01, p); }, true };
    case 2: return { [=](double x) { return std::log1p(std::abs(x)) + .5; }, true };
    case 3: return { [=](double x) { return 1 / (c + std::abs(x)); }, true };
    case 4: return { [=](double x) { return (1 + x * x) * std::exp(std::abs(x) / s); }, true };
    case 5: return { [=](double x) { return std::max(0., x - c); }, false };
    default: return { [=](double x) { return std::sin(x / 2) + .2; }, false };
    }
}
// an inverse that can be told from rounding: values of neighbouring nodes differ, by factors that are not huge
static bool invertible(std::vector<double> const& ys) { for (size_t i = 1; i < ys.size(); ++i) { double a = std::abs(ys[i - 1]), b = std::abs(ys[i]), m = std::max(a, b); if (!(std::abs(ys[i] - ys[i - 1]) > 1e-3 * m) || std::min(a, b) < .1 * m) return false; } return true; }
struct Q { std::string q; double x1, x; };
struct Def {
    std::string kind; json js; std::function<std::unique_ptr<Interpolant>()> make; std::vector<Q> qs; bool xlog = false, two = false, rational = false; /* answers depend on rounding: rational, or logarithms next to zeros */ double scale = 0;
    double ask(Interpolant& t, Q const& q) const {
        bool arr = kind[0] == 'a';
        if (q.q == "at") return arr ? t.InterpolateArray(q.x) : t.Interpolate(q.x); if (q.q == "inv") return t.FindLimit(q.x);
        if (q.q == "at2") return arr ? t.InterpolateArray(q.x, q.x1) : t.Interpolate(q.x1, q.x); return t.FindLimit(q.x1, q.x);
    }
};
static double place(Rng& g, double lo, double hi, bool log, std::vector<double> const& nodes) {
    int k = g.i(0, 7); if (k == 0) return nodes[g.i(0, nodes.size() - 1)]; if (k == 1) return lo; if (k == 2) return hi;
    double a = k == 3 ? -.02 : 0, b = k == 3 ? 1.02 : 1; return log ? lo * std::pow(hi / lo, g.u(a, b)) : lo + (hi - lo) * g.u(a, b);
}
static std::vector<double> centres(int n, double lo, double hi, bool log) {
    if (lo > hi) std::swap(lo, hi); std::vector<double> v; double a = log ? std::log(lo) : lo, b = log ? std::log(hi) : hi; for (int i = 0; i < n; ++i) { double x = a + (b - a) * (i + .5) / n; v.push_back(log ? std::exp(x) : x); } return v;
}
static json one(std::vector<double> const& xs, std::vector<double> const& ys, int r, int ry, bool rat, bool xlog, bool ylog, double lo, double hi, bool cells) {
    return { { "xs", DV(xs) }, { "ys", DV(ys) }, { "r", r }, { "ry", ry }, { "rat", rat }, { "xlog", xlog }, { "ylog", ylog }, { "lo", D(lo) }, { "hi", D(hi) }, { "cells", cells } };
}
static std::vector<double> points(Rng& g, int n, double least = .1) { std::vector<double> v; double x = g.u(-5, 5); for (int i = 0; i < n; ++i) v.push_back(x += g.lu(least, 3)); if (g.i(0, 1)) std::reverse(v.begin(), v.end()); return v; }
static Def define(Rng& g, std::string kind) {
    Def d; d.kind = kind; int n = g.i(0, 5) ? g.i(3, 14) : g.i(0, 1) ? g.i(1, 3) : g.i(15, 40), r = g.i(0, 6) ? g.i(2, 6) : g.i(0, 9), ry = g.i(0, 6) ? g.i(2, 6) : g.i(0, 9); bool rat = g.i(0, 4) == 0, ratY = g.i(0, 4) == 0, rel = g.i(0, 1), relY = g.i(0, 1);
    bool xlog = g.i(0, 1), ylog = g.i(0, 2) == 0; double lo = xlog ? g.lu(.01, 10) : g.i(0, 2) ? g.u(0, 5) : g.u(-10, 0), hi = xlog ? lo * g.lu(2, 1e4) : lo + g.u(1, 30); if (g.i(0, 9) == 0) std::swap(lo, hi);
    if (kind == "f1" || kind == "b1") {
        if (rat && std::min(lo, hi) < 0 && !xlog) { lo += 11; hi += 11; }
        auto f = pick1(g, rat); while (!(f.f(std::max(lo, hi)) < 1e12)) f = pick1(g, rat); if (lo < 0 || hi < 0) f.mono = false;
        auto xs = centres(n, lo, hi, xlog); std::vector<double> ys; for (auto x : xs) { ys.push_back(f.f(x)); d.scale = std::max(d.scale, std::abs(ys.back())); }
        d.js = one(xs, ys, r, ry, rat, xlog, ylog, lo, hi, true); d.rational = rat; d.xlog = xlog;
        if (kind == "f1") d.make = [=] { return std::make_unique<Interpolant>(n, lo, hi, f.f, r, rat, rel, xlog, ry, ratY, relY, ylog); };
        else d.make = [=] { Interpolant1DBuilder::Definition b; b.nodes = n; b.xmin = lo; b.xmax = hi; b.function1d = f.f; b.romberg = r; b.rombergY = ry; b.rational = rat; b.rationalY = ratY; b.relative = rel; b.relativeY = relY; b.isLog = xlog; b.logSubst = ylog; return Interpolant1DBuilder(b).build(); };
        for (int i = 0; i < 6; ++i) d.qs.push_back({ "at", 0, place(g, std::min(lo, hi), std::max(lo, hi), xlog, xs) });
        if (f.mono && n > 1 && !rat && !ratY && invertible(ys)) for (int i = 0; i < 4; ++i) d.qs.push_back({ "inv", 0, f.f(place(g, std::min(lo, hi), std::max(lo, hi), xlog, xs)) });
        d.scale += std::max(std::abs(lo), std::abs(hi));
    } else if (kind == "f2" || kind == "b2") {
        int n1 = g.i(1, 9), r1 = g.i(1, 5); bool xlog1 = g.i(0, 1), rat1 = g.i(0, 5) == 0; double lo1 = g.lu(.1, 5), hi1 = lo1 * g.lu(2, 50); if (std::min(lo, hi) < 0 && !xlog) { lo += 11; hi += 11; } rat = rat && !rat1;
        bool ra = rat || rat1; auto f = pick1(g, ra), h = pick1(g, ra); while (!(f.f(std::max(hi, lo)) < 1e8) || (ylog && !f.mono)) f = pick1(g, ra); while (ylog && !h.mono) h = pick1(g, ra); double c = g.u(0, 2); auto fn = [=](double a, double b) { return h.f(a) * f.f(b) + c; };
        auto x1 = centres(n1, lo1, hi1, xlog1), xs = centres(n, lo, hi, xlog); json rows = json::array();
        for (auto x : xs) { std::vector<double> ys; for (auto y : x1) { ys.push_back(fn(y, x)); d.scale = std::max(d.scale, std::abs(ys.back())); } rows.push_back(one(x1, ys, r1, ry, rat1, xlog1, ylog, lo1, hi1, true)); }
        d.js = one(xs, {}, r, ry, rat, xlog, ylog, lo, hi, true); d.js["rows"] = rows; d.rational = rat || rat1 || (ylog && !(f.mono && h.mono)); d.xlog = xlog || xlog1; d.two = true;
        if (kind == "f2") d.make = [=] { return std::make_unique<Interpolant>(n1, lo1, hi1, n, lo, hi, fn, r1, rat1, rel, xlog1, r, rat, relY, xlog, ry, ratY, relY, ylog); };
        else d.make = [=] { Interpolant2DBuilder::Definition b; b.nodes = n1; b.xmin = lo1; b.xmax = hi1; b.nodes2 = n; b.x2min = lo; b.x2max = hi; b.function2d = fn; b.romberg = r1; b.romberg2 = r; b.rombergY = ry; b.rational = rat1; b.rational2 = rat; b.rationalY = ratY; b.relative = rel; b.relative2 = relY; b.relativeY = relY; b.isLog = xlog1; b.isLog2 = xlog; b.logSubst = ylog; return Interpolant2DBuilder(b).build(); };
        for (int i = 0; i < 5; ++i) d.qs.push_back({ "at2", place(g, lo1, hi1, xlog1, x1), place(g, std::min(lo, hi), std::max(lo, hi), xlog, xs) });
        if (f.mono && h.mono && n > 1 && !rat && !rat1 && !ratY) for (int i = 0; i < 3; ++i) { double a = place(g, lo1, hi1, xlog1, x1); std::vector<double> col; for (auto x : xs) col.push_back(fn(a, x)); if (!invertible(col)) continue; d.qs.push_back({ "inv2", a, fn(a, place(g, std::min(lo, hi), std::max(lo, hi), xlog, xs)) }); }
        d.scale += std::max(std::abs(lo), std::abs(hi));
    } else if (kind == "a1") {
        auto x = points(g, n), y = g.i(0, 1) ? points(g, n) : x; bool mono = y != x; if (!mono) for (auto& v : y) v = g.u(-3, 3); if (!mono && rat) rat = false; r = std::max(1, r);
        d.rational = rat; d.js = one(x, y, r, r, rat, false, false, std::min(x[0], x.back()), std::max(x[0], x.back()), false);
        d.make = [=] { return std::make_unique<Interpolant>(x, y, r, rat, rel); }; auto s = x; std::sort(s.begin(), s.end());
        for (int i = 0; i < 6; ++i) d.qs.push_back({ "at", 0, place(g, s[0], s.back(), false, s) }); auto sy = y; std::sort(sy.begin(), sy.end());
        if (mono && !rat && n > 1) for (int i = 0; i < 4; ++i) d.qs.push_back({ "inv", 0, place(g, sy[0], sy.back(), false, sy) });
        for (auto v : x) d.scale = std::max(d.scale, std::abs(v)); for (auto v : y) d.scale = std::max(d.scale, std::abs(v));
    } else {
        auto x = points(g, n, .7); int n2 = g.i(1, 9), r2 = kind == "a2" ? g.i(1, 5) : g.i(1, 3); r = std::max(1, kind == "a2" ? r : std::min(r, 5)); std::vector<std::vector<double>> x2, y; auto common = points(g, n2); bool same = kind == "a2"; double a = 1e9, b = -1e9; json rows = json::array(); d.two = true;
        for (int i = 0; i < n; ++i) { x2.push_back(same ? common : points(g, g.i(1, 9), .7)); std::vector<double> v; for (auto z : x2.back()) { (void)z; v.push_back(g.u(-3, 3)); a = std::min(a, z); b = std::max(b, z); } y.push_back(v); rows.push_back(one(x2.back(), v, r2, r2, false, false, false, std::min(x2[i][0], x2[i].back()), std::max(x2[i][0], x2[i].back()), false)); }
        d.js = one(x, {}, r, r, false, false, false, std::min(x[0], x.back()), std::max(x[0], x.back()), false); d.js["rows"] = rows;
        d.make = [=] { return same ? std::make_unique<Interpolant>(x, common, y, r, false, rel, r2, false, relY) : std::make_unique<Interpolant>(x, x2, y, r, false, rel, r2, false, relY); };
        auto s = x; std::sort(s.begin(), s.end()); for (int i = 0; i < 6; ++i) d.qs.push_back({ "at2", place(g, a, b, false, x2[g.i(0, n - 1)]), place(g, s[0], s.back(), false, s) }); d.scale = 10 + std::abs(a) + std::abs(b);
    }
    return d;
}
static std::string dir;
int main(int argc, char** argv) {
    Trace t(argv[1]); Logging::SetGlobalLoglevel(spdlog::level::off); Rng g(env_seed() * 31 + 7); std::ifstream in(argv[2]); std::string line; int reps = std::atoi(argv[3]);
    char tmp[] = "/tmp/interpXXXXXX"; dir = mkdtemp(tmp); std::set<std::string> files;
    auto file = [&](std::string n) { files.insert(dir + "/" + n); return dir + "/" + n; };
    while (std::getline(in, line)) { auto c = json::parse(line);
        for (int k = 0; k < reps; ++k) {
            auto d = define(g, c["kind"]); json e { { "k", "tab" }, { "kind", d.kind }, { "def", d.js }, { "ops", c["ops"] }, { "rational", d.rational }, { "scale", D(d.scale) } }; bool stored = true, exact = true; std::vector<double> first, got, again;
            auto th = thrown([&] {
                auto p = d.make(); for (auto& q : d.qs) first.push_back(d.ask(*p, q));
                for (auto& o : c["ops"]) { auto s = o.get<std::string>();
                    if (s == "copy") p = std::make_unique<Interpolant>(*p); else if (s == "assign") { auto x = g.i(0, 1) ? std::make_unique<Interpolant>() : define(g, g.i(0, 1) ? "f1" : "f2").make(); *x = *p; p = std::move(x); }
                    else if (s == "swap") { auto x = define(g, g.i(0, 1) ? "f1" : "f2").make(); x->swap(*p); p = std::move(x); }
                    else if (s == "ask") { for (int i = g.i(1, 5); i > 0; --i) d.ask(*p, d.qs[g.i(0, d.qs.size() - 1)]); }
                    else { bool bin = s == "binary"; auto f = file(bin ? "b" : "t"); files.insert(f + ".txt"); stored = p->Save(f, bin) && stored; auto x = std::make_unique<Interpolant>(); stored = x->Load(f, bin) && stored; p = std::move(x); if (!bin || d.xlog) exact = false; }
                }
                for (auto& q : d.qs) got.push_back(d.ask(*p, q)); again.resize(got.size()); for (size_t i = d.qs.size(); i-- > 0;) again[i] = d.ask(*p, d.qs[i]);
            });
            e["thrown"] = th; e["stored"] = stored; e["exact"] = exact; e["qs"] = json::array();
            if (th == "") for (size_t i = 0; i < d.qs.size(); ++i) e["qs"].push_back({ { "q", d.qs[i].q }, { "x1", D(d.qs[i].x1) }, { "x", D(d.qs[i].x) }, { "got", D(got[i]) }, { "first", D(first[i]) }, { "again", D(again[i]) } });
            t(e);
        }
    }
    for (int k = 0; k < 60 * reps; ++k) { // files that are not tables, splines
        auto d = define(g, g.i(0, 1) ? "f1" : g.i(0, 1) ? "f2" : "a2"); bool bin = g.i(0, 1); auto f = file(bin ? "b" : "t"); files.insert(f + ".txt"); auto real = bin ? f : f + ".txt"; json e { { "k", "bad" }, { "def", d.js }, { "binary", bin } };
        bool missing = g.i(0, 3) == 0; d.make()->Save(f, bin); std::string all; { std::ifstream r(real, std::ios::binary); all.assign(std::istreambuf_iterator<char>(r), {}); } e["missing"] = missing; double part = g.u(0, .9);
        if (missing) std::remove(real.c_str()); else { std::ofstream w(real, std::ios::binary | std::ios::trunc); w.write(all.data(), (size_t)(all.size() * part)); } e["part"] = D(part);
        bool loaded = false; Interpolant x; e["thrown"] = thrown([&] { loaded = x.Load(f, bin); }); e["loaded"] = loaded; t(e);
        auto px = points(g, g.i(2, 7)); std::sort(px.begin(), px.end()); std::vector<double> py; double scale = 0; for (size_t i = 0; i < px.size(); ++i) { py.push_back(g.u(-3, 3)); } bool cubic = g.i(0, 1); json s { { "k", "spline" }, { "x", DV(px) }, { "y", DV(py) }, { "cubic", cubic }, { "binary", bin } }, vals = json::array();
        s["thrown"] = thrown([&] {
            std::unique_ptr<Spline> a(cubic ? (Spline*)new Cubic_Spline(px, py) : new Linear_Spline(px, py)); auto sf = file("s"); files.insert(sf + ".txt"); files.insert(sf + ".bin"); a->save(sf, bin); std::unique_ptr<Spline> b(cubic ? (Spline*)new Cubic_Spline(sf, bin) : new Linear_Spline(sf, bin));
            for (auto& c : a->GetSplineContainer()) { double m = std::max(std::abs(c.domain.first), std::abs(c.domain.second)), v = 0, p = 1; for (auto q : c.coeff) { v += std::abs(q) * p; p *= m; } scale = std::max(scale, v); }
            for (int i = 0; i < 6; ++i) { double x = place(g, px[0], px.back(), false, px); vals.push_back({ D(a->evaluate(x)), D(b->evaluate(x)) }); }
        });
        s["vals"] = vals; s["scale"] = D(scale); t(s);
    }
    for (auto& f : files) std::remove(f.c_str()); rmdir(dir.c_str());
}
