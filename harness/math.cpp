// Root finders, polynomials, splines and sampling helpers.
#include "vtrace.h"
#include "PROPOSAL/math/Function.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/math/Spline.h"
using namespace PROPOSAL;
typedef std::vector<double> vd;
struct F { std::string fam; vd c; std::function<double(double)> f, df; };
static double horner(vd const& c, double x) { double r = 0; for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; }
static F fun(Rng& g) {
    F r; int k = g.i(0, 3);
    if (k == 0) { int n = g.i(2, 5); for (int i = 0; i < n; ++i) r.c.push_back(g.i(0, 1) ? g.i(-5, 5) : g.u(-5, 5)); if (r.c.back() == 0) r.c.back() = 1;
        r.fam = "poly"; auto c = r.c; r.f = [c](double x) { return horner(c, x); };
        vd d; for (size_t i = 1; i < c.size(); ++i) d.push_back(c[i] * i); r.df = [d](double x) { return horner(d, x); }; }
    else if (k == 1) { double a = g.u(0.1, 2) * (g.i(0, 1) ? 1 : -1), b = g.u(0.1, 5); r.fam = "exp"; r.c = { a, b };
        r.f = [a, b](double x) { return std::exp(a * x) - b; }; r.df = [a](double x) { return a * std::exp(a * x); }; }
    else if (k == 2) { double a = g.u(0.1, 5), b = g.i(0, 1) ? g.i(-3, 3) : g.u(-3, 3), d = g.u(0.1, 3); r.fam = "cube"; r.c = { a, b, d };
        r.f = [=](double x) { return a * ((x - b) * ((x - b) * (x - b))) + d * (x - b); }; r.df = [=](double x) { return 3 * a * (x - b) * (x - b) + d; }; }
    else { double a = g.u(0.2, 3), b = g.u(-2, 2); r.fam = "sin"; r.c = { a, b };
        r.f = [=](double x) { return std::sin(a * (x - b)); }; r.df = [=](double x) { return a * std::cos(a * (x - b)); }; }
    return r;
}
static json segs(std::vector<Polynom> const& p) { json a = json::array(); for (auto const& q : p) a.push_back(DV(q.GetCoefficient())); return a; }
static json vals(Spline& s, vd const& q) { json a = json::array(); for (double x : q) a.push_back({ D(x), D(s.evaluate(x)) }); return a; }
static void points(Rng& g, vd& x, vd& y, int nmin) {
    int n = g.i(nmin, 9); double p = g.i(0, 2) ? g.u(-8, 2) : 0;
    bool lattice = g.i(0, 3) == 0;
    for (int i = 0; i < n; ++i) { x.push_back(p); y.push_back(lattice ? g.i(-3, 3) : g.u(-5, 5)); p += lattice ? g.i(1, 3) : g.u(0.3, 3); }
}
int main(int argc, char** argv) {
    if (argc < 4) return 2;
    Trace t(argv[1]);
    Logging::SetGlobalLoglevel(spdlog::level::off);
    Rng g(env_seed());
    for (int n = std::atoi(argv[3]); n > 0; --n) {
        { auto f = fun(g); double a = g.u(-5, 5), b = g.u(-5, 5), xi = a + (b - a) * g.u(), acc = std::pow(10., -g.i(3, 10)), r = 0;
          if (g.i(0, 9) == 0 && f.fam == "cube") a = f.c[1];
          if (g.i(0, 9) == 0 && f.fam == "cube") b = f.c[1];
          auto e = thrown([&] { r = NewtonRaphson(f.f, f.df, a, b, xi, 200, acc); });
          t({ { "e", "newton" }, { "fam", f.fam }, { "c", DV(f.c) }, { "x1", D(a) }, { "x2", D(b) }, { "xi", D(xi) }, { "xacc", D(acc) }, { "r", D(r) }, { "err", e } }); }
        { auto f = fun(g); double a = g.u(-5, 5), b = g.u(-5, 5), acc = std::pow(10., -g.i(3, 10)); std::pair<double, double> r{ 0, 0 };
          if (g.i(0, 9) == 0 && f.fam == "cube") a = f.c[1];
          if (g.i(0, 9) == 0 && f.fam == "cube") b = f.c[1];
          auto e = thrown([&] { r = Bisection(f.f, a, b, acc, 200); });
          t({ { "e", "bisect" }, { "fam", f.fam }, { "c", DV(f.c) }, { "x1", D(a) }, { "x2", D(b) }, { "xacc", D(acc) }, { "r", { D(r.first), D(r.second) } }, { "err", e } }); }
        { vd c; int m = g.i(1, 6); bool z = g.i(0, 3) == 0; for (int i = 0; i < m; ++i) c.push_back(z ? g.i(-2, 2) : g.u(-3, 3) * (g.i(0, 5) ? 1 : 1e5));
          double x = g.i(0, 3) ? g.u(-4, 4) : g.i(-2, 2), k = g.u(-2, 2), s = g.i(0, 3) ? g.u(-3, 3) : g.i(-2, 2);
          Polynom p(c); double v = p.evaluate(x); auto d = p.GetDerivative(); auto a = p.GetAntiderivative(k); Polynom q(p); q.shift(s);
          auto fo = p.GetFunction();
          t({ { "e", "poly" }, { "c", DV(c) }, { "coeff", DV(p.GetCoefficient()) }, { "x", D(x) }, { "k", D(k) }, { "s", D(s) }, { "v", D(v) }, { "fv", D(fo(x)) }, { "dv", D(d.evaluate(x)) },
              { "av", D(a.evaluate(x)) }, { "sv", D(q.evaluate(x)) }, { "again", D(p.evaluate(x)) }, { "eq", p == Polynom(c) && !(p != Polynom(c)) }, { "eqd", p == d } }); }
        if (n % 2 == 0) {
          bool cubic = g.i(0, 1); vd x, y; points(g, x, y, 2); vd q; double k = g.u(-3, 3);
          std::unique_ptr<Spline> s(cubic ? (Spline*)new Cubic_Spline(x, y) : new Linear_Spline(x, y)), d(s->clone()), a(s->clone());
          d->Derivative(); a->Antiderivative(k);
          for (int i = 0; i < 6; ++i) q.push_back(g.u(x.front() - 1, x.back() + 1));
          for (double v : x) q.push_back(v);
          auto dom = s->GetDomain();
          t({ { "e", "spline" }, { "kind", cubic ? "cubic" : "linear" }, { "x", DV(x) }, { "y", DV(y) }, { "segs", segs(s->GetFunctions()) }, { "sub", DV(s->GetSubintervalls()) }, { "n", s->GetNumberIntervalls() },
              { "domain", { D(dom.first), D(dom.second) } }, { "vs", vals(*s, q) }, { "dsegs", segs(d->GetFunctions()) }, { "dvs", vals(*d, q) }, { "k", D(k) }, { "asegs", segs(a->GetFunctions()) }, { "avs", vals(*a, q) } });
        } else {
          vd x, y; points(g, x, y, 2); json s = json::array(), tt = json::array();
          for (auto const& c : CalculateSpline(x, y)) { auto p = c.GetSpline(); tt.push_back(D(p.first)); s.push_back(DV(p.second)); }
          t({ { "e", "coeff" }, { "x", DV(x) }, { "y", DV(y) }, { "t", tt }, { "segs", s } });
        }
        { double p = g.i(0, 3) ? g.u() : g.i(0, 1) ? g.lu(1e-12, 0.1) : 1 - g.lu(1e-9, 0.1); if (p <= 0) p = 0.5;
          t({ { "e", "ppf" }, { "p", D(p) }, { "r", D(normalppf(p)) } }); }
        { double mean = g.i(0, 3) ? g.u(-10, 10) : 0, sig = g.i(0, 9) ? g.lu(1e-3, 20) : 0, rnd = g.u(1e-9, 1 - 1e-9);
          double lo = g.i(0, 1) ? mean + sig * g.u(-4, 3) : -INFINITY, hi = g.i(0, 1) ? (std::isinf(lo) ? mean + sig * g.u(-3, 4) : lo + sig * g.u(0.1, 4)) : INFINITY;
          int how = g.i(0, 5);
          double r; if (how == 0) { lo = -INFINITY; hi = INFINITY; r = SampleFromGaussian(mean, sig, rnd); } else r = SampleFromGaussian(mean, sig, rnd, lo, hi);
          t({ { "e", "gauss" }, { "mean", D(mean) }, { "sigma", D(sig) }, { "rnd", D(rnd) }, { "min", D(lo) }, { "max", D(hi) }, { "r", D(r) } }); }
        { double p = g.i(0, 2) ? g.u() : g.lu(1e-14, 1e-3), la = g.lu(1e-4, 1e4);
          t({ { "e", "expo" }, { "p", D(p) }, { "lambda", D(la) }, { "r", D(SampleFromExponential(p, la)) }, { "want", D(-std::log1p(-p)) } }); }
        { double x = g.i(0, 3) ? g.u(-4, 4) : g.i(0, 1) ? g.lu(1, 1e6) * (g.i(0, 1) ? 1 : -1) : g.i(-6, 6) * 0.5;
          t({ { "e", "dilog" }, { "x", D(x) }, { "r", D(dilog(x)) } }); }
        if (n % 4 == 0) { int m = g.i(1, 12); vd v; double sc = g.lu(1e-3, 1e3); for (int i = 0; i < m; ++i) v.push_back(g.u(-1, 1) * sc);
          double mean = 0, var = 0, m0 = 0, m1 = 0; unsigned it0 = 0, it1 = 0;
          for (int i = 0; i < m; ++i) { unsigned it = i + 1; double nv = v[i]; m0 = mean + var + nv; it0 = it; auto r = welfords_online_algorithm(nv, it, mean, var); m1 = mean + var + nv; it1 = it; mean = r.first; var = r.second; if (m0 != m1 || it0 != it1) break; }
          t({ { "e", "welford" }, { "vs", DV(v) }, { "mean", D(mean) }, { "var", D(var) }, { "m0", D(m0) }, { "m1", D(m1) }, { "it0", it0 }, { "it1", it1 } }); }
    }
}
