// Integral objects: replays behaviours of IntegralGen, or random ones.
#include "vtrace.h"
#include "PROPOSAL/math/Integral.h"
using namespace PROPOSAL;
static double num(json const& j) { return std::strtod(j.get<std::string>().c_str(), nullptr); }
static std::function<double(double)> fn(json const& c) {
    auto fam = c["fam"].get<std::string>();
    double a = num(c["par"][0]), b = num(c["par"][1]);
    if (fam == "pow") return [a, b](double x) { return a * std::pow(x, b); };
    if (fam == "exp") return [a, b](double x) { return a * std::exp(b * x); };
    if (fam == "sin") return [a, b](double x) { return a * std::sin(b * x); };
    return [a, b](double x) { return a + b * x; };
}
static double integ(Integral& i, json const& c) { return i.Integrate(num(c["min"]), num(c["max"]), fn(c), c["method"], num(c["pos"])); }
static double ratio(Integral& i, json const& c) { return i.IntegrateWithRandomRatio(num(c["min"]), num(c["max"]), fn(c), c["method"], num(c["ratio"]), num(c["pos"])); }
static void run(Trace& t, json const& ops) {
    std::map<int, std::unique_ptr<Integral>> o; std::map<int, double> pr; std::map<int, int> ms;
    for (auto op : ops) {
        auto e = op["e"].get<std::string>(); int k = op["o"];
        if (e == "new") { int m = op.value("steps", 40); pr[k] = num(op["prec"]); ms[k] = m; o[k].reset(new Integral(5, m, pr[k])); }
        else if (e == "int") { Integral f(5, ms[k], pr[k]); op["fresh"] = D(integ(f, op["c"])); op["r"] = D(integ(*o[k], op["c"])); }
        else if (e == "rat") { Integral f(5, ms[k], pr[k]); op["fresh"] = D(ratio(f, op["c"])); op["r"] = D(ratio(*o[k], op["c"])); }
        else if (e == "up") op["r"] = D(o[k]->GetUpperLimit());
        else if (e == "copy") {
            int to = op["to"];
            if (op["how"] == "assign") { o[to].reset(new Integral(3, 12, 1e-3)); *o[to] = *o[k]; } else o[to].reset(new Integral(*o[k]));
            pr[to] = pr[k]; ms[to] = ms[k];
        }
        t(op);
    }
}
int main(int argc, char** argv) {
    if (argc < 4) return 2;
    Trace t(argv[1]);
    Logging::SetGlobalLoglevel(spdlog::level::off);
    if (std::string(argv[2]) == "behaviours") {
        std::ifstream f(argv[3]); std::string l;
        while (std::getline(f, l)) if (!l.empty()) run(t, json::parse(l));
        return 0;
    }
    Rng g(env_seed());
    for (int n = std::atoi(argv[3]); n > 0; --n) {
        json ops = json::array(); int no = 1;
        ops.push_back({ { "e", "new" }, { "o", 1 }, { "prec", D(g.i(0, 1) ? 1e-6 : 1e-5) }, { "steps", g.i(0, 3) ? 40 : 20 } });
        for (int k = g.i(3, 9); k > 0; --k) {
            int what = g.i(0, 9), ob = g.i(1, no);
            if (what == 0 && no < 3) { ops.push_back({ { "e", "copy" }, { "o", ob }, { "to", ++no }, { "how", g.i(0, 1) ? "copy" : "assign" } }); continue; }
            if (what <= 4) { ops.push_back({ { "e", "up" }, { "o", ob } }); continue; }
            bool rat = what >= 7;
            int m = rat ? g.i(3, 4) : g.i(1, 5);
            json c; c["kind"] = "req"; c["method"] = m;
            double pos = m == 3 ? g.pick(std::vector<double>{ 0, 0, 1, 2, 0.5 }) : m == 5 ? g.pick(std::vector<double>{ 0, 1 }) : 0;
            double a = g.lu(m == 5 ? 1.5 : 0.1, 20), b = g.lu(m == 5 ? 1.5 : 0.1, 20);
            if (m != 4) b = a * g.u(1.2, m == 3 || m == 5 ? 2.5 : 3.5); // smooth in the variable of integration
            if (g.i(0, 1)) std::swap(a, b);
            if (std::abs(a - b) < 1e-3) b = a * 2;
            auto fam = g.pick(std::vector<std::string>{ "pow", "pow", "exp", "lin", "sin" });
            if (rat && fam == "sin") fam = "pow";
            double p1 = g.lu(0.1, 10), p2 = fam == "pow" ? g.u(-3, 3) : fam == "exp" ? g.u(0.1, 2) / std::max(std::abs(b - a), 0.3 * a) * (g.i(0, 1) ? 1 : -1) : fam == "sin" ? g.u(0.1, 1) : g.u(0, 3);
            if (m == 3 && fam == "lin" && g.i(0, 1)) { a -= 10; b -= 10; if (pos > 0) pos = 0; if (rat) { a += 10; b += 10; } }
            if (m <= 2 && g.i(0, 2) == 0) { // whole periods: the relative precision is never reached by refining equally
                fam = "sin"; p2 = 2 * std::acos(-1.) * (2 * g.i(0, 12) + 1) / std::abs(b - a);
            }
            c["min"] = D(a); c["max"] = D(b); c["pos"] = D(pos); c["fam"] = fam; c["par"] = { D(p1), D(p2) };
            if (rat) {
                double q = g.u(), w = 0;
                if (g.i(0, 2) == 0) { Integral f(5, 40, 1e-6); w = f.Integrate(a, b, fn(c), m, pos); }
                if (w > 0 || (w < 0 && m == 3)) c["ratio"] = D(-q * std::abs(w)); else c["ratio"] = D(q);
            }
            ops.push_back({ { "e", rat ? "rat" : "int" }, { "o", ob }, { "c", c } });
        }
        run(t, ops);
    }
}
