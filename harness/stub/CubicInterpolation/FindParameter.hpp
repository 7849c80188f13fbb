#pragma once
#include "CubicInterpolation/Interpolant.h"
#include <limits>
#include <stdexcept>
namespace cubic_splines {
template <typename T> struct ParameterGuess {
    T x; double lower = std::numeric_limits<double>::quiet_NaN(), upper = std::numeric_limits<double>::quiet_NaN();
    size_t n = 0;
};
namespace detail_ {
    template <typename F> double bisect(F f, double a, double b) {
        double fa = f(a), fb = f(b);
        if (fa == 0) return a;
        if (fb == 0) return b;
        if (!(fa * fb < 0)) throw std::runtime_error("find_parameter: not bracketed");
        for (int i = 0; i < 200 && a != b; ++i) {
            double c = a + (b - a) / 2, fc = f(c);
            if (c == a || c == b) return c;
            if ((fc < 0) == (fa < 0)) { a = c; } else { b = c; }
        }
        return a + (b - a) / 2;
    }
}
inline double find_parameter(Interpolant<CubicSplines<double>> const& in, double val, ParameterGuess<double> g) {
    double lo = std::isnan(g.lower) ? in.GetDefinition().GetAxis().GetLow() : g.lower;
    double hi = std::isnan(g.upper) ? in.GetDefinition().GetAxis().GetHigh() : g.upper;
    return detail_::bisect([&](double x) { return in.evaluate(x) - val; }, lo, hi);
}
inline double find_parameter(Interpolant<BicubicSplines<double>> const& in, double val, ParameterGuess<std::array<double, 2>> g) {
    auto const& ax = in.GetDefinition().GetAxis()[g.n];
    return detail_::bisect([&](double x) { auto p = g.x; p[g.n] = x; return in.evaluate(p) - val; }, ax->GetLow(), ax->GetHigh());
}
} // namespace cubic_splines
