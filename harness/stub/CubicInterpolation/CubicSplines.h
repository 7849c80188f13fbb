#pragma once
#include "CubicInterpolation/Axis.h"
#include <algorithm>
#include <functional>
#include <vector>
namespace cubic_splines {
namespace detail_ {
    // PCHIP slopes on a unit grid
    template <typename T> std::vector<T> slopes(std::vector<T> const& y) {
        size_t n = y.size();
        std::vector<T> m(n, 0);
        if (n < 2) return m;
        for (size_t i = 0; i < n; ++i) {
            if (i == 0) m[i] = y[1] - y[0];
            else if (i == n - 1) m[i] = y[n - 1] - y[n - 2];
            else {
                T a = y[i] - y[i - 1], b = y[i + 1] - y[i];
                m[i] = (a * b > 0) ? 2 * a * b / (a + b) : 0;
            }
        }
        return m;
    }
    template <typename T> T hermite(std::vector<T> const& y, std::vector<T> const& m, T t) {
        size_t n = y.size();
        long i = (long)std::floor(t);
        i = std::max(0l, std::min(i, (long)n - 2));
        T u = t - i, u2 = u * u, u3 = u2 * u;
        T r = (2*u3-3*u2+1)*y[i] + (u3-2*u2+u)*m[i] + (-2*u3+3*u2)*y[i+1] + (u3-u2)*m[i+1];
        if (!std::isfinite(r)) r = (u < 0.5) ? y[i] : y[i+1];
        return r;
    }
}
template <typename T> class CubicSplines {
public:
    using type = T;
    struct Definition {
        std::function<T(T)> f;
        std::unique_ptr<Axis<T>> f_trafo;
        std::unique_ptr<Axis<T>> axis;
        bool approx_derivates = true;
        Axis<T> const& GetAxis() const { return *axis; }
    };
    explicit CubicSplines(Definition const& def) {
        size_t n = def.axis->required_nodes();
        y.resize(n);
        for (size_t i = 0; i < n; ++i) {
            T v = def.f(def.axis->back_transform(i));
            y[i] = def.f_trafo ? def.f_trafo->transform(v) : v;
        }
        m = detail_::slopes(y);
    }
    T evaluate(Definition const& def, T x) const {
        T v = detail_::hermite(y, m, def.axis->transform(x));
        return def.f_trafo ? def.f_trafo->back_transform(v) : v;
    }
private:
    std::vector<T> y, m;
};
} // namespace cubic_splines
