#pragma once
#include "CubicInterpolation/CubicSplines.h"
#include <array>
namespace cubic_splines {
template <typename T> class BicubicSplines {
public:
    using type = std::array<T, 2>;
    struct Definition {
        std::function<T(T, T)> f;
        std::unique_ptr<Axis<T>> f_trafo;
        std::array<std::unique_ptr<Axis<T>>, 2> axis;
        bool approx_derivates = true;
        std::array<std::unique_ptr<Axis<T>>, 2> const& GetAxis() const { return axis; }
    };
    explicit BicubicSplines(Definition const& def) {
        size_t n0 = def.axis[0]->required_nodes(), n1 = def.axis[1]->required_nodes();
        for (size_t i = 0; i < n0; ++i) {
            std::vector<T> row(n1);
            for (size_t j = 0; j < n1; ++j)
                row[j] = def.f(def.axis[0]->back_transform(i), def.axis[1]->back_transform(j));
            m.push_back(detail_::slopes(row));
            y.push_back(std::move(row));
        }
    }
    T evaluate(Definition const& def, std::array<T, 2> const& x) const {
        T t0 = def.axis[0]->transform(x[0]), t1 = def.axis[1]->transform(x[1]);
        long i = std::max(0l, std::min((long)std::floor(t0), (long)y.size() - 2));
        T u = t0 - i; // linear in the first, monotone cubic in the second variable
        return (1 - u) * detail_::hermite(y[i], m[i], t1) + u * detail_::hermite(y[i + 1], m[i + 1], t1);
    }
private:
    std::vector<std::vector<T>> y, m;
};
} // namespace cubic_splines
