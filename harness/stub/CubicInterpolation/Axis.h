// Stand-in for the CubicInterpolation library (not available offline), used
// only by the harnesses in /verif.  It reproduces the API PROPOSAL uses; the
// interpolation itself is a monotone piecewise-cubic (PCHIP) table.
#pragma once
#include <cmath>
#include <cstddef>
#include <memory>
namespace cubic_splines {
template <typename T> struct Axis {
    T low, high, step; size_t nodes;
    Axis(T l, T h, T s, size_t n) : low(l), high(h), step(s), nodes(n) {}
    virtual ~Axis() = default;
    virtual T transform(T) const = 0;
    virtual T back_transform(T) const = 0;
    T GetLow() const { return low; }
    T GetHigh() const { return high; }
    size_t required_nodes() const { return nodes; }
    virtual std::unique_ptr<Axis<T>> clone() const = 0;
};
template <typename T> struct ExpAxis : Axis<T> {
    ExpAxis(T l, T h, size_t n) : Axis<T>(l, h, std::log(h / l) / (n - 1), n) {}
    ExpAxis(T l, T h) : Axis<T>(l, h, 1, 0) {}
    T transform(T x) const override { return std::log(x / this->low) / this->step; }
    T back_transform(T t) const override { return this->low * std::exp(t * this->step); }
    std::unique_ptr<Axis<T>> clone() const override { return std::make_unique<ExpAxis<T>>(*this); }
};
template <typename T> struct ExpM1Axis : Axis<T> {
    ExpM1Axis(T l, T h, size_t n) : Axis<T>(l, h, std::log1p(h / l) / (n - 1), n) {}
    ExpM1Axis(T l, T h) : Axis<T>(l, h, 1, 0) {}
    T transform(T x) const override { return std::log1p(x / this->low) / this->step; }
    T back_transform(T t) const override { return this->low * std::expm1(t * this->step); }
    std::unique_ptr<Axis<T>> clone() const override { return std::make_unique<ExpM1Axis<T>>(*this); }
};
template <typename T> struct LinAxis : Axis<T> {
    LinAxis(T l, T h, size_t n) : Axis<T>(l, h, (h - l) / (n - 1), n) {}
    T transform(T x) const override { return (x - this->low) / this->step; }
    T back_transform(T t) const override { return this->low + t * this->step; }
    std::unique_ptr<Axis<T>> clone() const override { return std::make_unique<LinAxis<T>>(*this); }
};
} // namespace cubic_splines
