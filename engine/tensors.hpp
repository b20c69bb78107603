// Tensor helpers shared by the tensor checks.
#pragma once
#include "protocols.hpp"
#include "tus.hpp"
#include <complex>
#include <zerialize/tensor/eigen.hpp>
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/zbuilders.hpp>
#include <xtensor/xview.hpp>
#include <xtensor/xstrided_view.hpp>
#include <xtensor/xmanipulation.hpp>

namespace tz {
using namespace zt;
using half = xtl::half_float;
template <class... T> struct TL {};
using AllT = TL<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t, float, double, std::complex<float>, std::complex<double>, half>;
template <class F, class... T> void with_t(TL<T...>, size_t i, F&& f) { size_t k = 0; ((k++ == i ? (f.template operator()<T>(), 0) : 0), ...); }
template <class... T> constexpr size_t count_t(TL<T...>) { return sizeof...(T); }

// The published codes, written out independently of the library's table.
template <class T> constexpr int code() {
    if constexpr (std::is_same_v<T, int8_t>) return 0; else if constexpr (std::is_same_v<T, int16_t>) return 1;
    else if constexpr (std::is_same_v<T, int32_t>) return 2; else if constexpr (std::is_same_v<T, int64_t>) return 3;
    else if constexpr (std::is_same_v<T, uint8_t>) return 4; else if constexpr (std::is_same_v<T, uint16_t>) return 5;
    else if constexpr (std::is_same_v<T, uint32_t>) return 6; else if constexpr (std::is_same_v<T, uint64_t>) return 7;
    else if constexpr (std::is_same_v<T, float>) return 10; else if constexpr (std::is_same_v<T, double>) return 11;
    else if constexpr (std::is_same_v<T, std::complex<float>>) return 12; else if constexpr (std::is_same_v<T, std::complex<double>>) return 13;
    else return 14;
}
template <class T> const char* tname() {
    static const char* n[] = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "?", "?", "float", "double", "complex<float>", "complex<double>", "half"};
    return n[code<T>()];
}
using Shape = std::vector<size_t>;
inline size_t prod(const Shape& s) { size_t p = 1; for (size_t d : s) p *= d; return p; }
inline std::string show(const Shape& s) { std::string o = "("; for (size_t d : s) o += std::to_string(d) + ","; return o + ")"; }
inline Shape gen_shape(Gen& g, size_t max_rank = 9, size_t max_count = 3000) {
    Shape s; size_t rank = g.pick({2, 6, 6, 4, 2, 1}), p = 1; if (rank == 5 && g.chance(1, 3)) rank = g.range(6, 9);
    for (size_t i = 0; i < std::min(rank, max_rank); ++i) {
        size_t d;
        switch (g.pick({8, 3, 2, 1})) {
            case 0: d = g.range(1, 5); break;
            case 1: d = 1; break;
            case 2: d = g.coin() ? g.range(1, 70) : g.one_of<size_t>({7, 8, 15, 16, 17, 33}); break;
            default: d = g.one_of<size_t>({0, 100, 255, 256, 257}); break;
        }
        if (d && p * d > max_count) d = 1;
        if (d) p *= d;
        s.push_back(d);
    }
    return s;
}
// Elements of any bit pattern.
template <class T> std::vector<uint8_t> gen_data(Gen& g, size_t n) { return g.bytes(n * sizeof(T)); }
template <class T> std::string bits(const T& x) { return std::string(reinterpret_cast<const char*>(&x), sizeof x); }
// Calls f with every index of a shape (odometer order, last fastest).
template <class F> void each_index(const Shape& s, F&& f) {
    if (prod(s) == 0) return;
    Shape i(s.size(), 0);
    for (;;) {
        f(i);
        size_t d = s.size();
        while (d-- > 0) { if (++i[d] < s[d]) break; i[d] = 0; if (d == 0) return; }
        if (s.empty()) return;
    }
}
template <class A> Shape shape_of(const A& a) { Shape s; for (auto d : a.shape()) s.push_back(size_t(d)); return s; }
// The source's elements in row-major order, read one by one through its index operator.
template <class A> std::string elements(const A& a) {
    std::string o;
    each_index(shape_of(a), [&](const Shape& i) { const typename A::value_type x = a.element(i.begin(), i.end()); o += bits(x); });
    return o;
}
} // namespace tz
