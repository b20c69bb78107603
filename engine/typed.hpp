// Standard types, values of them and the nodes they stand for.
#pragma once
#include "protocols.hpp"
#include <deque>
namespace ty {
using namespace zt;
inline size_t gen_count(Gen& g) { return g.chance(1, 60) ? g.one_of<size_t>({16, 32, 255, 256, 257, 300}) : size_t(g.below(5)); }
template <class T> struct Ty;
#define INT_TY(T) template <> struct Ty<T> { \
    static T gen(Gen& g) { return static_cast<T>(model::gen_bits(g)); } \
    static Node node(T v) { if constexpr (std::is_signed_v<T>) return Node::sint(int64_t(v)); else return Node::uint(uint64_t(v)); } };
INT_TY(signed char) INT_TY(unsigned char) INT_TY(short) INT_TY(unsigned short) INT_TY(int) INT_TY(unsigned) INT_TY(long) INT_TY(unsigned long) INT_TY(long long) INT_TY(unsigned long long)
template <> struct Ty<char> { static char gen(Gen& g) { return char(g.draw(255)); } static Node node(char v) { return Node::sint(int64_t(v)); } };
template <> struct Ty<bool> { static bool gen(Gen& g) { return g.coin(); } static Node node(bool v) { return Node::boolean(v); } };
template <> struct Ty<std::nullptr_t> { static std::nullptr_t gen(Gen&) { return nullptr; } static Node node(std::nullptr_t) { return Node::null(); } };
template <> struct Ty<double> { static double gen(Gen& g) { return model::gen_double(g, false); } static Node node(double v) { return Node::dbl(v); } };
template <> struct Ty<float> { static float gen(Gen& g) { float f = float(model::gen_double(g, true)); return std::isnan(f) ? 0.5f : f; } static Node node(float v) { return Node::dbl(double(v)); } };
template <> struct Ty<std::string> { static std::string gen(Gen& g) { return model::gen_string(g, {}, false); } static Node node(const std::string& v) { return Node::str(v); } };
inline std::deque<std::string>& arena() { static std::deque<std::string> a; return a; } // backing of views, per case
template <> struct Ty<std::string_view> { static std::string_view gen(Gen& g) { arena().push_back(model::gen_string(g, {}, false)); return arena().back(); } static Node node(std::string_view v) { return Node::str(std::string(v)); } };
template <> struct Ty<const char*> { static const char* gen(Gen& g) { arena().push_back(model::gen_chars(g, g.below(20), false, false)); return arena().back().c_str(); } static Node node(const char* v) { return Node::str(v); } };
using BV = std::vector<std::byte>;
inline BV bv(const std::string& s) { auto p = reinterpret_cast<const std::byte*>(s.data()); return BV(p, p + s.size()); }
template <> struct Ty<BV> { static BV gen(Gen& g) { return bv(model::gen_blob(g, false)); } static Node node(const BV& v) { return Node::blob(blob_str(v)); } };
using BS = std::span<const std::byte>;
template <> struct Ty<BS> { static BS gen(Gen& g) { arena().push_back(model::gen_blob(g, false)); return {reinterpret_cast<const std::byte*>(arena().back().data()), arena().back().size()}; } static Node node(BS v) { return Node::blob(blob_str(v)); } };
template <> struct Ty<Node> { static Node gen(Gen& g) { int b = 6; return model::gen_node(g, {}, 2, b, false); } static Node node(const Node& v) { return v; } };
template <class T> struct Ty<std::vector<T>> { static std::vector<T> gen(Gen& g) { std::vector<T> v; for (size_t n = gen_count(g); n > 0; --n) v.push_back(Ty<T>::gen(g)); return v; } static Node node(const std::vector<T>& v) { Node n = Node::arr({}); for (const auto& x : v) n.a.push_back(Ty<T>::node(x)); return n; } };
template <class T> struct Ty<std::list<T>> { static std::list<T> gen(Gen& g) { std::list<T> v; for (size_t n = gen_count(g); n > 0; --n) v.push_back(Ty<T>::gen(g)); return v; } static Node node(const std::list<T>& v) { Node n = Node::arr({}); for (const auto& x : v) n.a.push_back(Ty<T>::node(x)); return n; } };
template <class T, size_t N> struct Ty<std::array<T, N>> { static std::array<T, N> gen(Gen& g) { std::array<T, N> v{}; for (auto& x : v) x = Ty<T>::gen(g); return v; } static Node node(const std::array<T, N>& v) { Node n = Node::arr({}); for (const auto& x : v) n.a.push_back(Ty<T>::node(x)); return n; } };
template <class M> Node map_node(const M& v) { Node n = Node::map({}); for (const auto& [k, x] : v) n.m.push_back({std::string(k), Ty<std::remove_cvref_t<decltype(x)>>::node(x)}); return n; }
template <class T> struct Ty<std::map<std::string, T>> { static std::map<std::string, T> gen(Gen& g) { std::map<std::string, T> v; for (size_t n = gen_count(g); n > 0; --n) v.insert_or_assign(model::gen_key(g, {}), Ty<T>::gen(g)); return v; } static Node node(const std::map<std::string, T>& v) { return map_node(v); } };
template <class T> struct Ty<std::unordered_map<std::string, T>> { static std::unordered_map<std::string, T> gen(Gen& g) { std::unordered_map<std::string, T> v; for (size_t n = gen_count(g); n > 0; --n) v.insert_or_assign(model::gen_key(g, {}), Ty<T>::gen(g)); return v; } static Node node(const std::unordered_map<std::string, T>& v) { return map_node(v); } };
} // namespace ty
