// Read operations on any part of a message, checked against the model; used alone, interleaved, or from several threads.
#pragma once
#include "protocols.hpp"
#include <deque>
#include <list>
namespace zt {
template <class P> struct World {
    using D = typename P::Deserializer;
    using Sub = std::remove_cvref_t<decltype(std::declval<const D&>()[size_t(0)])>;
    using Keys = std::remove_cvref_t<decltype(std::declval<const D&>().mapKeys())>;
    using It = std::remove_cvref_t<decltype(std::declval<Keys&>().begin())>;
    struct SubRec { Sub v; const Node* n; };
    struct Cursor { std::unique_ptr<Keys> keys; It it; const Node* n; std::vector<std::string> order; size_t at = 0; };
    std::list<std::pair<Held<P>, const Node*>> roots;
    std::deque<SubRec> subs;
    std::deque<Cursor> cursors;
    std::map<const Node*, std::string> printed;
};
// One value without its children: kind, content, size.
template <class P, class V> void shallow(const V& v, const Node& n, const char* what) {
    if (n.k != Node::Arr && n.k != Node::Map) { check_value<P>(v, n, what); return; }
    check_predicates<P>(v, n, what);
    if (n.k == Node::Arr) REQUIRE(v.arraySize() == n.a.size(), what + std::string(" should be ") + model::show(n));
    else if (n.m.size() < 200) REQUIRE(keys_of(v) == key_order<P>(n), what + std::string(" should be ") + model::show(n));
}
template <class P, class V> void act(Gen& g, World<P>& w, const V& v, const Node& n) {
    switch (g.below(11)) {
        case 0: case 1: shallow<P>(v, n, "a value"); break;
        case 2: case 3: // descend and keep the sub-reader
            if (n.k == Node::Arr && !n.a.empty()) { const size_t i = g.below(n.a.size()); w.subs.push_back({v[i], &n.a[i]}); }
            else if (n.k == Node::Map && !n.m.empty()) { auto& e = g.elem(n.m); w.subs.push_back({v[std::string_view(e.first)], &e.second}); }
            else shallow<P>(v, n, "a value");
            break;
        case 4: // read all of it
            if (model::count(n) < 200) check_value<P>(v, n, "a value"); break;
        case 5: // keep a key iterator
            if (n.k == Node::Map && w.cursors.size() < 8) {
                auto k = std::make_unique<typename World<P>::Keys>(v.mapKeys()); auto it = k->begin();
                w.cursors.push_back({std::move(k), std::move(it), &n, key_order<P>(n), 0});
            }
            break;
        case 6: // print
            if (model::count(n) < 200) { auto s = v.to_string(); auto [it, fresh] = w.printed.emplace(&n, s); REQUIRE(it->second == s, "to_string() gives\n" + s.substr(0, 500) + "\nafter\n" + it->second.substr(0, 500)); }
            break;
        case 7: // accesses that fail
            throws_deser([&] { (void)v.asInt8(); }, "asInt8"); throws_deser([&] { (void)v.asStringView(); }, "asStringView"); throws_deser([&] { (void)v[size_t(g.below(70000))]; }, "operator[]");
            throws_deser([&] { (void)v[std::string_view("no such key")]; }, "operator[]"); throws_deser([&] { (void)v.contains("no such key"); }, "contains");
            shallow<P>(v, n, "a value after failed accesses");
            break;
        case 8: // in reverse and by enumeration
            if (n.k == Node::Arr) { for (size_t i = std::min<size_t>(n.a.size(), 40); i-- > 0;) shallow<P>(v[i], n.a[i], "an element read backwards"); }
            else if (n.k == Node::Map && n.m.size() < 40) for (std::string_view k : v.mapKeys()) for (auto& e : n.m) if (e.first == k) shallow<P>(v[k], e.second, "a member read while enumerating");
            break;
        case 9: // the same member by different keys objects, twice
            if (n.k == Node::Map && !n.m.empty()) { auto& e = g.elem(n.m); std::string k1 = e.first; shallow<P>(v[std::string_view(k1)], e.second, "a member"); REQUIRE(v.contains(k1), "contains"); k1.assign(k1.size(), '?'); shallow<P>(v[std::string_view(e.first)], e.second, "a member, again"); }
            else if (n.k == Node::Arr && !n.a.empty()) { const size_t i = g.below(n.a.size()); shallow<P>(v[i], n.a[i], "an element"); shallow<P>(v[i], n.a[i], "an element, again"); }
            break;
        default: // translate
            if (model::count(n) < 60 && model::longest_key(n) <= 65535) { auto z = zerialize::translate<zerialize::Zera>(v); Node c = n; if (PT<P>::sorted) sort_maps(c); check_value<zerialize::Zera>(z, c, "its translation", true); }
            break;
    }
}
template <class P> void advance(Gen& g, typename World<P>::Cursor& c) {
    if (c.at == c.order.size()) { REQUIRE(c.it == c.keys->end(), "a key iterator at the end differs from end()"); c.it = c.keys->begin(); c.at = 0; return; }
    REQUIRE(!(c.it == c.keys->end()), "a key iterator is at the end early");
    REQUIRE(*c.it == c.order[c.at], "an iterator kept from earlier");
    if (g.coin()) { auto d = c.it; if (g.coin()) ++d; else d++; if (c.at + 1 < c.order.size()) REQUIRE(*d == c.order[c.at + 1], "a copied iterator"); REQUIRE(*c.it == c.order[c.at], "the original of a copied iterator"); }
    if (g.coin()) ++c.it; else { auto old = c.it++; REQUIRE(*old == c.order[c.at], "the old iterator of ++"); }
    ++c.at;
}
} // namespace zt
