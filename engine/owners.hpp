// Which bytes of a Zera message belong to which values.
#pragma once
#include "refzera.hpp"
namespace zt {
// Which values each byte belongs to: the lowest and the highest number in pre-order (a value's subtree is an interval of numbers).
struct Owners {
    std::vector<uint32_t> lo, hi; std::vector<size_t> end; std::vector<const Node*> node; std::vector<size_t> reach; // reach: where a value's (possibly empty) data ends; end[i]: one past the last number in i's subtree
    explicit Owners(size_t n) : lo(n, UINT32_MAX), hi(n, 0) {}
    void own(size_t at, size_t n, uint32_t who) { for (size_t i = at; i < at + n; ++i) { lo[i] = std::min(lo[i], who); hi[i] = std::max(hi[i], who); } }
    void walk(const refzera::Ref& r, const Node& n) {
        const uint32_t me = uint32_t(end.size()); end.push_back(0); node.push_back(&n); reach.push_back(0);
        const auto& m = *r.m;
        if ((r.tag() == 4 && !(r.flags() & 1)) || r.tag() == 7) reach[me] = m.arena + r.f(0) + r.f(1);
        own(m.env + r.vr, 16, me);
        if (r.tag() == 4 && !(r.flags() & 1)) own(m.arena + r.f(0), r.f(1), me);
        if (r.tag() == 7) { own(m.arena + r.f(0), r.f(1), me); own(m.env + r.f(2), 12, me); }
        if (r.tag() == 5) { own(m.env + r.f(0), 4, me); for (size_t i = 0; i < n.a.size(); ++i) walk(refzera::Ref{r.m, size_t(r.f(0)) + 4 + 16 * i}, n.a[i]); }
        if (r.tag() == 6) {
            own(m.env + r.f(0), 4, me); size_t p = r.f(0) + 4;
            for (auto& [k, x] : n.m) { own(m.env + p, 4 + k.size(), me); walk(refzera::Ref{r.m, p + 4 + k.size()}, x); p += 4 + k.size() + 16; }
        }
        end[me] = end.size();
    }
};
}
