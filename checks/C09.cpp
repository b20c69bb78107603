// C09: MsgPack messages interoperate, written and read.
#include "../engine/refmsgpack.hpp"
using namespace zt;
using M = zerialize::MsgPack;

static Node any_value(Gen& g) {
    switch (g.pick({12, 2, 1})) {
        case 0: return model::gen_tree(g, PT<M>::dom(), g.chance(1, 6));
        case 1: return model::gen_chain(g, PT<M>::dom(), g.range(2, 60));
        default: return g.chance(1, 4) ? model::gen_wide(g, PT<M>::dom()) : model::gen_scalar(g, PT<M>::dom());
    }
}
// msgpack-c's own decoder as a second opinion.
static bool from_c(const msgpack_object& o, Node& n) {
    switch (o.type) {
        case MSGPACK_OBJECT_NIL: n = Node::null(); return true;
        case MSGPACK_OBJECT_BOOLEAN: n = Node::boolean(o.via.boolean); return true;
        case MSGPACK_OBJECT_POSITIVE_INTEGER: n = Node::uint(o.via.u64); return true;
        case MSGPACK_OBJECT_NEGATIVE_INTEGER: n = Node::sint(o.via.i64); return true;
        case MSGPACK_OBJECT_FLOAT32: case MSGPACK_OBJECT_FLOAT64: n = Node::dbl(o.via.f64); return true;
        case MSGPACK_OBJECT_STR: n = Node::str(std::string(o.via.str.ptr, o.via.str.size)); return true;
        case MSGPACK_OBJECT_BIN: n = Node::blob(std::string(o.via.bin.ptr, o.via.bin.size)); return true;
        case MSGPACK_OBJECT_ARRAY: n = Node{}; n.k = Node::Arr; for (uint32_t i = 0; i < o.via.array.size; ++i) { Node x; if (!from_c(o.via.array.ptr[i], x)) return false; n.a.push_back(std::move(x)); } return true;
        case MSGPACK_OBJECT_MAP: n = Node{}; n.k = Node::Map; for (uint32_t i = 0; i < o.via.map.size; ++i) { Node k, x; if (!from_c(o.via.map.ptr[i].key, k) || k.k != Node::Str || !from_c(o.via.map.ptr[i].val, x)) return false; n.m.push_back({k.s, std::move(x)}); } return true;
        default: return false;
    }
}
PART("written", 50000, 4000000) {
    const Node n = any_value(g);
    g.nontrivial(model::interesting(n));
    g.describe([&] { return model::show(n); });
    const Bytes b = g.coin() ? encode<M>(n) : to_bytes(zerialize::serialize<M>(n));
    const auto s = refmp::skip(b.data(), b.size());
    REQUIRE(s.s == refmp::Skip::Ok && s.n == b.size(), "the message is not exactly one MessagePack object");
    int fuel = 1 << 30; auto d = ref::decode(refmp::Ref{b.data(), b.size()}, fuel);
    if (model::depth(n) < 390) REQUIRE(d && model::equal(*d, n), "an independent decoder reads " + (d ? model::show(*d) : "nothing") + " instead of " + model::show(n));
    msgpack_unpacked u; msgpack_unpacked_init(&u); size_t off = 0;
    const auto rc = msgpack_unpack_next(&u, reinterpret_cast<const char*>(b.data()), b.size(), &off);
    Node c; const bool ok = (rc == MSGPACK_UNPACK_SUCCESS || rc == MSGPACK_UNPACK_EXTRA_BYTES) && from_c(u.data, c);
    msgpack_unpacked_destroy(&u);
    if (model::depth(n) < 30) { REQUIRE(ok && off == b.size(), "msgpack-c cannot decode the message"); REQUIRE(model::equal(c, n), "msgpack-c reads " + model::show(c) + " instead of " + model::show(n)); }
}
PART("foreign-widths", 60000, 5000000) {
    const Node n = any_value(g);
    g.nontrivial(model::interesting(n));
    refmp::Enc e{g, {}}; e.value(n);
    Bytes b = e.b; if (g.chance(1, 8)) { size_t k = g.range(1, 20); for (size_t i = 0; i < k; ++i) b.push_back(uint8_t(g.draw(255))); g.label("with bytes behind it"); }
    g.describe([&] { return model::show(n) + "\nas " + pbt::hex(b, 300); });
    auto h = hold<M>(b, g.below(4), g.coin() ? g.below(16) : 0);
    check_value<M>(*h, n);
    check_printed<M>(h->to_string(), n);
    if (g.chance(1, 4) && model::count(n) < 3000 && model::longest_key(n) <= 65535) check_value<zerialize::Zera>(zerialize::translate<zerialize::Zera>(*h), n, "translated", true);
}
// Sizes on both sides of every length field, in every field that can hold them.
PART("boundaries", 1500, 60000) {
    const size_t sz = g.one_of<size_t>({0, 1, 14, 15, 16, 17, 30, 31, 32, 33, 254, 255, 256, 257, 65534, 65535, 65536, 65537});
    Node n;
    switch (g.below(5)) {
        case 0: n = Node::str(std::string(sz, 'x')); break;
        case 1: n = Node::blob(std::string(sz, '\x90')); break;
        case 2: n.k = Node::Arr; for (size_t i = 0; i < sz; ++i) n.a.push_back(Node::sint(int64_t(i) - 40)); break;
        case 3: n.k = Node::Map; for (size_t i = 0; i < sz; ++i) n.m.push_back({"k" + std::to_string(i), Node::uint(i * 3)}); break;
        default: n.k = Node::Map; n.m.push_back({std::string(sz, 'k'), Node::boolean(true)}); break;
    }
    Node w = g.coin() ? n : Node::arr({Node::null(), n, Node::str("after")});
    g.nontrivial();
    g.describe([&] { return model::show(w); });
    refmp::Enc e{g, {}}; e.value(w); auto h = hold<M>(e.b); check_value<M>(*h, w);
    const Bytes b = encode<M>(w); int fuel = 1 << 30; auto d = ref::decode(refmp::Ref{b.data(), b.size()}, fuel); REQUIRE(d && model::equal(*d, w), "independent decoding differs");
    auto h2 = hold<M>(b); check_value<M>(*h2, w);
}
PART("huge", 32, 400) {
    const Node n = model::gen_huge(g);
    g.nontrivial(); g.describe([&] { return model::show(n); });
    { const Bytes b = encode<M>(n); int fuel = 1 << 30; auto d = ref::decode(refmp::Ref{b.data(), b.size()}, fuel); REQUIRE(d && model::equal(*d, n), "independent decoding differs"); }
    { refmp::Enc e{g, {}}; e.value(n); auto h = hold<M>(e.b, g.below(4)); check_value<M>(*h, n); }
}
