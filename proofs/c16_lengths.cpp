// C16: length-delimited fields: text, bytes and packed numbers of any length,
// nested messages.  Repeated varints, texts, messages and maps have at most two
// elements here (bounded).
#include "pb_message.h"
#include <string>

// sequences compare by size and by an arbitrary element
template <typename T>
bool same(const T & a, const T & b)
{
    if constexpr (requires { a.data(); }) {
        if (a.size() != b.size()) {
            return false;
        }
        const auto j = vp_nondet_size();
        vp_assume(j < a.size());
        return a.data()[j] == b.data()[j];
    } else {
        return a == b;
    }
}
template <typename T>
struct run
{
    T v;
    bool operator==(const run & o) const { return same(v, o.v); }
    using serialize = zpp::bits::pb_members<1>;
};
template <typename E, typename Byte = std::byte, typename... Opt>
void sequence_field(Opt... opt)
{
    vp_throw_ok(1);
    run<std::vector<E>> m{any_vector<E>()};
    const auto n = m.v.size() * sizeof(E);
    message<Byte>(m, [&](auto & w) {
        if (n) {
            w.tag(1, pb_length);
            w.varint(n);
            w.bytes(m.v.data(), n);
        }
    }, opt...);
}
PROOF(bytes) { sequence_field<std::byte>(); }
PROOF(text) { sequence_field<char>(); }
PROOF(packed32) { sequence_field<u32>(); }
PROOF(packed64) { sequence_field<std::int64_t>(); }

// a message in a message, in a message
struct leaf
{
    zpp::bits::vuint32_t a;
    u64 b = 0;
    bool operator==(const leaf &) const = default;
    using serialize = zpp::bits::pb_members<2>;
};
struct middle
{
    u32 x = 0;
    leaf l;
    bool operator==(const middle &) const = default;
    using serialize = zpp::bits::pb_members<2>;
};
struct outer
{
    middle m;
    u32 y = 0;
    bool operator==(const outer &) const = default;
    using serialize = zpp::bits::pb_members<2>;
};
leaf any_leaf()
{
    leaf l;
    l.a = any<u32>(), l.b = any<u64>();
    return l;
}
auto leaf_parts(const leaf & l)
{
    return [&](auto & w) {
        w.tag(1, pb_varint), w.varint(u32(l.a));
        w.tag(2, pb_fixed64), w.fixed(l.b, 8);
    };
}
PROOF(nested)
{
    outer o{{any<u32>(), any_leaf()}, any<u32>()};
    message(o, [&](auto & w) {
        w.tag(1, pb_length), w.nested([&](auto & w) {
            w.tag(1, pb_fixed32), w.fixed(o.m.x, 4);
            w.tag(2, pb_length), w.nested(leaf_parts(o.m.l));
        });
        w.tag(2, pb_fixed32), w.fixed(o.y, 4);
    });
}
// a message longer than one byte of length can tell
struct holder
{
    run<std::vector<std::byte>> r;
    bool operator==(const holder &) const = default;
    using serialize = zpp::bits::pb_members<1>;
};
PROOF(nested_bytes)
{
    vp_throw_ok(1);
    holder h{{any_vector<std::byte>()}};
    const auto n = h.r.v.size();
    message(h, [&](auto & w) {
        w.tag(1, pb_length), w.nested([&](auto & w) {
            if (n) {
                w.tag(1, pb_length), w.varint(n), w.bytes(h.r.v.data(), n);
            }
        });
    });
}
