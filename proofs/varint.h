// Variable-length integers, from their definition.
#pragma once
#include "wire.h"

namespace vp
{
template <typename V>
struct varint_of;
template <typename T, zpp::bits::varint_encoding E>
struct varint_of<zpp::bits::varint<T, E>>
{
    using type = T;
    static constexpr bool zig = E == zpp::bits::varint_encoding::zig_zag;
    static constexpr unsigned width = sizeof(T) * 8;
    static constexpr unsigned max = width / 7 + 1;
    static constexpr u64 mask = width == 64 ? ~0ull : (1ull << (width % 64)) - 1;
};
// the number that is encoded for a value, and the value for a number
template <typename V>
inline u64 number(typename varint_of<V>::type t)
{
    using D = varint_of<V>;
    u64 b = bits(t);
    if constexpr (D::zig) {
        bool negative = (b >> (D::width - 1)) & 1;
        return negative ? (2 * (D::mask - b) + 1) & D::mask : 2 * b;
    } else {
        return b;
    }
}
template <typename V>
inline typename varint_of<V>::type value(u64 n)
{
    using D = varint_of<V>;
    n &= D::mask;
    if constexpr (D::zig) {
        n = n & 1 ? D::mask - n / 2 : n / 2;
    }
    return from_bits<typename D::type>(n);
}
// groups of seven bits the number needs
inline std::size_t groups(u64 n)
{
    std::size_t k = 1;
    while (k < 10 && (n >> (7 * k))) {
        ++k;
    }
    return k;
}
// do the `size` bytes at p encode n in the shortest way?
template <typename Byte>
inline bool shortest(const Byte * p, std::size_t size, u64 n)
{
    if (size < 1 || size > 10) {
        return false;
    }
    bool ok = true;
    for (std::size_t i = 0; i < 10; ++i) {
        if (i < size) {
            auto want = ((n >> (7 * i)) & 0x7f) | (i + 1 < size ? 0x80 : 0);
            ok = ok & (u8(p[i]) == want);
        }
    }
    return ok & (size == groups(n));
}
// what arbitrary bytes spell
template <typename V, typename Byte>
struct reading
{
    bool complete = false, truncated = false;
    std::size_t size = 0;
    u64 n = 0;
    reading(const Byte * p, std::size_t left)
    {
        for (std::size_t i = 0; i < varint_of<V>::max; ++i) {
            if (i >= left) {
                truncated = true;
                return;
            }
            n |= u64(u8(p[i]) & 0x7f) << (7 * i);
            if (u8(p[i]) < 0x80) {
                size = i + 1;
                complete = true;
                return;
            }
        }
    }
};
template <typename V, bool Big = false, typename Byte = std::byte, typename... Opt>
void write_varint(Opt... opt)
{
    using T = typename varint_of<V>::type;
    sink<Byte> s;
    auto t = from_bits<T>(vp_nondet_u64());
    const V v{t};
    auto n = number<V>(t);
    auto size = vp_pick(groups(n), 10);
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(v);
    if (success(r)) {
        vp_cover("written");
        vp_assert(out.position() == s.pos + size, "the fewest bytes possible");
        vp_assert(shortest(s.p + s.pos, size, n), "groups of seven bits, least significant first");
        vp_assert(s.frame(s.pos, s.pos + size), "nothing else changes");
        vp_assert(s.room() >= size, "only when it fits");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range, "out of range");
        vp_assert(s.room() < size, "refused only when it does not fit");
        vp_assert(out.position() == s.pos && s.frame(s.pos, s.pos), "and then nothing changes");
    }
}
template <typename V>
void size_of_varint()
{
    using D = varint_of<V>;
    using T = typename D::type;
    auto t = from_bits<T>(vp_nondet_u64());
    vp_assert(std::size_t(zpp::bits::varint_size<D::zig ? zpp::bits::varint_encoding::zig_zag : zpp::bits::varint_encoding::normal>(t)) == groups(number<V>(t)), "the reported size");
}
template <typename V, typename Byte = std::byte, typename... Opt>
void varint_round_trip(Opt... opt)
{
    using T = typename varint_of<V>::type;
    sink<Byte> s;
    auto t = from_bits<T>(vp_nondet_u64());
    const V v{t};
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    if (success(out(v))) {
        vp_cover("round trip");
        V w{from_bits<T>(vp_nondet_u64())};
        zpp::bits::in in{s.span, Opt(opt)...};
        in.reset(s.pos);
        auto r = in(w);
        vp_assert(success(r), "what was written can be read");
        vp_assert(in.position() == out.position(), "exactly the same bytes");
        vp_assert(bits(w.value) == bits(t), "the same value");
    }
}
template <typename V, typename Byte = std::byte, typename... Opt>
void read_varint(Opt... opt)
{
    using T = typename varint_of<V>::type;
    source<Byte> s;
    reading<V, Byte> want(s.p + s.pos, s.n - s.pos);
    auto old = from_bits<T>(vp_nondet_u64());
    V v{old};
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto r = in(v);
    if (success(r)) {
        vp_cover("read");
        vp_assert(want.complete, "success only for a complete encoding");
        vp_assert(in.position() == s.pos + want.size, "exactly the encoding is consumed");
        vp_assert(bits(v.value) == bits(value<V>(want.n)), "the number the bytes spell");
    } else {
        vp_cover("rejected");
        vp_assert(!want.complete, "a complete encoding is accepted");
        vp_assert(r == (want.truncated ? std::errc::result_out_of_range : std::errc::value_too_large), "truncated or too long");
        vp_assert(in.position() == s.pos, "nothing is consumed");
    }
}
} // namespace vp
