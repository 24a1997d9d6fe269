// vp-irv: --unroll 200 --merge
// C23: bit sets are packed eight to a byte.
#include "wire.h"
#include <bitset>
using namespace vp;
using namespace zpp::bits::options;

template <std::size_t N>
std::bitset<N> arbitrary()
{
    std::bitset<N> b;
    if constexpr (N <= 64) {
        b = std::bitset<N>(vp_nondet_u64());
    } else {
        u64 w[(N + 63) / 64];
        vp_havoc(w, sizeof(w));
        for (std::size_t i = 0; i < N; ++i) {
            b[i] = w[i / 64] >> (i % 64) & 1;
        }
    }
    return b;
}
template <std::size_t N, typename Byte = std::byte, typename... Opt>
void encode(Opt... opt)
{
    constexpr auto size = (N + 7) / 8;
    sink<Byte> s;
    const auto b = arbitrary<N>();
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(b);
    if (success(r)) {
        vp_cover("written");
        vp_assert(s.room() >= size && out.position() == s.pos + size, "the bytes that hold the bits");
        bool ok = true, clear = true;
        for (std::size_t i = 0; i < N; ++i) {
            ok = ok & ((s.at(s.pos + i / 8) >> (i % 8) & 1) == b[i]);
        }
        for (std::size_t i = N; i < size * 8; ++i) {
            clear = clear & ((s.at(s.pos + i / 8) >> (i % 8) & 1) == 0);
        }
        vp_assert(ok, "bit i in bit i mod 8 of byte i div 8");
        vp_assert(clear, "unused bits are zero");
        vp_assert(s.frame(s.pos, s.pos + size), "bytes outside are unchanged");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range && s.room() < size, "refused only when it does not fit");
        vp_assert(s.frame(0, 0) && out.position() == s.pos, "nothing is written then");
    }
}
template <std::size_t N, typename Byte = std::byte, typename... Opt>
void decode(Opt... opt)
{
    constexpr auto size = (N + 7) / 8;
    source<Byte> s;
    auto b = arbitrary<N>(), old = b;
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto r = in(b);
    if (success(r)) {
        vp_cover("read");
        vp_assert(s.n - s.pos >= size && in.position() == s.pos + size, "reads the bytes that hold the bits");
        bool ok = true;
        for (std::size_t i = 0; i < N; ++i) {
            ok = ok & ((s.at(s.pos + i / 8) >> (i % 8) & 1) == b[i]);
        }
        vp_assert(ok, "exactly those bits");
    } else {
        vp_cover("truncated");
        vp_assert(r == out_of_range && s.n - s.pos < size, "refused only when truncated");
        vp_assert(b == old && in.position() == s.pos, "nothing is read then");
    }
}
template <std::size_t N>
void trip()
{
    sink<> s;
    const auto b = arbitrary<N>();
    auto c = arbitrary<N>();
    zpp::bits::out out{s.span};
    zpp::bits::in in{s.span};
    out.reset(s.pos);
    in.reset(s.pos);
    if (success(out(b))) {
        vp_assert(success(in(c)) && in.position() == out.position(), "reads back what was written");
        vp_assert(b == c, "the same bits");
        vp_cover("round trip");
    }
}
#define B(n) PROOF(encode_##n) { encode<n>(); } PROOF(decode_##n) { decode<n>(); } PROOF(trip_##n) { trip<n>(); }
B(1) B(2) B(3) B(4) B(5) B(6) B(7) B(8) B(9) B(10) B(15) B(16) B(17) B(23) B(24) B(31) B(32) B(33) B(63) B(64) B(65) B(100) B(128)
PROOF(encode_big) { encode<21>(endian::big{}); }
PROOF(decode_big) { decode<21>(endian::big{}); }
PROOF(encode_char) { encode<13, char>(); }
PROOF(decode_char) { decode<13, char>(); }
PROOF(encode_uchar) { encode<13, unsigned char>(); }
PROOF(decode_uchar) { decode<13, unsigned char>(); }
// among other objects, and into an output that grows over older bytes
struct around { u16 a; std::bitset<11> b; u8 c; };
PROOF(encode_among)
{
    sink<> s;
    const around v{vp_nondet_u16(), arbitrary<11>(), vp_nondet_u8()};
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = out(v.a, v.b, v.c);
    if (success(r)) {
        vp_cover("written");
        vp_assert(out.position() == s.pos + 5, "two bytes between two and one");
        vp_assert(le(s.p + s.pos, 2) == v.a && le(s.p + s.pos + 2, 2) == v.b.to_ulong() && s.at(s.pos + 4) == v.c, "each in its place");
        vp_assert(s.frame(s.pos, s.pos + 5), "bytes outside are unchanged");
    } else {
        vp_assert(r == out_of_range && s.room() < 5, "refused only when it does not fit");
    }
}
PROOF(decode_among)
{
    source<> s;
    around v{1, arbitrary<11>(), 2};
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = in(v.a, v.b, v.c);
    if (success(r)) {
        vp_cover("read");
        vp_assert(in.position() == s.pos + 5, "two bytes between two and one");
        vp_assert(le(s.p + s.pos, 2) == v.a && (le(s.p + s.pos + 2, 2) & 0x7ff) == v.b.to_ulong() && s.at(s.pos + 4) == v.c, "each from its place");
    } else {
        vp_assert(r == out_of_range && s.n - s.pos < 5, "refused only when truncated");
    }
}
PROOF(encode_growing)
{
    auto n = vp_nondet_size();
    vp_assume(n < 1000);
    auto p = static_cast<std::byte *>(vp_region(n));
    std::vector<std::byte> data(p, p + n);
    auto pos = vp_nondet_size();
    vp_assume(pos <= n);
    const auto b = arbitrary<20>();
    zpp::bits::out out{data};
    out.reset(pos);
    auto r = out(b);
    vp_assert(success(r) && out.position() == pos + 3, "three bytes");
    vp_assert(data.size() >= pos + 3 && le(data.data() + pos, 3) == b.to_ulong(), "the bits and zero");
    auto k = vp_nondet_size();
    vp_assume(k < n);
    vp_assert(k >= pos && k < pos + 3 || data[k] == p[k], "other bytes are kept");
    vp_cover("written");
}
