// vp-irv: --unroll 200 --merge
// C05: fixed buffers and the packed encodings, variable-length integers and bit sets.
#include "varint.h"
#include <bitset>
using namespace vp;

template <typename V, typename Byte = std::byte, typename... Opt>
void packed_varint(Opt... opt)
{
    sink<Byte> s;
    const V v{any<typename V::value_type>()};
    const auto size = groups(number<V>(v.value));
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(v);
    if (success(r)) {
        vp_cover("written");
        vp_assert(size <= s.room(), "accepted only when it fits");
        vp_assert(out.position() == s.pos + size, "ends after the encoding");
        vp_assert(s.frame(s.pos, s.pos + size), "every byte outside the encoding stays");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range, "out of range");
        vp_assert(size > s.room(), "refused only when it does not fit");
        vp_assert(s.frame(s.pos, s.n), "bytes before the position stay");
        vp_assert(out.position() <= s.n, "position stays inside");
    }
}
#define V(name, T) PROOF(name) { packed_varint<zpp::bits::T>(); }
V(vuint32, vuint32_t)
V(vuint64, vuint64_t)
V(vint32, vint32_t)
V(vint64, vint64_t)
V(vsint32, vsint32_t)
V(vsint64, vsint64_t)
V(vu16, varint<u16>)
PROOF(vuint32_char) { packed_varint<zpp::bits::vuint32_t, char>(); }
PROOF(vuint64_big) { packed_varint<zpp::bits::vuint64_t, std::byte>(zpp::bits::endian::big{}); }

template <std::size_t N, typename Byte = std::byte>
void packed_bits()
{
    constexpr auto size = (N + 7) / 8;
    sink<Byte> s;
    const std::bitset<N> b(vp_nondet_u64());
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = out(b);
    if (success(r)) {
        vp_cover("written");
        vp_assert(size <= s.room(), "accepted only when it fits");
        vp_assert(out.position() == s.pos + size, "ends after the encoding");
        vp_assert(s.frame(s.pos, s.pos + size), "every byte outside the encoding stays");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range, "out of range");
        vp_assert(size > s.room(), "refused only when it does not fit");
        vp_assert(s.frame(s.pos, s.n), "bytes before the position stay");
        vp_assert(out.position() <= s.n, "position stays inside");
    }
}
PROOF(bits_1) { packed_bits<1>(); }
PROOF(bits_7) { packed_bits<7>(); }
PROOF(bits_8) { packed_bits<8>(); }
PROOF(bits_9) { packed_bits<9>(); }
PROOF(bits_20) { packed_bits<20>(); }
PROOF(bits_20_char) { packed_bits<20, char>(); }
PROOF(bits_31) { packed_bits<31>(); }
PROOF(bits_64) { packed_bits<64>(); }

// a whole record of them
struct record { u8 a; zpp::bits::vuint32_t b; std::bitset<12> c; u16 d; };
PROOF(together)
{
    sink<> s;
    const record v{vp_nondet_u8(), vp_nondet_u32(), vp_nondet_u64(), vp_nondet_u16()};
    const auto size = 5 + groups(v.b.value);
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = out(v);
    if (success(r)) {
        vp_cover("written");
        vp_assert(size <= s.room(), "accepted only when it fits");
        vp_assert(out.position() == s.pos + size, "ends after the encoding");
        vp_assert(s.frame(s.pos, s.pos + size), "every byte outside the encoding stays");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range, "out of range");
        vp_assert(size > s.room(), "refused only when it does not fit");
        vp_assert(s.frame(s.pos, s.n), "bytes before the position stay");
        vp_assert(out.position() <= s.n, "position stays inside");
    }
}
