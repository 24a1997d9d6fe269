// C01: fixed-size scalars and enumerations have exactly their object
// representation on the wire, in the chosen byte order, and round trip.
#include "fixtures.h"
using namespace vp;

enum class e8 : std::uint8_t { a = 1, b = 200 };
enum class e16 : std::int16_t { a = -3, b = 200 };
enum class e32 : std::uint32_t { a, b };
enum e64 : std::int64_t { x64 = -1, y64 = 1 };

// Encoding: exactly sizeof(T) bytes at the position, in the order asked for,
// nothing else touched; refused exactly when they do not fit.  Decoding what
// was written gives the value back.
template <typename T, bool Big, typename Byte = std::byte, typename... Opt>
void encode(Opt... opt)
{
    sink<Byte> s;
    T v;
    if constexpr (std::is_same_v<T, bool>) {
        v = any<bool>();
    } else {
        v = from_bits<T>(any<std::uint64_t>());
    }
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(v);
    if (success(r)) {
        vp_cover("written");
        vp_assert(s.room() >= sizeof(T), "fits");
        vp_assert(out.position() == s.pos + sizeof(T), "position advances by the size of the value");
        vp_assert(word<Big>(s.p + s.pos, sizeof(T)) == bits(v), "bytes are the value in the chosen order");
        vp_assert(s.frame(s.pos, s.pos + sizeof(T)), "bytes outside the value are unchanged");
        zpp::bits::in in{s.span, Opt(opt)...};
        in.reset(s.pos);
        T w{};
        auto q = in(w);
        vp_assert(success(q), "decoding the encoding succeeds");
        vp_assert(bits(w) == bits(v), "decoding the encoding gives the value");
        vp_assert(in.position() == out.position(), "decoding consumes exactly the encoding");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range, "the only error is out of range");
        vp_assert(s.room() < sizeof(T), "refused only when it does not fit");
        vp_assert(s.frame(0, 0), "nothing written on failure");
        vp_assert(out.position() == s.pos, "position unchanged on failure");
    }
}

// Decoding arbitrary bytes gives exactly the value they spell.
template <typename T, bool Big, typename Byte = std::byte, typename... Opt>
void decode(Opt... opt)
{
    source<Byte> s;
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto old = any<std::uint64_t>();
    T v = from_bits<T>(old);
    auto r = in(v);
    if (success(r)) {
        vp_cover("read");
        vp_assert(s.n - s.pos >= sizeof(T), "enough input");
        vp_assert(in.position() == s.pos + sizeof(T), "position advances by the size of the value");
        vp_assert(bits(v) == word<Big>(s.p + s.pos, sizeof(T)), "value spelled by the bytes");
    } else {
        vp_cover("short");
        vp_assert(r == out_of_range, "the only error is out of range");
        vp_assert(s.n - s.pos < sizeof(T), "refused only when truncated");
        vp_assert(in.position() == s.pos, "position unchanged on failure");
        vp_assert(bits(v) == (sizeof(T) == 8 ? old : old & ((1ull << (8 * (sizeof(T) & 7))) - 1)), "target unchanged on failure");
    }
}

using namespace zpp::bits::endian;
#define BOTH(name, T)                                              \
    PROOF(encode_##name) { encode<T, false>(); }                    \
    PROOF(encode_##name##_little) { encode<T, false>(little{}); }   \
    PROOF(encode_##name##_big) { encode<T, true>(big{}); }          \
    PROOF(decode_##name) { decode<T, false>(); }                    \
    PROOF(decode_##name##_big) { decode<T, true>(big{}); }
BOTH(u8, std::uint8_t)
BOTH(i8, std::int8_t)
BOTH(u16, std::uint16_t)
BOTH(i16, std::int16_t)
BOTH(u32, std::uint32_t)
BOTH(i32, std::int32_t)
BOTH(u64, std::uint64_t)
BOTH(i64, std::int64_t)
BOTH(char, char)
BOTH(char8, char8_t)
BOTH(char16, char16_t)
BOTH(char32, char32_t)
BOTH(wchar, wchar_t)
BOTH(f32, float)
BOTH(f64, double)
BOTH(byte, std::byte)
BOTH(e8, e8)
BOTH(e16, e16)
BOTH(e32, e32)
BOTH(e64, e64)
PROOF(encode_bool) { encode<bool, false>(); }
PROOF(encode_bool_big) { encode<bool, true>(big{}); }
// network order is big, native and little leave the order alone, swapped reverses
PROOF(encode_u32_network) { encode<std::uint32_t, true>(network{}); }
PROOF(encode_u32_native) { encode<std::uint32_t, false>(native{}); }
PROOF(encode_u32_swapped) { encode<std::uint32_t, true>(swapped{}); }
PROOF(decode_u64_network) { decode<std::uint64_t, true>(network{}); }
PROOF(decode_u64_native) { decode<std::uint64_t, false>(native{}); }
PROOF(decode_u64_swapped) { decode<std::uint64_t, true>(swapped{}); }
PROOF(decode_u64_little) { decode<std::uint64_t, false>(little{}); }
// other byte element types
PROOF(encode_u32_uchar) { encode<std::uint32_t, false, unsigned char>(); }
PROOF(encode_u32_char) { encode<std::uint32_t, false, char>(); }
PROOF(encode_u16_char_big) { encode<std::uint16_t, true, char>(big{}); }
PROOF(decode_u32_uchar) { decode<std::uint32_t, false, unsigned char>(); }
PROOF(decode_u32_char_big) { decode<std::uint32_t, true, char>(big{}); }
PROOF(decode_u32_const)
{
    source<> s;
    std::span<const std::byte> c{s.p, s.n};
    zpp::bits::in in{c};
    in.reset(s.pos);
    std::uint32_t v{};
    if (success(in(v))) {
        vp_cover("read");
        vp_assert(v == le(s.p + s.pos, 4), "value");
    }
}
// several values in one call are the values one after another
PROOF(encode_many)
{
    sink<> s;
    auto a = any<std::uint8_t>();
    auto b = any<std::uint32_t>();
    auto c = any<std::uint16_t>();
    auto d = any<std::uint64_t>();
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = out(a, b, c, d);
    if (success(r)) {
        vp_cover("written");
        auto q = s.p + s.pos;
        vp_assert(out.position() == s.pos + 15, "position");
        vp_assert(le(q, 1) == a && le(q + 1, 4) == b && le(q + 5, 2) == c && le(q + 7, 8) == d, "in order, no gaps");
        vp_assert(s.frame(s.pos, s.pos + 15), "frame");
        zpp::bits::in in{s.span};
        in.reset(s.pos);
        std::uint8_t a2{};
        std::uint32_t b2{};
        std::uint16_t c2{};
        std::uint64_t d2{};
        vp_assert(success(in(a2, b2)), "first");
        vp_assert(success(in(c2, d2)), "second");
        vp_assert(a == a2 && b == b2 && c == c2 && d == d2, "values come back");
    } else {
        vp_cover("refused");
        vp_assert(s.room() < 15, "refused only when it does not fit");
        vp_assert(s.frame(s.pos, s.n), "nothing written before the position");
    }
}
