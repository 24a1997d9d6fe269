// C16: every kind of field of a protobuf message.
#include "pb_message.h"

template <typename T>
struct one
{
    T v{};
    using serialize = zpp::bits::pb_members<1>;
    bool operator==(const one &) const = default;
};
template <typename T, typename... Opt>
void varint_field(Opt... opt)
{
    one<T> m;
    const auto v = from_bits<typename varint_of<T>::type>(any<u64>());
    m.v = v;
    message(m, [&](auto & w) { w.tag(1, pb_varint), w.varint(number<T>(v)); }, opt...);
}
PROOF(vint32) { varint_field<zpp::bits::vint32_t>(); }
PROOF(vint64) { varint_field<zpp::bits::vint64_t>(); }
PROOF(vuint32) { varint_field<zpp::bits::vuint32_t>(); }
PROOF(vuint64) { varint_field<zpp::bits::vuint64_t>(); }
PROOF(vsint32) { varint_field<zpp::bits::vsint32_t>(); }
PROOF(vsint64) { varint_field<zpp::bits::vsint64_t>(); }
PROOF(vuint64_big) { varint_field<zpp::bits::vuint64_t>(zpp::bits::endian::big{}); }

template <typename T, typename... Opt>
void fixed_field(Opt... opt)
{
    one<T> m;
    m.v = from_bits<T>(any<u64>());
    message(m, [&](auto & w) { w.tag(1, sizeof(T) == 4 ? pb_fixed32 : pb_fixed64), w.fixed(bits(m.v), sizeof(T)); }, opt...);
}
PROOF(fixed32) { fixed_field<u32>(); }
PROOF(fixed64) { fixed_field<u64>(); }
PROOF(sfixed32) { fixed_field<std::int32_t>(); }
PROOF(sfixed64) { fixed_field<std::int64_t>(); }
PROOF(fixed32_big) { fixed_field<u32>(zpp::bits::endian::big{}); }
PROOF(fixed64_big) { fixed_field<u64>(zpp::bits::endian::big{}); }
PROOF(boolean)
{
    one<bool> m{any<bool>()};
    message(m, [&](auto & w) { w.tag(1, pb_varint), w.varint(m.v); });
}
// floating point numbers are their bits
template <typename T>
void real_field()
{
    sink<> s;
    one<T> m;
    const auto v = any<u64>();
    m.v = from_bits<T>(v);
    zpp::bits::out out{s.span, no_size{}};
    out.reset(s.pos);
    auto r = out(m);
    vp_assert(success(r) == (s.room() >= 1 + sizeof(T)), "written when it fits");
    if (success(r)) {
        vp_cover("written");
        pb_parts<> w{s.p + s.pos};
        w.tag(1, sizeof(T) == 4 ? pb_fixed32 : pb_fixed64), w.fixed(bits(m.v), sizeof(T));
        vp_assert(w.ok && out.position() == s.pos + w.off, "the tag and the bits");
        vp_assert(s.frame(s.pos, s.pos + w.off), "bytes outside are unchanged");
        std::span<std::byte> part{s.p, s.pos + w.off};
        zpp::bits::in in{part, no_size{}};
        in.reset(s.pos);
        one<T> got{};
        vp_assert(success(in(got)) && bits(got.v) == bits(m.v), "the same bits again");
    }
}
PROOF(float_bits) { real_field<float>(); }
PROOF(double_bits) { real_field<double>(); }

enum class e8 : u8 {};
enum class e16 : std::int16_t {};
enum class e32 : std::int32_t {};
enum eu32 : u32 {};
enum class e64 : u64 {};
template <typename T>
void enum_field()
{
    one<T> m;
    m.v = from_bits<T>(any<u64>());
    message(m, [&](auto & w) { w.tag(1, pb_varint), w.varint(bits(m.v)); });
}
PROOF(enum8) { enum_field<e8>(); }
PROOF(enum16) { enum_field<e16>(); }
PROOF(enum32) { enum_field<e32>(); }
PROOF(enumu32) { enum_field<eu32>(); }
PROOF(enum64) { enum_field<e64>(); }

// Field numbers: implicit, explicit, reserved, mapped
struct numbered
{
    zpp::bits::pb_reserved _1;
    u32 second = 0;
    zpp::bits::pb_field<u32, 15> a;
    zpp::bits::pb_field<u32, 16> b;
    zpp::bits::pb_field<u64, 2047> c;
    zpp::bits::pb_field<u32, 2048> d;
    zpp::bits::pb_field<u32, 536870911> e;
    using serialize = zpp::bits::pb_protocol;
};
PROOF(numbers)
{
    sink<> s;
    numbered m;
    m.second = any<u32>(), m.a = any<u32>(), m.b = any<u32>(), m.c = any<u64>(), m.d = any<u32>(), m.e = any<u32>();
    auto fields = [&](auto & w) {
        w.tag(2, pb_fixed32), w.fixed(m.second, 4);
        w.tag(15, pb_fixed32), w.fixed(m.a, 4);
        w.tag(16, pb_fixed32), w.fixed(m.b, 4);
        w.tag(2047, pb_fixed64), w.fixed(m.c, 8);
        w.tag(2048, pb_fixed32), w.fixed(m.d, 4);
        w.tag(536870911, pb_fixed32), w.fixed(m.e, 4);
    };
    pb_parts<> want;
    fields(want);
    zpp::bits::out out{s.span, no_size{}};
    out.reset(s.pos);
    auto r = out(m);
    vp_assert(success(r) == (s.room() >= want.off), "written when it fits");
    if (success(r)) {
        vp_cover("written");
        pb_parts<> wrote{s.p + s.pos};
        fields(wrote);
        vp_assert(wrote.ok && out.position() == s.pos + want.off, "each field under its number");
        std::span<std::byte> part{s.p, s.pos + want.off};
        zpp::bits::in in{part, no_size{}};
        in.reset(s.pos);
        numbered got;
        vp_assert(success(in(got)), "it decodes");
        vp_assert(got.second == m.second && got.a == m.a && got.b == m.b && got.c == m.c && got.d == m.d && got.e == m.e, "to an equal message");
    }
}
struct mapped
{
    u32 a = 0;
    u64 b = 0;
    u32 c = 0;
    bool operator==(const mapped &) const = default;
    using serialize = zpp::bits::protocol<zpp::bits::pb{zpp::bits::pb_map<1, 20>{}, zpp::bits::pb_map<2, 1>{}}>;
};
PROOF(mapped_numbers)
{
    mapped m{any<u32>(), any<u64>(), any<u32>()};
    message(m, [&](auto & w) {
        w.tag(20, pb_fixed32), w.fixed(m.a, 4);
        w.tag(1, pb_fixed64), w.fixed(m.b, 8);
        w.tag(3, pb_fixed32), w.fixed(m.c, 4);
    });
}
PROOF(two_fields)
{
    struct two
    {
        zpp::bits::vuint32_t a;
        u64 b = 0;
        zpp::bits::vsint32_t c;
        bool operator==(const two &) const = default;
        using serialize = zpp::bits::pb_members<3>;
    };
    two m;
    const auto a = any<u32>(), c = any<u32>();
    m.a = a, m.b = any<u64>(), m.c = int(c);
    message(m, [&](auto & w) {
        w.tag(1, pb_varint), w.varint(a);
        w.tag(2, pb_fixed64), w.fixed(m.b, 8);
        w.tag(3, pb_varint), w.varint(number<zpp::bits::vsint32_t>(int(c)));
    });
}
PROOF(nothing)
{
    struct none
    {
        bool operator==(const none &) const = default;
        using serialize = zpp::bits::pb_members<0>;
    };
    none m;
    message(m, [&](auto &) {});
}
