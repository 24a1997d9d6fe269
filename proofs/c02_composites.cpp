// C02: composites are their parts one after another.
#include "fixtures.h"
#include <array>
#include <complex>
#include <tuple>
#include <utility>
using namespace vp;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
#define EACH(...) template <typename F> void each(F vp_f) const { [&](const auto &... vp_m) { (vp_f(vp_m), ...); }(__VA_ARGS__); }

struct plain { u32 a; u32 b; EACH(a, b) };                       // no padding: copied as bytes
struct mixed { u8 a; u32 b; u16 c; EACH(a, b, c) };              // padding in memory
struct tail { u32 a; u8 b; EACH(a, b) };                         // trailing padding
struct counted { u8 a; u64 b; EACH(a, b) using serialize = zpp::bits::members<2>; };
struct all_counted { u16 a; u16 b; u32 c; EACH(a, b, c) using serialize = zpp::bits::members<3>; };
struct partly { u16 a; u16 b; u32 c; EACH(a, b, c) };
struct fn { u8 a; u32 b; EACH(a, b) constexpr static auto serialize(auto & ar, auto & self) { return ar(self.a, self.b); } };
struct fn_order { u32 a; u32 b; EACH(b, a) constexpr static auto serialize(auto & ar, auto & self) { return ar(self.b, self.a); } };
struct fn_some { u32 a; u32 b; u32 c; EACH(c, a) constexpr static auto serialize(auto & ar, auto & self) { return ar(self.c, self.a); } };
struct outer_fn { u8 a; u32 b; EACH(b, a) };
constexpr auto serialize(auto & ar, outer_fn & s) { return ar(s.b, s.a); }
constexpr auto serialize(auto & ar, const outer_fn & s) { return ar(s.b, s.a); }
struct adl_counted { u8 a; u16 b; EACH(a, b) };
auto serialize(const adl_counted &) -> zpp::bits::members<2>;
class hidden
{
    friend zpp::bits::access;
    using serialize = zpp::bits::members<3>;
    u8 a;
    u32 b;
    u8 c;
public:
    EACH(a, b, c)
};
class hidden_fn
{
    u16 a;
    u32 b;
public:
    constexpr static auto serialize(auto & ar, auto & self) { return ar(self.b, self.a); }
    EACH(b, a)
};
struct nested { u8 a; mixed m; plain p; u8 z; EACH(a, m, p, z) };
struct nested_bytes { plain a; plain b; u64 c; EACH(a, b, c) };
struct nested_fn { u32 a; fn_order f; u32 b; EACH(a, f, b) };    // no padding, but a part has its own function
struct deep { nested n; u16 x; nested_fn f; EACH(n, x, f) };
struct arrays { u8 a[3]; u32 b[2]; std::array<u16, 3> c; EACH(a, b, c) using serialize = zpp::bits::members<3>; };
struct arrays_plain { u16 a[2]; std::array<u32, 2> b; EACH(a, b) using serialize = zpp::bits::members<2>; };
struct matrix { std::array<std::array<u16, 3>, 2> m; u8 z; EACH(m, z) using serialize = zpp::bits::members<2>; };
struct of_struct { mixed a[2]; std::array<fn, 2> b; EACH(a, b) using serialize = zpp::bits::members<2>; };
struct tuples { u8 a; std::tuple<u32, u8, u16> t; std::pair<u8, u32> p; EACH(a, t, p) using serialize = zpp::bits::members<3>; };
enum class color : u16 { red, green };
struct kinds { color c; float f; double d; char x; std::byte b; EACH(c, f, d, x, b) };
struct none { EACH() };
struct with_empty { u32 a; none n; u32 b; EACH(a, n, b) };
struct signed_mix { std::int8_t a; std::int64_t b; std::int16_t c; EACH(a, b, c) };

#define T_(name, T, size)                                                                       \
    PROOF(encode_##name) { encode_fixed<T, size>(); }                                            \
    PROOF(decode_##name) { decode_fixed<T, size>(); }                                            \
    PROOF(encode_##name##_big) { encode_fixed<T, size, true>(zpp::bits::endian::big{}); }        \
    PROOF(decode_##name##_big) { decode_fixed<T, size, true>(zpp::bits::endian::big{}); }
T_(plain, plain, 8)
T_(mixed, mixed, 7)
T_(tail, tail, 5)
T_(counted, counted, 9)
T_(all_counted, all_counted, 8)
T_(partly, partly, 8)
T_(fn, fn, 5)
T_(fn_order, fn_order, 8)
T_(outer_fn, outer_fn, 5)
T_(adl_counted, adl_counted, 3)
T_(hidden, hidden, 6)
T_(hidden_fn, hidden_fn, 6)
T_(nested, nested, 17)
T_(nested_bytes, nested_bytes, 24)
T_(nested_fn, nested_fn, 16)
T_(deep, deep, 35)
T_(arrays, arrays, 17)
T_(arrays_plain, arrays_plain, 12)
T_(matrix, matrix, 13)
T_(of_struct, of_struct, 24)
T_(tuples, tuples, 13)
T_(kinds, kinds, 16)
T_(with_empty, with_empty, 8)
T_(signed_mix, signed_mix, 11)
T_(array, u32[3], 12)
T_(array_u8, u8[5], 5)
using sa_2d = std::array<std::array<u16, 2>, 2>;
T_(array_2d, sa_2d, 8)
using sa3 = std::array<u32, 3>;
using sa_mixed = std::array<mixed, 2>;
using sa_plain = std::array<plain, 2>;
using tup = std::tuple<u8, u32, u16>;
using tup_nested = std::tuple<u8, mixed, std::pair<u32, plain>>;
using pr = std::pair<u8, u32>;
T_(std_array, sa3, 12)
T_(std_array_mixed, sa_mixed, 14)
T_(std_array_plain, sa_plain, 16)
T_(tuple, tup, 7)
T_(tuple_nested, tup_nested, 20)
T_(pair, pr, 5)
PROOF(encode_some) { encode_fixed<fn_some, 8>(); }
// the members a serialization function does not mention are not touched
PROOF(decode_some)
{
    source<> s;
    fn_some v = any<fn_some>();
    auto b = v.b;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    if (success(in(v))) {
        vp_cover("read");
        wire<> w{s.p + s.pos};
        w(v);
        vp_assert(w.ok && in.position() == s.pos + 8, "mentioned members");
    }
    vp_assert(v.b == b, "other members keep their values");
}
// an empty class takes no bytes
PROOF(empty)
{
    sink<> s;
    none e;
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    vp_assert(success(out(e, e)), "always fits");
    vp_assert(out.position() == s.pos && s.frame(0, 0), "no bytes");
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    vp_assert(success(in(e)), "always there");
    vp_assert(in.position() == s.pos, "no bytes");
}
// the same bytes whether a composite or its parts are given
PROOF(parts)
{
    sink<> s;
    auto v = any<nested>();
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = out(v.a, v.m.a, v.m.b, v.m.c, v.p, v.z);
    if (success(r)) {
        vp_cover("written");
        zpp::bits::in in{s.span};
        in.reset(s.pos);
        nested w{};
        vp_assert(success(in(w)), "reads back as one value");
        wire<> x{s.p + s.pos};
        x(w);
        vp_assert(x.ok && in.position() == out.position(), "same bytes");
        vp_assert(w.a == v.a && w.m.a == v.m.a && w.m.b == v.m.b && w.m.c == v.m.c && w.p.a == v.p.a && w.p.b == v.p.b && w.z == v.z, "same value");
    }
}
