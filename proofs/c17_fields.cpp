// vp-irv: --unroll 10
// vp-time: 300
// C17: what the occurrences of fields do to a message: any values, any lengths,
// any previous content and the input cut anywhere; the messages have one, two or
// three occurrences (bounded), the sequence of fields is that of each contract.
namespace zpp::bits
{
// kept apart, for its contract
[[gnu::noinline]] constexpr auto decode_varint(auto data, auto & value, auto & position);
}
#include "pb_spec.h"
#include "pocket.h"
using namespace vp;
using namespace zpp::bits::options;
using zpp::bits::no_size;
using zpp::bits::vint32_t;
using zpp::bits::vsint64_t;
using zpp::bits::vuint32_t;

// A variable-length integer of more than one byte: the bytes at `at` spell `n`
// in `size` bytes, or nothing within what is there.  That they spell exactly one
// number, and that decoding gives it, is proved in c17_varint.cpp and C12.
struct spelled
{
    const std::byte * at;
    std::size_t left, size;
    u64 n;
    bool complete;
};
static spelled table[12];
static std::size_t known;
static const spelled & long_number(const std::byte * at, std::size_t left, unsigned width, u64 unit = 1)
{
    auto & s = table[known++];
    const auto units = vp_nondet_u64();
    vp_assume(unit == 1 || units < 1ull << 38);
    s = {at, left, vp_nondet_size(), units * unit, (vp_nondet_u64() & 1) != 0};
    vp_assume(!s.complete || (s.size >= 2 && s.size <= left && s.size <= width / 7 + 1));
    vp_assume(width == 64 || s.n < 1ull << width % 64);
    return s;
}
extern "C" {
#define FOR(contract, regex) __attribute__((used)) extern const char vp_for_##contract[] = "zpp::bits::decode_varint<" regex;
FOR(contract_varint_32, ".*unsigned int, unsigned long>")
FOR(contract_varint_64, ".*unsigned long, unsigned long>")
#define CONTRACT __attribute__((used)) u32
}
template <typename T>
u32 varint_contract(const std::byte * p, std::size_t n, T * value, u64 * position)
{
    vp_assert(*value == 0, "decoding starts from zero");
    if (n == 0) {
        return static_cast<u32>(std::errc::result_out_of_range);
    }
    for (std::size_t i = 0; i < known; ++i) {
        if (table[i].at == p) {
            vp_assert(table[i].left == n, "everything up to the end of the message is looked at");
            *value = static_cast<T>(table[i].n);
            if (table[i].complete) {
                *position += table[i].size;
                return 0;
            }
            return static_cast<u32>(n < zpp::bits::varint_max_size<T> ? std::errc::result_out_of_range : std::errc::value_too_large);
        }
    }
    vp_assert(false, "a number is decoded where there is one");
    return 0;
}
extern "C" {
CONTRACT contract_varint_32(const std::byte * p, std::size_t n, u32 * value, u64 * position) { return varint_contract(p, n, value, position); }
CONTRACT contract_varint_64(const std::byte * p, std::size_t n, u64 * value, u64 * position) { return varint_contract(p, n, value, position); }
}

enum class color : u32 {};
struct leaf
{
    vuint32_t x;
    u32 y = 0;
    using serialize = zpp::bits::pb_members<2>;
};
struct all
{
    vint32_t a;
    zpp::bits::pb_field<u64, 20> b;
    vsint64_t c;
    color e;
    pocket<std::byte> t;
    pocket<u32> r;
    pocket<vuint32_t> v;
    leaf l;
    using serialize = zpp::bits::pb_members<8>;
};
// what is to become of a message
struct expected
{
    u64 a, b, c, e, x, y;
    const std::byte * t = nullptr;
    std::size_t tn = 0;
    const std::byte * r[3] = {};
    std::size_t rn[3] = {}, segments = 0, rtotal = 0;
    u32 v[6] = {};
    std::size_t vn = 0;
};
struct walk
{
    const std::byte * p;
    std::size_t n, off; // the message ends at n
    bool malformed = false;
    std::errc error{};
    void fail(std::errc e = out_of_range_code)
    {
        malformed = true;
        error = e;
    }
    static constexpr auto out_of_range_code = std::errc::result_out_of_range;
    // the tag is there, or the input ends within it
    template <unsigned First, unsigned Second = 0>
    bool tag()
    {
        if (off >= n) {
            fail();
            return false;
        }
        vp_assume(u8(p[off]) == First);
        if (First >= 0x80) {
            auto & s = long_number(p + off, n - off, 32);
            vp_assume(s.complete == (n - off >= 2));
            if (!s.complete) {
                fail();
                return false;
            }
            vp_assume(u8(p[off + 1]) == Second && s.size == 2 && s.n == ((First & 0x7f) | Second << 7));
            ++off;
        }
        ++off;
        return true;
    }
    template <typename V>
    bool number(u64 & out, u64 unit = 1)
    {
        if (off >= n) {
            fail();
            return false;
        }
        if (u8(p[off]) < 0x80) {
            out = bits(value<V>(u8(p[off])));
            if (unit != 1) { // in one byte: few elements
                vp_assume(out <= 12 && out % unit == 0);
                out = vp_pick(out, 12);
            }
            ++off;
            return true;
        }
        auto & s = long_number(p + off, n - off, varint_of<V>::width, unit);
        if (!s.complete) {
            fail(n - off < varint_of<V>::max ? out_of_range_code : std::errc::value_too_large);
            return false;
        }
        off += s.size;
        out = bits(value<V>(s.n));
        return true;
    }
    bool fixed(u64 & out, unsigned k)
    {
        if (n - off < k) {
            fail();
            return false;
        }
        out = word<false>(p + off, k);
        off += k;
        return true;
    }
    bool length(u64 & out, u64 unit = 1)
    {
        if (!number<zpp::bits::varint<u64>>(out, unit)) {
            return false;
        }
        if (out > n - off) {
            fail();
            return false;
        }
        return true;
    }
};
struct A { static bool go(walk & w, expected & m) { return w.tag<0x08>() && w.number<vint32_t>(m.a); } };
struct B { static bool go(walk & w, expected & m) { return w.tag<0xa1, 0x01>() && w.fixed(m.b, 8); } };
struct C { static bool go(walk & w, expected & m) { return w.tag<0x18>() && w.number<vsint64_t>(m.c); } };
struct E { static bool go(walk & w, expected & m) { return w.tag<0x20>() && w.number<vuint32_t>(m.e); } };
struct T
{
    static bool go(walk & w, expected & m)
    {
        u64 k = 0;
        if (!w.tag<0x2a>() || !w.length(k)) {
            return false;
        }
        m.t = w.p + w.off;
        m.tn = k;
        w.off += k;
        return true;
    }
};
struct R
{
    static bool go(walk & w, expected & m)
    {
        u64 k = 0;
        if (!w.tag<0x32>() || !w.length(k, 4)) {
            return false;
        }
        m.r[m.segments] = w.p + w.off;
        m.rn[m.segments++] = k / 4;
        m.rtotal += k / 4;
        w.off += k;
        return true;
    }
};
struct R1
{
    static bool go(walk & w, expected & m)
    {
        u64 k = 0;
        m.r[m.segments] = w.p + w.off + 1;
        if (!w.tag<0x35>() || !w.fixed(k, 4)) {
            return false;
        }
        m.rn[m.segments++] = 1;
        m.rtotal += 1;
        return true;
    }
};
struct V
{
    static bool go(walk & w, expected & m)
    {
        u64 k = 0;
        if (!w.tag<0x3a>() || !w.length(k)) {
            return false;
        }
        const auto end = w.off + k;
        for (int i = 0; i < 2 && w.off < end; ++i) {
            u64 n = 0;
            if (!w.number<vuint32_t>(n)) {
                return false;
            }
            vp_assume(w.off <= end); // an element does not cross the end of the field
            m.v[m.vn++] = n;
        }
        vp_assume(w.off == end);
        return true;
    }
};
struct V1
{
    static bool go(walk & w, expected & m)
    {
        u64 n = 0;
        if (!w.tag<0x38>() || !w.number<vuint32_t>(n)) {
            return false;
        }
        m.v[m.vn++] = n;
        return true;
    }
};
// a member message with at most one field: what it holds ends where it ends
template <bool X>
struct L
{
    static bool go(walk & w, expected & m)
    {
        u64 k = 0;
        if (!w.tag<0x42>() || !w.length(k)) {
            return false;
        }
        walk inner{w.p, w.off + k, w.off};
        if (k != 0) {
            if (X ? !(inner.tag<0x08>() && inner.number<vuint32_t>(m.x)) : !(inner.tag<0x15>() && inner.fixed(m.y, 4))) {
                w.fail(inner.error);
                return false;
            }
            vp_assume(inner.off == inner.n);
        }
        w.off += k;
        return true;
    }
};
struct zero { static bool go(walk & w, expected & m) { u64 k = 0; if (w.number<vuint32_t>(k)) { vp_assume(k < 8); w.fail(std::errc::protocol_error); } return false; } };

template <typename... F>
void fields()
{
    vp_throw_ok(1);
    source<> s;
    all m;
    vp_symbolic(&m.a, sizeof(m.a));
    static_cast<u64 &>(m.b) = vp_nondet_u64();
    vp_symbolic(&m.c, sizeof(m.c));
    vp_symbolic(&m.e, sizeof(m.e));
    vp_symbolic(&m.l, sizeof(m.l));
    expected want{bits(m.a), bits(static_cast<u64 &>(m.b)), bits(m.c), bits(m.e), bits(m.l.x), bits(m.l.y)};
    walk w{s.p, s.n, s.pos};
    (void)((w.off == w.n || F::go(w, want)) && ...);
    vp_assume(w.malformed || w.off == w.n);
    zpp::bits::in in{s.span, no_size{}};
    in.reset(s.pos);
    auto r = in(m);
    if (success(r)) {
        vp_cover("decoded");
        vp_assert(!w.malformed, "malformed messages are refused");
        vp_assert(in.position() == s.n, "all of it");
        vp_assert(bits(m.a) == want.a, "the last value of a varint field");
        vp_assert(bits(static_cast<u64 &>(m.b)) == want.b, "the last value of a fixed field");
        vp_assert(bits(m.c) == want.c, "the last value of a zigzag field");
        vp_assert(bits(m.e) == want.e, "the last value of an enum field");
        vp_assert(bits(m.l.x) == want.x && bits(m.l.y) == want.y, "the last values of the fields of a member");
        const auto j = vp_nondet_size();
        vp_assert(m.t.size() == want.tn, "the length of the last bytes");
        if (j < want.tn) {
            vp_assert(m.t[j] == want.t[j], "the last bytes");
        }
        vp_assert(m.r.size() == want.rtotal, "all occurrences of a repeated field");
        std::size_t at = 0;
        for (std::size_t i = 0; i < sizeof...(F); ++i) {
            if (i < want.segments) {
                if (j < want.rn[i]) {
                    vp_assert(m.r[at + j] == word<false>(want.r[i] + 4 * j, 4), "in order");
                }
                at += want.rn[i];
            }
        }
        vp_assert(m.v.size() == want.vn, "all occurrences of a repeated varint field");
        for (std::size_t i = 0; i < 2 * sizeof...(F); ++i) {
            if (i < want.vn) {
                vp_assert(m.v[i] == want.v[i], "in order");
            }
        }
    } else {
        vp_cover("failed");
        vp_assert(w.malformed, "well-formed messages are decoded");
        vp_assert(r == w.error, "the reason");
        vp_assert(in.position() >= s.pos && in.position() <= s.n, "position stays inside");
    }
}
#define FIELDS(name, ...) PROOF(name) { fields<__VA_ARGS__>(); }
FIELDS(none_or_a, A)
FIELDS(a_b, A, B)
FIELDS(b_a, B, A)
FIELDS(c_e, C, E)
FIELDS(e_a, E, A)
FIELDS(a_a, A, A)
FIELDS(b_b, B, B)
FIELDS(e_e, E, E)
FIELDS(t, T)
FIELDS(r, R)
FIELDS(l, L<true>)
FIELDS(t_t, T, T)
FIELDS(t_b, T, B)
FIELDS(b_r, B, R)
FIELDS(r_r, R, R)
FIELDS(r_r1, R, R1)
FIELDS(r1_r, R1, R)
FIELDS(r1_r1, R1, R1)
FIELDS(v, V)
FIELDS(v1_v, V1, V)
FIELDS(v_v1, V, V1)
FIELDS(l_l, L<true>, L<false>)
FIELDS(l_b, L<false>, B)
FIELDS(l_l_same, L<true>, L<true>)
FIELDS(l_v, L<true>, V)
FIELDS(v_v, V, V)
FIELDS(a_r_b, A, R, B)
FIELDS(b_a_b, B, A, B)
FIELDS(r1_e_r1, R1, E, R1)
FIELDS(v1_c_v1, V1, C, V1)
FIELDS(e_t_c, E, T, C)
FIELDS(field_zero, zero)
FIELDS(b_zero, B, zero)
