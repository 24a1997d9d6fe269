// C06: a growing output keeps what is there and is fitted to the data.
#include "growing.h"
#include <bitset>
using namespace vp;
using namespace zpp::bits::options;

struct plain { u16 a; u8 b; u32 c; auto each(auto f) { f(a), f(b), f(c); } auto each(auto f) const { f(a), f(b), f(c); } };
struct mixed { u8 a; std::string s; u32 b; auto each(auto f) { f(a), f(s), f(b); } auto each(auto f) const { f(a), f(s), f(b); } };
enum class fit { exact, kept, none }; // fitted; grown size kept; grown exactly and never fitted
template <typename T, fit Fit = fit::exact, bool Big = false, typename S = size4, typename Byte = std::byte, typename... Opt>
void write(Opt... opt)
{
    growing<Byte> g;
    const T v = make<T>(0xffffffff);
    measure<S> m;
    m(v);
    zpp::bits::out out{g.data, Opt(opt)...};
    vp_assert(out.position() == 0 && g.data.used == g.n && g.data.resized == 0, "creating an archive changes nothing");
    out.reset(g.pos);
    auto r = out(v);
    auto end = g.pos + m.off;
    vp_assert(success(r), "never fails for lack of room");
    vp_assert(out.position() == end, "ends after the encoding");
    spell<Big, S> w{g.data.p + g.pos};
    w(v);
    vp_assert(w.ok, "the same bytes as in a fixed buffer");
    vp_assert(g.kept(g.pos, end), "bytes written before are kept");
    if constexpr (Fit == fit::exact) {
        vp_assert(g.data.used == (end > g.n ? end : g.n), "the container ends at the position when it had to grow");
    } else if constexpr (Fit == fit::kept) {
        vp_assert(g.data.used >= end && g.data.used >= g.n, "everything is inside the container");
    } else {
        vp_assert(g.data.used >= end && g.data.used >= g.n, "everything is inside the container");
        vp_assert(g.pos != g.n || g.data.used == end, "no byte more than asked for at the end");
    }
    if (end > g.n) {
        vp_cover("grown");
    } else {
        vp_cover("in place");
    }
}
using text = std::string;
using words = std::vector<u16>;
using view = std::string_view;
using triple = std::tuple<u8, u32, u16>;
using maybe_words = std::optional<words>;
using choice_t = std::variant<u8, text>;
using owned = std::unique_ptr<u64>;
using four = std::array<u32, 4>;
#define W1(name, T) PROOF(name) { write<T>(); }
#define W(name, T) \
    W1(name, T) \
    PROOF(name##_no_fit) { write<T, fit::kept>(no_fit_size{}); } \
    PROOF(name##_exact) { write<T, fit::none>(exact_enlarger{}); } \
    PROOF(name##_double) { write<T>(enlarger<2>{}); } \
    PROOF(name##_five_thirds) { write<T>(enlarger<5, 3>{}); }
W(u8, u8)
W(u64, u64)
W(plain, plain)
W(view, view)
W(words, words)
W1(mixed, mixed)
W1(triple, triple)
W1(four, four)
W1(string, text)
W1(optional, maybe_words)
W1(variant, choice_t)
W1(owned, owned)
#define BIG(name, T) PROOF(name##_big) { write<T, fit::exact, true>(endian::big{}); }
BIG(u64, u64)
BIG(plain, plain)
BIG(mixed, mixed)
BIG(words, words)
PROOF(words_size8) { write<words, fit::exact, false, u64>(size8b{}); }
PROOF(words_no_size) { write<words, fit::exact, false, void>(no_size{}); }
PROOF(char_output) { write<mixed, fit::exact, false, size4, char>(); }
PROOF(uchar_output) { write<mixed, fit::exact, false, size4, unsigned char>(); }
PROOF(no_overflow_check) { write<mixed>(no_enlarge_overflow{}); }
PROOF(overflow_check) { write<mixed>(enlarge_overflow{}); }
// a call with several objects fits once, at its end
PROOF(several)
{
    growing<> g;
    u32 a = vp_nondet_u32(), b = vp_nondet_u32();
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 32));
    const std::string_view s{static_cast<char *>(vp_region(n)), n};
    zpp::bits::out out{g.data};
    out.reset(g.pos);
    auto r = out(a, s, b);
    auto end = g.pos + 12 + n;
    vp_assert(success(r) && out.position() == end, "never fails for lack of room");
    vp_assert(le(g.data.p + g.pos, 4) == a && le(g.data.p + g.pos + 4, 4) == n && le(g.data.p + g.pos + 8 + n, 4) == b, "one after another");
    auto j = vp_nondet_size();
    vp_assume(j < n);
    vp_assert(g.data.at(g.pos + 8 + j) == u8(s[j]), "the text between them");
    vp_assert(g.kept(g.pos, end) && g.data.used == (end > g.n ? end : g.n), "fitted, and what was there is kept");
    vp_cover("written");
}
// one call after another: what the first wrote stays
PROOF(history)
{
    growing<> g;
    u32 a = vp_nondet_u32(), b = vp_nondet_u32();
    u16 c = vp_nondet_u16();
    zpp::bits::out out{g.data};
    out.reset(g.pos);
    vp_assert(success(out(a)) && success(out(b)), "never fails for lack of room");
    auto back = vp_nondet_size();
    vp_assume(back <= g.data.used);
    out.reset(back);
    auto used = g.data.used;
    vp_assert(success(out(c)), "not after going back either");
    auto end = back + 2;
    vp_assert(out.position() == end && g.data.used == (end > used ? end : used), "fitted to all that was written");
    vp_assert(le(g.data.p + back, 2) == c, "the last value in its place");
    vp_assert(end > g.pos && back < g.pos + 4 || le(g.data.p + g.pos, 4) == a, "the first is kept unless overwritten");
    vp_assert(end > g.pos + 4 && back < g.pos + 8 || le(g.data.p + g.pos + 4, 4) == b, "so is the second");
    vp_cover("written");
}
// a failing object: nothing already in the container is lost
struct failing
{
    static zpp::bits::errc serialize(auto &, auto &) { return std::errc::protocol_error; }
};
PROOF(failure)
{
    growing<> g;
    u32 a = vp_nondet_u32();
    failing f;
    zpp::bits::out out{g.data};
    out.reset(g.pos);
    auto r = out(a, f);
    auto end = g.pos + 4;
    vp_assert(r == std::errc::protocol_error && out.position() == end, "the error");
    vp_assert(g.kept(g.pos, end) && g.data.used == (end > g.n ? end : g.n), "fitted, and what was there is kept");
    vp_cover("failed");
}
// variable-length integers
template <typename T, fit Fit = fit::exact, typename... Opt>
void write_varint(Opt... opt)
{
    growing<> g;
    T v{std::conditional_t<sizeof(typename T::value_type) == 8, u64, u32>(vp_nondet_u64())};
    auto size = zpp::bits::varint_size(v.value);
    zpp::bits::out out{g.data, Opt(opt)...};
    out.reset(g.pos);
    auto r = out(v);
    auto end = g.pos + size;
    vp_assert(success(r) && out.position() == end, "never fails for lack of room");
    vp_assert(g.kept(g.pos, end), "bytes written before are kept");
    if constexpr (Fit == fit::exact) {
        vp_assert(g.data.used == (end > g.n ? end : g.n), "the container ends at the position when it had to grow");
    } else {
        vp_assert(g.data.used >= end && g.data.used >= g.n, "everything is inside the container");
    }
    if (end > g.n) {
        vp_cover("grown");
    } else {
        vp_cover("in place");
    }
}
PROOF(varint_u32) { write_varint<zpp::bits::vuint32_t>(); }
PROOF(varint_u64) { write_varint<zpp::bits::vuint64_t>(); }
PROOF(varint_u64_no_fit) { write_varint<zpp::bits::vuint64_t, fit::kept>(no_fit_size{}); }
PROOF(varint_u64_exact) { write_varint<zpp::bits::vuint64_t, fit::kept>(exact_enlarger{}); }
PROOF(varint_u64_double) { write_varint<zpp::bits::vuint64_t>(enlarger<2>{}); }
// bit sets
PROOF(bitset)
{
    growing<> g;
    const std::bitset<20> b(vp_nondet_u64());
    zpp::bits::out out{g.data};
    out.reset(g.pos);
    auto r = out(b);
    auto end = g.pos + 3;
    vp_assert(success(r) && out.position() == end && le(g.data.p + g.pos, 3) == b.to_ulong(), "the bits");
    vp_assert(g.kept(g.pos, end) && g.data.used == (end > g.n ? end : g.n), "fitted, and what was there is kept");
    vp_cover("written");
}
// the standard containers
template <typename C, typename... Opt>
void standard(Opt... opt)
{
    vp_throw_ok(1);
    auto n = vp_nondet_size();
    auto p = static_cast<typename C::value_type *>(vp_region(n));
    C data(p, p + n);
    auto pos = vp_nondet_size(), k = vp_nondet_size();
    vp_assume(pos <= n && k < n);
    const plain v = make<plain>(0);
    measure<> m;
    m(v);
    zpp::bits::out out{data, Opt(opt)...};
    out.reset(pos);
    auto r = out(v);
    auto end = pos + m.off;
    vp_assert(success(r) && out.position() == end, "never fails for lack of room");
    vp_assert(data.size() == (end > n ? end : n), "fitted");
    spell<> w{data.data() + pos};
    w(v);
    vp_assert(w.ok, "the same bytes as in a fixed buffer");
    if (vp_pick(k < pos, 1)) {
        vp_assert(data[k] == p[k], "bytes before are kept");
    } else if (vp_pick(k >= end, 1)) {
        vp_assert(data[k] == p[k], "bytes after are kept");
    }
    vp_cover("written");
}
PROOF(std_vector) { standard<std::vector<std::byte>>(); }
PROOF(std_vector_char) { standard<std::vector<char>>(); }
PROOF(std_string) { standard<std::string>(); }
