// C07: the output allocation limit, and sizes that overflow.
#include "growing.h"
#include <bitset>
using namespace vp;
using namespace zpp::bits::options;

// A container of any 64 bit size: enlarge_for looks at the size only.
struct ledger
{
    using value_type = std::byte;
    u64 used = vp_nondet_u64();
    u64 resized = 0;
    std::byte none{};
    std::byte * data() { return &none; }
    const std::byte * data() const { return &none; }
    std::size_t size() const { return used; }
    std::byte & operator[](std::size_t) { return none; }
    std::byte * begin() { return &none; }
    std::byte * end() { return &none; }
    const std::byte * begin() const { return &none; }
    const std::byte * end() const { return &none; }
    void resize(std::size_t n)
    {
        ++resized;
        used = n;
    }
};
// m / d is the growth factor, at least one
template <u64 M, u64 D, u64 Limit, bool Checked = true, typename N = u64, typename... Opt>
void request(Opt... opt)
{
    ledger c;
    const auto n = c.used;
    const u64 pos = vp_nondet_u64();
    const N add = N(vp_nondet_u64());
    vp_assume(pos <= n);
    const u64 sum = n + add;
    const bool wraps = sum < n || sum > ~0ull / M;
    if (!Checked) {
        vp_assume(!wraps);
    }
    zpp::bits::out out{c, Opt(opt)...};
    out.reset(pos);
    auto r = out.enlarge_for(add);
    vp_assert(out.position() == pos, "the position stays");
    if (success(r)) {
        vp_assert(c.used >= pos && c.used - pos >= add, "success means there is room");
        vp_assert(c.used >= n, "never made smaller");
        vp_assert(c.used <= n || c.used <= Limit, "never grown beyond the limit");
        vp_assert(c.resized <= 1 && (c.resized == 0 || add > n - pos), "grown only when needed, once");
        vp_assert(add <= n - pos || !wraps, "an overflowing size is never a success");
        if (c.used > n) {
            vp_cover("grown");
        } else {
            vp_cover("room already");
        }
    } else {
        vp_cover("refused");
        vp_assert(r == std::errc::no_buffer_space, "the only error is no buffer space");
        vp_assert(c.resized == 0 && c.used == n, "refused without touching the container");
        vp_assert(add > n - pos, "never refused when there is room");
        vp_assert(wraps || sum * M / D > Limit, "refused only for the limit or an overflow");
    }
}
inline constexpr u64 none = ~0ull;
#define R(name, m, d, limit, ...) PROOF(name) { request<m, d, limit>(__VA_ARGS__); }
R(default_none, 3, 2, none)
R(default_1, 3, 2, 1, alloc_limit<1>{})
R(default_1000, 3, 2, 1000, alloc_limit<1000>{})
R(default_4g, 3, 2, (1ull << 32), alloc_limit<(1ull << 32)>{})
R(default_huge, 3, 2, (none - 1), alloc_limit<none - 1>{})
R(double_none, 2, 1, none, enlarger<2>{})
R(double_limit, 2, 1, 12345678, enlarger<2>{}, alloc_limit<12345678>{})
R(limit_double, 2, 1, 12345678, alloc_limit<12345678>{}, enlarger<2>{})
R(exact_none, 1, 1, none, exact_enlarger{})
R(exact_limit, 1, 1, 4096, exact_enlarger{}, alloc_limit<4096>{})
R(fit_limit, 3, 2, 4096, no_fit_size{}, alloc_limit<4096>{})
R(five_thirds, 5, 3, 4096, enlarger<5, 3>{}, alloc_limit<4096>{})
R(eightfold, 8, 1, (1ull << 40), enlarger<8>{}, alloc_limit<(1ull << 40)>{})
R(explicit_check, 3, 2, 100, enlarge_overflow{}, alloc_limit<100>{})
R(big_endian, 3, 2, 100, zpp::bits::endian::big{}, alloc_limit<100>{})
PROOF(unchecked) { request<3, 2, none, false>(no_enlarge_overflow{}); }
PROOF(unchecked_limit) { request<3, 2, 100, false>(no_enlarge_overflow{}, alloc_limit<100>{}); }
PROOF(narrow_request) { request<3, 2, 1000, true, u32>(alloc_limit<1000>{}); }
PROOF(byte_request) { request<3, 2, 1000, true, u8>(alloc_limit<1000>{}); }
PROOF(zero_limit)
{
    request<3, 2, 0>(alloc_limit<0>{});
}

// Whole calls: whatever is serialized, the limit holds.
struct plain { u16 a; u8 b; u32 c; auto each(auto f) { f(a), f(b), f(c); } auto each(auto f) const { f(a), f(b), f(c); } };
struct mixed { u8 a; std::string s; u32 b; auto each(auto f) { f(a), f(s), f(b); } auto each(auto f) const { f(a), f(s), f(b); } };
template <u64 Limit, typename Archive, typename Length>
void limited(growing<> & g, Archive & out, auto const & v, Length length)
{
    auto r = out(v);
    vp_assert(!g.data.exceeded, "never grown beyond the limit");
    vp_assert(g.data.used >= g.n, "nothing that was there is lost");
    if (success(r)) {
        vp_cover("written");
        vp_assert(out.position() == g.pos + length, "written completely");
        vp_assert(out.position() <= g.data.used, "inside the container");
        vp_assert(g.data.used <= g.data.cap, "within the limit");
    } else {
        vp_cover("refused");
        vp_assert(r == std::errc::no_buffer_space, "the only error is no buffer space");
        vp_assert(length > g.n - g.pos, "never refused when there is room");
    }
}
template <typename T, u64 Limit, typename S = size4, typename... Opt>
void whole(Opt... opt)
{
    growing<> g;
    g.limit(Limit);
    const T v = make<T>(0xffffffff);
    measure<S> m;
    m(v);
    zpp::bits::out out{g.data, alloc_limit<Limit>{}, Opt(opt)...};
    out.reset(g.pos);
    limited<Limit>(g, out, v, m.off);
    vp_assert(g.kept(g.pos, g.pos + m.off), "bytes written before are kept");
}
using text = std::string;
using words = std::vector<u16>;
using view = std::string_view;
using triple = std::tuple<u8, u32, u16>;
using maybe_words = std::optional<words>;
using choice_t = std::variant<u8, text>;
using owned = std::unique_ptr<u64>;
using four = std::array<u32, 4>;
#define W(name, T) \
    PROOF(whole_##name) { whole<T, 1000>(); }
W(u8, u8)
W(u64, u64)
W(plain, plain)
W(mixed, mixed)
W(triple, triple)
W(four, four)
W(string, text)
W(words, words)
W(view, view)
W(optional, maybe_words)
W(variant, choice_t)
W(owned, owned)
PROOF(whole_view_no_fit) { whole<view, 1000>(no_fit_size{}); }
PROOF(whole_view_double) { whole<view, 1000>(enlarger<2>{}); }
PROOF(whole_plain_huge) { whole<plain, (1ull << 39)>(); }
PROOF(whole_four_big) { whole<four, 1000>(zpp::bits::endian::big{}); }
PROOF(whole_words_size8) { whole<words, 1000, u64>(size8b{}); }
PROOF(whole_varint)
{
    growing<> g;
    g.limit(1000);
    const zpp::bits::vuint32_t v{vp_nondet_u32()};
    zpp::bits::out out{g.data, alloc_limit<1000>{}};
    out.reset(g.pos);
    auto r = out(v);
    vp_assert(!g.data.exceeded, "never grown beyond the limit");
    vp_assert(g.data.used >= g.n, "nothing that was there is lost");
    auto size = zpp::bits::varint_size(v.value);
    if (success(r)) {
        vp_cover("written");
        vp_assert(out.position() == g.pos + size && out.position() <= g.data.used, "written completely");
    } else {
        vp_cover("refused");
        vp_assert(r == std::errc::no_buffer_space, "the only error is no buffer space");
        vp_assert(out.position() == g.pos && g.data.used == g.n, "nothing happened");
    }
    vp_assert(g.kept(g.pos, g.pos + size), "bytes written before are kept");
}
PROOF(whole_bitset)
{
    growing<> g;
    g.limit(1000);
    const std::bitset<20> v(vp_nondet_u64());
    zpp::bits::out out{g.data, alloc_limit<1000>{}};
    out.reset(g.pos);
    limited<1000>(g, out, v, 3);
    vp_assert(g.kept(g.pos, g.pos + 3), "bytes written before are kept");
}
// Appending exactly: refused exactly when the end would be beyond the limit.
template <typename T, u64 Limit>
void appended()
{
    growing<> g;
    g.limit(Limit);
    const T v = make<T>(0xffffffff);
    measure<> m;
    m(v);
    vp_assume(g.pos == g.n);
    vp_assume(g.n <= Limit);
    zpp::bits::out out{g.data, alloc_limit<Limit>{}, exact_enlarger{}};
    out.reset(g.pos);
    auto r = out(v);
    vp_assert(success(r) == (g.n + m.off <= Limit), "accepted exactly when it fits the limit");
    vp_assert(failure(r) || g.data.used == g.n + m.off, "not one byte more");
    vp_assert(g.data.used <= Limit, "the limit");
    vp_cover(success(r) ? "written" : "refused");
}
PROOF(append_u8) { appended<u8, 1000>(); }
PROOF(append_plain) { appended<plain, 1000>(); }
PROOF(append_view) { appended<view, 1000>(); }
PROOF(append_words) { appended<words, 1000>(); }
PROOF(append_triple) { appended<triple, 100000>(); }
// Default growth, one item appended: accepted when one and a half times fits.
PROOF(append_default)
{
    growing<> g;
    g.limit(1000);
    const u64 v = vp_nondet_u64();
    vp_assume(g.pos == g.n);
    zpp::bits::out out{g.data, alloc_limit<1000>{}};
    out.reset(g.pos);
    auto r = out(v);
    vp_assert(failure(r) || g.n + 8 <= 1000, "the limit");
    vp_assert(success(r) || (g.n + 8) * 3 / 2 > 1000, "accepted while the growth fits");
    vp_cover(success(r) ? "written" : "refused");
}
