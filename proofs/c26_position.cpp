// C26: position, reset and the processed and remaining data.
#include "growing.h"
#include "varint.h"
#include <bitset>
using namespace vp;
using namespace zpp::bits::options;

struct plain { u16 a; u8 b; u32 c; auto each(auto f) { f(a), f(b), f(c); } auto each(auto f) const { f(a), f(b), f(c); } };
using text = std::string;
using words = std::vector<u16>;
using view = std::string_view;
using maybe_u32 = std::optional<u32>;
using choice_t = std::variant<u8, u32>;
using owned = std::unique_ptr<u64>;
using four = std::array<u32, 4>;

// What an archive says about itself, over data at `p` of `n` bytes
template <typename Archive, typename Byte>
void describes(Archive & a, Byte * p, std::size_t n, std::size_t pos)
{
    const auto & c = a;
    vp_assert(a.position() == pos && c.position() == pos, "the position");
    vp_assert((void *)a.processed_data().data() == p && a.processed_data().size() == pos, "processed data is everything before it");
    vp_assert(static_cast<const void *>(a.remaining_data().data()) == p + pos && a.remaining_data().size() == n - pos, "remaining data is everything after it");
    vp_assert(static_cast<const void *>(a.data().data()) == p && a.data().size() == n, "data is the whole buffer");
}

// One read from any state.
template <typename T, typename S = size4, typename Byte = std::byte, typename... Opt>
void read_any(Opt... opt)
{
    vp_throw_ok(1);
    source<Byte> s;
    T v{};
    zpp::bits::in in{s.span, Opt(opt)...};
    describes(in, s.p, s.n, 0);
    in.reset(s.pos);
    describes(in, s.p, s.n, s.pos);
    auto r = in(v);
    if (success(r)) {
        measure<S> m;
        m(v);
        describes(in, s.p, s.n, s.pos + m.off);
        vp_assert(in.position() <= s.n, "inside the input");
        vp_cover("read");
    } else {
        vp_assert(in.position() >= s.pos && in.position() <= s.n, "inside the input");
        describes(in, s.p, s.n, in.position());
        vp_cover("refused");
    }
    auto back = vp_nondet_size();
    vp_assume(back <= s.n);
    in.reset(back);
    describes(in, s.p, s.n, back);
    in.position() = s.pos;
    describes(in, s.p, s.n, s.pos);
    in.reset();
    describes(in, s.p, s.n, 0);
}
#define R(name, T) PROOF(read_##name) { read_any<T>(); }
R(u8, u8)
R(u64, u64)
R(plain, plain)
R(four, four)
R(text, text)
R(words, words)
R(optional, maybe_u32)
R(variant, choice_t)
R(owned, owned)
PROOF(read_view) { read_any<view, size4, char>(); }
PROOF(read_words_big) { read_any<words>(zpp::bits::endian::big{}); }
PROOF(read_text_size8) { read_any<text, u64>(size8b{}); }
PROOF(read_const) { read_any<plain, size4, const std::byte>(); }

// One write into a fixed buffer from any state.
template <typename T, typename S = size4, typename Byte = std::byte, typename... Opt>
void writing(Opt... opt)
{
    sink<Byte> s;
    const T v = make<T>(0xffffffff);
    measure<S> m;
    m(v);
    zpp::bits::out out{s.span, Opt(opt)...};
    describes(out, s.p, s.n, 0);
    out.reset(s.pos);
    describes(out, s.p, s.n, s.pos);
    vp_assert(s.frame(0, 0), "reset changes no data");
    auto r = out(v);
    if (success(r)) {
        describes(out, s.p, s.n, s.pos + m.off);
        vp_cover("written");
    } else {
        vp_assert(out.position() >= s.pos && out.position() <= s.n, "inside the buffer");
        describes(out, s.p, s.n, out.position());
        vp_cover("refused");
    }
    auto back = vp_nondet_size();
    vp_assume(back <= s.n);
    auto was = s.n && s.k < s.n ? s.at(s.k) : 0;
    out.reset(back);
    describes(out, s.p, s.n, back);
    out.position() = s.pos;
    describes(out, s.p, s.n, s.pos);
    out.reset();
    describes(out, s.p, s.n, 0);
    vp_assert((s.n && s.k < s.n ? s.at(s.k) : 0) == was, "reset changes no data");
}
#define W(name, T) PROOF(write_##name) { writing<T>(); }
W(u8, u8)
W(u64, u64)
W(plain, plain)
W(four, four)
W(text, text)
W(words, words)
W(view, view)
W(optional, maybe_u32)
W(variant, choice_t)
W(owned, owned)
PROOF(write_words_big) { writing<words>(zpp::bits::endian::big{}); }
PROOF(write_char) { writing<plain, size4, char>(); }

// One write into a growing container from any state.
template <typename T, typename... Opt>
void growing_write(Opt... opt)
{
    growing<> g;
    const T v = make<T>(0xffffffff);
    measure<> m;
    m(v);
    zpp::bits::out out{g.data, Opt(opt)...};
    describes(out, g.data.p, g.n, 0);
    out.reset(g.pos);
    describes(out, g.data.p, g.n, g.pos);
    vp_assert(g.data.resized == 0 && g.kept(0, 0), "reset changes no data");
    auto r = out(v);
    vp_assert(success(r) || r == std::errc::no_buffer_space, "only the limit can refuse");
    if (success(r)) {
        describes(out, g.data.p, g.data.used, g.pos + m.off);
        vp_cover("written");
    } else {
        vp_assert(out.position() >= g.pos && out.position() <= g.data.used, "inside the container");
        describes(out, g.data.p, g.data.used, out.position());
        vp_cover("refused");
    }
    auto used = g.data.used, resized = g.data.resized;
    auto back = vp_nondet_size();
    vp_assume(back <= used);
    out.reset(back);
    describes(out, g.data.p, used, back);
    out.reset();
    describes(out, g.data.p, used, 0);
    vp_assert(g.data.resized == resized, "reset changes no data");
}
#define G(name, T) PROOF(grow_##name) { growing_write<T>(); }
G(u64, u64)
G(plain, plain)
G(view, view)
G(words, words)
G(variant, choice_t)
PROOF(grow_limited) { growing_write<plain>(alloc_limit<4096>{}); }
PROOF(grow_no_fit) { growing_write<plain>(no_fit_size{}); }

// Two objects written one after another over the same buffer, then read back
// from the start through an input over the same data.
template <typename A, typename B, typename... Opt>
void read_back(Opt... opt)
{
    sink<> s;
    const A a = make<A>();
    const B b = make<B>();
    A x{};
    B y{};
    zpp::bits::out out{s.span, Opt(opt)...};
    zpp::bits::in in{s.span, Opt(opt)...};
    if (failure(out(a, b))) {
        return;
    }
    vp_assert(in.position() == 0, "reading starts at the start");
    auto r = in(x, y);
    vp_assert(success(r), "what was written can be read");
    vp_assert(in.position() == out.position(), "both end at the same position");
    vp_assert(bits(x) == bits(a) && bits(y) == bits(b), "equal values");
    vp_assert(in.processed_data().size() == out.processed_data().size(), "all of it");
    vp_cover("read back");
    in.reset();
    out.reset();
    vp_assert(success(in(x)) && bits(x) == bits(a), "and again after a reset");
    in.reset(sizeof(A));
    vp_assert(success(in(y)) && bits(y) == bits(b), "from the middle");
    vp_assert(success(out(b)) && out.position() == sizeof(B), "written again at the start");
    in.reset();
    vp_assert(success(in(y)) && bits(y) == bits(b), "and seen by the input");
}
PROOF(back_u32_u8) { read_back<u32, u8>(); }
PROOF(back_u8_u64) { read_back<u8, u64>(); }
PROOF(back_float_u16) { read_back<float, u16>(); }
PROOF(back_big) { read_back<u32, u16>(zpp::bits::endian::big{}); }

// An input over a growing container follows it.
PROOF(follow)
{
    growing<> g;
    vp_assume(g.pos == 0);
    const u32 a = vp_nondet_u32(), b = vp_nondet_u32();
    u32 x = 0, y = 0;
    zpp::bits::out out{g.data};
    zpp::bits::in in{g.data};
    vp_assert(success(out(a)) && success(in(x)) && x == a, "the first");
    vp_assert(success(out(b)) && success(in(y)) && y == b, "the second");
    vp_assert(in.position() == 8 && out.position() == 8, "both positions");
    describes(in, g.data.p, g.data.used, 8);
    vp_cover("read");
}

// The options.
PROOF(option_append)
{
    growing<> g;
    const u32 a = vp_nondet_u32();
    zpp::bits::out out{g.data, append{}};
    describes(out, g.data.p, g.n, g.n);
    vp_assert(g.data.resized == 0 && g.data.reserved == 0 && g.kept(0, 0), "append changes no data");
    vp_assert(success(out(a)) && out.position() == g.n + 4 && g.data.used == g.n + 4, "written behind the content");
    vp_assert(le(g.data.p + g.n, 4) == a && g.kept(g.n, g.n + 4), "the content stays");
    vp_cover("appended");
}
PROOF(option_reserve)
{
    growing<> g;
    auto k = vp_nondet_size();
    zpp::bits::out out{g.data, reserve{k}};
    vp_assert(g.data.reserved == k && g.data.resized == 0, "reserves what was asked for");
    describes(out, g.data.p, g.n, 0);
    vp_assert(g.kept(0, 0), "changes no data");
    vp_cover("reserved");
}
PROOF(option_resize)
{
    growing<> g;
    auto k = vp_nondet_size();
    zpp::bits::out out{g.data, zpp::bits::resize{k}};
    vp_assert(g.data.used == k && g.data.resized == 1, "resizes to what was asked for");
    describes(out, g.data.p, k, 0);
    vp_assert(g.k >= k || g.n == 0 || g.data.at(g.k) == g.before, "what remains is unchanged");
    vp_cover("resized");
}
PROOF(option_append_resize)
{
    growing<> g;
    auto k = vp_nondet_size();
    zpp::bits::out out{g.data, append{}, zpp::bits::resize{k}};
    describes(out, g.data.p, k, k < g.n ? k : g.n);
    vp_cover("resized");
}
PROOF(option_resize_append)
{
    growing<> g;
    auto k = vp_nondet_size();
    zpp::bits::out out{g.data, zpp::bits::resize{k}, append{}};
    describes(out, g.data.p, k, k);
    vp_cover("resized");
}
PROOF(option_reserve_append)
{
    growing<> g;
    auto k = vp_nondet_size();
    zpp::bits::out out{g.data, reserve{k}, append{}};
    vp_assert(g.data.reserved == k, "reserves what was asked for");
    describes(out, g.data.p, g.n, g.n);
    vp_cover("reserved");
}
// Options given together with unrelated ones keep their effect.
PROOF(option_mixed)
{
    growing<> g;
    const u16 a = vp_nondet_u16();
    zpp::bits::out out{g.data, zpp::bits::endian::big{}, append{}, size2b{}};
    describes(out, g.data.p, g.n, g.n);
    vp_assert(success(out(a)) && be(g.data.p + g.n, 2) == a, "appended in the byte order asked for");
    vp_cover("appended");
}

// The helpers that create archives over a given buffer.
PROOF(helper_output_input)
{
    sink<> s;
    const u32 a = vp_nondet_u32();
    u32 x = 0;
    auto out = zpp::bits::output(s.span);
    auto in = zpp::bits::input(s.span);
    describes(out, s.p, s.n, 0);
    describes(in, s.p, s.n, 0);
    if (success(out(a))) {
        vp_assert(success(in(x)) && x == a && in.position() == 4, "reads what was written");
        vp_cover("written");
    }
}
PROOF(helper_in_out)
{
    growing<> g;
    const u32 a = vp_nondet_u32();
    u32 x = 0;
    auto [in, out] = zpp::bits::in_out(g.data, zpp::bits::endian::big{});
    describes(in, g.data.p, g.n, 0);
    describes(out, g.data.p, g.n, 0);
    vp_assert(success(out(a)) && success(in(x)) && x == a, "reads what was written");
    vp_assert(be(g.data.p, 4) == a, "with the options given");
    vp_assert(in.position() == 4 && out.position() == 4, "both positions");
    vp_cover("written");
}
PROOF(helper_data_in_out)
{
    vp_throw_ok(1);
    const u32 a = vp_nondet_u32();
    const u16 b = vp_nondet_u16();
    u32 x = 0;
    u16 y = 0;
    auto [data, in, out] = zpp::bits::data_in_out(zpp::bits::endian::big{});
    vp_assert(data.size() == 0 && in.position() == 0 && out.position() == 0, "empty at first");
    vp_assert(success(out(a, b)) && data.size() == 6 && out.position() == 6, "writes into the data");
    vp_assert(success(in(x, y)) && x == a && y == b && in.position() == 6, "reads from the data");
    vp_assert(be(data.data(), 4) == a, "with the options given");
    vp_assert(in(y) == out_of_range && in.position() == 6, "and no further");
    vp_cover("read");
}
PROOF(helper_data_out)
{
    vp_throw_ok(1);
    const u32 a = vp_nondet_u32();
    auto [data, out] = zpp::bits::data_out();
    vp_assert(success(out(a)) && data.size() == 4 && le(data.data(), 4) == a, "writes into the data");
    describes(out, data.data(), 4, 4);
    vp_cover("written");
}
PROOF(helper_data_in)
{
    vp_throw_ok(1);
    u32 x = 0;
    auto [data, in] = zpp::bits::data_in();
    vp_assert(in(x) == out_of_range && in.position() == 0, "empty at first");
    auto n = vp_nondet_size();
    auto p = static_cast<std::byte *>(vp_region(n));
    data.assign(p, p + n);
    auto r = in(x);
    vp_assert(success(r) == (n >= 4), "reads from the data");
    vp_assert(failure(r) || (x == le(p, 4) && in.position() == 4), "its content");
    describes(in, data.data(), n, in.position());
    vp_cover(success(r) ? "read" : "refused");
}

// Any mixture of operations: from any state, one operation keeps the archive's
// description of itself true, so every sequence of them does.
template <typename... T>
void any_operation()
{
    growing<> g;
    zpp::bits::out out{g.data};
    zpp::bits::in in{g.data};
    out.reset(g.pos);
    auto ipos = vp_nondet_size();
    vp_assume(ipos <= g.n);
    in.reset(ipos);
    u64 op = vp_nondet_u8();
    vp_assume(op < 6);
    switch (vp_pick(op, 5)) {
    case 0: {
        vp_assert(success(out(vp_nondet_u32())), "a write");
        describes(out, g.data.p, g.data.used, g.pos + 4);
        describes(in, g.data.p, g.data.used, ipos);
        break;
    }
    case 1: {
        u16 x = 0;
        auto r = in(x);
        describes(in, g.data.p, g.n, ipos + (success(r) ? 2 : 0));
        describes(out, g.data.p, g.n, g.pos);
        break;
    }
    case 2: {
        zpp::bits::vuint32_t x;
        auto r = in(x);
        vp_assert(in.position() >= ipos && in.position() <= g.n, "inside the input");
        vp_assert(success(r) || in.position() == ipos, "stays where it was on failure");
        describes(in, g.data.p, g.n, in.position());
        describes(out, g.data.p, g.n, g.pos);
        break;
    }
    case 3: {
        zpp::bits::vuint32_t x{vp_nondet_u32()};
        vp_assert(success(out(x)), "a write");
        describes(out, g.data.p, g.data.used, g.pos + groups(x.value));
        describes(in, g.data.p, g.data.used, ipos);
        break;
    }
    case 4: {
        out.reset();
        describes(out, g.data.p, g.n, 0);
        describes(in, g.data.p, g.n, ipos);
        break;
    }
    default: {
        in.reset();
        describes(out, g.data.p, g.n, g.pos);
        describes(in, g.data.p, g.n, 0);
    }
    }
    vp_cover("done");
}
PROOF(any_operation) { any_operation(); }
