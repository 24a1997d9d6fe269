// C16: protobuf messages into a growing container, with and without a length in front.
#include "pb_message.h"

struct leaf
{
    zpp::bits::vuint32_t a;
    u64 b = 0;
    bool operator==(const leaf &) const = default;
    using serialize = zpp::bits::pb_members<2>;
};
struct holder
{
    u32 x = 0;
    leaf l;
    bool operator==(const holder &) const = default;
    using serialize = zpp::bits::pb_members<2>;
};
template <typename Size, typename M, typename F, typename... Opt>
void grown(M & m, F fields, Opt... opt)
{
    growing<> g;
    pb_parts<> want;
    fields(want);
    std::size_t head = 0;
    if constexpr (requires { typename varint_of<Size>::type; }) {
        head = groups(want.off);
    } else if constexpr (!std::is_void_v<Size>) {
        head = sizeof(Size);
    }
    zpp::bits::out out{g.data, Opt(opt)...};
    out.reset(g.pos);
    auto r = out(m);
    const auto end = g.pos + head + want.off;
    vp_assert(success(r) && out.position() == end, "the fields in order and nothing else");
    if constexpr (requires { typename varint_of<Size>::type; }) {
        vp_assert(shortest(g.data.p + g.pos, head, want.off), "behind their length");
    } else if constexpr (!std::is_void_v<Size>) {
        vp_assert(word<false>(g.data.p + g.pos, head) == want.off, "behind their length");
    }
    pb_parts<> wrote{g.data.p + g.pos + head};
    fields(wrote);
    vp_assert(wrote.ok, "each field its tag and its payload");
    vp_assert(g.kept(g.pos, end) && g.data.used == (end > g.n ? end : g.n), "fitted, and what was there is kept");
    vp_cover("written");
    const std::span<std::byte> part{g.data.p, end};
    zpp::bits::in in{part, Opt(opt)...};
    in.reset(g.pos);
    M got{};
    vp_assert(success(in(got)), "it decodes");
    vp_assert(got == m, "to an equal message");
    vp_assert(in.position() == end, "all of it");
}
template <typename Size, typename... Opt>
void grown_holder(Opt... opt)
{
    holder h;
    h.x = any<u32>(), h.l.a = any<u32>(), h.l.b = any<u64>();
    grown<Size>(h, [&](auto & w) {
        w.tag(1, pb_fixed32), w.fixed(h.x, 4);
        w.tag(2, pb_length), w.nested([&](auto & w) {
            w.tag(1, pb_varint), w.varint(u32(h.l.a));
            w.tag(2, pb_fixed64), w.fixed(h.l.b, 8);
        });
    }, opt...);
}
PROOF(unsized) { grown_holder<void>(no_size{}); }
PROOF(sized) { grown_holder<u32>(); }
PROOF(sized_double) { grown_holder<u64>(size8b{}, enlarger<2>{}); }
PROOF(sized_varint) { grown_holder<zpp::bits::vsize_t>(size_varint{}, enlarger<2>{}); }
