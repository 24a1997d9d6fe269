// C10: a view of constant bytes or characters points at its content inside
// the input, copies nothing and never reaches beyond the input.
#include "varint.h"
using namespace vp;
using namespace zpp::bits::options;

template <typename View, typename Byte, bool Big, typename S, typename... Opt>
void view(Opt... opt)
{
    source<Byte> s;
    View v{};
    auto left = s.n - s.pos;
    bool has = left >= sizeof(S);
    auto count = has ? word<Big>(s.p + s.pos, sizeof(S)) : 0;
    auto i = vp_nondet_size();
    auto old = i < s.n ? s.at(i) : 0;
    auto heap = vp_heap_live();
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto r = in(v);
    vp_assert(vp_heap_live() == heap, "nothing is allocated");
    vp_assert(i >= s.n || s.at(i) == old, "the input is not changed");
    if (success(r)) {
        vp_cover("read");
        vp_assert(has && count <= left - sizeof(S), "only when the content is there");
        vp_assert(v.size() == count, "the announced length");
        vp_assert(static_cast<const void *>(v.data()) == s.p + s.pos + sizeof(S), "the content itself");
        vp_assert(in.position() == s.pos + sizeof(S) + count, "right after the content");
    } else {
        vp_cover("rejected");
        vp_assert(r == out_of_range, "out of range");
        vp_assert(!has || count > left - sizeof(S), "rejected only when the content is not there");
        vp_assert(in.position() <= s.n, "position stays inside");
        vp_assert(v.size() == 0, "the view is not touched");
    }
}
#define V(name, ...) PROOF(name) { view<__VA_ARGS__>(); }
#define VO(name, opts, ...) PROOF(name) { view<__VA_ARGS__> opts; }
V(bytes, std::span<const std::byte>, std::byte, false, u32)
V(string_view, std::string_view, char, false, u32)
V(uchars, std::span<const unsigned char>, unsigned char, false, u32)
V(chars, std::span<const char>, char, false, u32)
V(bytes1b, zpp::bits::span1b<const std::byte>, std::byte, false, u8)
V(bytes2b, zpp::bits::span2b<const std::byte>, std::byte, false, u16)
V(bytes8b, zpp::bits::span8b<const std::byte>, std::byte, false, u64)
V(view1b, zpp::bits::string_view1b, char, false, u8)
V(view2b, zpp::bits::string_view2b, char, false, u16)
V(view4b, zpp::bits::string_view4b, char, false, u32)
V(view8b, zpp::bits::string_view8b, char, false, u64)
VO(bytes_big, (endian::big{}), std::span<const std::byte>, std::byte, true, u32)
VO(view_big2, (endian::big{}, size2b{}), std::string_view, char, true, u16)
VO(view_size8, (size8b{}), std::string_view, char, false, u64)
VO(view_native, (size_native{}), std::string_view, char, false, u64)
VO(bytes_size1, (size1b{}), std::span<const std::byte>, std::byte, false, u8)
// without a prefix: everything that is left
template <typename View, typename Byte, typename... Opt>
void rest(Opt... opt)
{
    source<Byte> s;
    View v{};
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    zpp::bits::errc r;
    if constexpr (sizeof...(Opt)) {
        r = in(v);
    } else {
        r = in(zpp::bits::unsized(v));
    }
    vp_assert(success(r), "always");
    vp_assert(static_cast<const void *>(v.data()) == s.p + s.pos && v.size() == s.n - s.pos, "the rest of the input");
    vp_assert(in.position() == s.n, "all of it is consumed");
    vp_cover("read");
}
PROOF(rest_bytes) { rest<std::span<const std::byte>, std::byte>(); }
PROOF(rest_view) { rest<std::string_view, char>(); }
PROOF(rest_no_size) { rest<std::string_view, char>(no_size{}); }
// a view type whose length is fixed
template <std::size_t N, typename C>
struct window
{
    using value_type = C;
    using iterator = const C *;
    using const_iterator = const C *;
    static constexpr std::size_t extent = N;
    const C * p = nullptr;
    constexpr window() = default;
    constexpr window(const C * from, std::size_t n) : p(from) { vp_assert(n == N, "its own length"); }
    constexpr std::size_t size() const { return N; }
    constexpr const C * data() const { return p; }
    constexpr const C & operator[](std::size_t i) const { return p[i]; }
    constexpr iterator begin() const { return p; }
    constexpr iterator end() const { return p + N; }
};
template <std::size_t N, typename Byte, typename C>
void fixed_view()
{
    source<Byte> s;
    window<N, C> v;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = in(v);
    if (success(r)) {
        vp_cover("read");
        vp_assert(s.n - s.pos >= N, "only when the content is there");
        vp_assert(static_cast<const void *>(v.data()) == s.p + s.pos, "the content itself");
        vp_assert(in.position() == s.pos + N, "right after the content");
    } else {
        vp_cover("rejected");
        vp_assert(r == out_of_range && s.n - s.pos < N, "rejected only when the content is not there");
        vp_assert(v.data() == nullptr, "the view is not touched");
        vp_assert(in.position() == s.pos, "nothing is consumed");
    }
}
PROOF(fixed_view_bytes) { fixed_view<7, std::byte, std::byte>(); }
PROOF(fixed_view_chars) { fixed_view<1, char, char>(); }
PROOF(fixed_view_uchars) { fixed_view<32, unsigned char, unsigned char>(); }
// among other things
struct record
{
    u16 id;
    std::string_view name;
    u8 kind;
    zpp::bits::string_view1b note;
};
PROOF(record_view)
{
    source<char> s;
    record v{};
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = in(v);
    auto p = s.p + s.pos;
    if (success(r)) {
        vp_cover("read");
        vp_assert(v.name.data() == p + 6 && v.name.size() == le(p + 2, 4), "the name itself");
        auto q = p + 6 + v.name.size();
        vp_assert(v.id == le(p, 2) && v.kind == u8(*q), "the numbers around it");
        vp_assert(v.note.data() == q + 2 && v.note.size() == u8(q[1]), "the note itself");
        vp_assert(in.position() == s.pos + 8 + v.name.size() + v.note.size() && in.position() <= s.n, "right after it");
    } else {
        vp_cover("rejected");
        vp_assert(r == out_of_range && in.position() <= s.n, "truncated");
    }
}
PROOF(two_views)
{
    source<> s;
    std::span<const std::byte> a, b;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = in(a, b);
    if (success(r)) {
        vp_cover("read");
        vp_assert(a.data() == s.p + s.pos + 4 && a.data() + a.size() + 4 == b.data(), "one after another");
        vp_assert(in.position() == s.pos + 8 + a.size() + b.size() && in.position() <= s.n, "inside");
    }
}
// the length as a variable-length integer
PROOF(view_varint)
{
    source<char> s;
    std::string_view v{};
    auto left = s.n - s.pos;
    reading<zpp::bits::vsize_t, char> want(s.p + s.pos, left);
    zpp::bits::in in{s.span, size_varint{}};
    in.reset(s.pos);
    auto r = in(v);
    if (success(r)) {
        vp_cover("read");
        vp_assert(want.complete && want.n <= left - want.size, "only when the content is there");
        vp_assert(v.size() == want.n && v.data() == s.p + s.pos + want.size, "the content itself");
        vp_assert(in.position() == s.pos + want.size + want.n, "right after it");
    } else {
        vp_cover("rejected");
        vp_assert(!want.complete || want.n > left - want.size, "rejected only when the content is not there");
    }
}
// an owning input: the view points into the container
PROOF(view_into_vector)
{
    vp_throw_ok(1);
    source<> s;
    std::vector<std::byte> data(s.p, s.p + s.n);
    std::span<const std::byte> v{};
    zpp::bits::in in{data};
    in.reset(s.pos);
    auto r = in(v);
    if (success(r)) {
        vp_cover("read");
        vp_assert(v.data() == data.data() + s.pos + 4 && v.size() == le(s.p + s.pos, 4), "the content itself");
        vp_assert(in.position() == s.pos + 4 + v.size() && in.position() <= s.n, "inside the input");
    }
}
