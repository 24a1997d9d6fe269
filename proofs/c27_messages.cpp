// C27: length-prefixed messages.
#include "growing.h"
#include "varint.h"
using namespace vp;
using namespace zpp::bits::options;

// A protocol whose messages are any run of bytes: the body is written as it
// is; decoding records the length that was announced and consumes any part.
namespace ghost
{
u64 calls = 0, announced = 0, position = 0;
int code = 0;
}
struct run;
struct protocol
{
    constexpr protocol() = default;
    constexpr auto operator()(auto & archive, auto & item) const
        requires(std::remove_cvref_t<decltype(archive)>::kind() == zpp::bits::kind::out)
    {
        return archive(zpp::bits::unsized(item.body));
    }
    constexpr zpp::bits::errc operator()(auto & archive, auto & item, std::size_t size) const
        requires(std::remove_cvref_t<decltype(archive)>::kind() == zpp::bits::kind::in)
    {
        ++ghost::calls;
        ghost::announced = size;
        ghost::position = archive.position();
        if (ghost::code) {
            return std::errc(ghost::code);
        }
        auto n = vp_nondet_size();
        vp_assume(n <= archive.remaining_data().size());
        archive.position() += n;
        item.taken = n;
        return {};
    }
};
struct run
{
    using serialize = zpp::bits::protocol<protocol{}>;
    std::string_view body;
    std::size_t taken = 0;
};
template <typename S>
inline constexpr bool is_varint = requires { typename varint_of<S>::type; };

template <typename S>
std::size_t prefix(u64 n)
{
    if constexpr (is_varint<S>) {
        return groups(n);
    } else {
        return sizeof(S);
    }
}
template <bool Big, typename S, typename Byte>
bool spells(const Byte * p, std::size_t size, u64 n)
{
    if constexpr (is_varint<S>) {
        return shortest(p, size, n);
    } else {
        return word<Big>(p, sizeof(S)) == n;
    }
}
template <typename S>
run message()
{
    auto n = vp_nondet_size();
    if constexpr (sizeof(S) < 8 && !is_varint<S>) {
        vp_assume(n < 1ull << (8 * sizeof(S) % 64)); // a prefix that can count that far
    } else if constexpr (is_varint<S>) {
        if constexpr (sizeof(typename varint_of<S>::type) < 8) {
            vp_assume(n < 1ull << (8 * sizeof(typename varint_of<S>::type) % 64));
        }
    }
    return {{static_cast<char *>(vp_region(n)), n}};
}
// Into a fixed buffer
template <typename S, bool Big = false, typename Byte = std::byte, bool Sized = false, typename... Opt>
void fixed(Opt... opt)
{
    sink<Byte> s;
    auto v = message<S>();
    const auto n = v.body.size();
    const auto head = is_varint<S> ? vp_pick(prefix<S>(n), 10) : sizeof(S);
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    zpp::bits::errc r;
    if constexpr (Sized) {
        r = out(zpp::bits::sized<S>(v));
    } else {
        r = out(v);
    }
    if (success(r)) {
        vp_cover("written");
        vp_assert(out.position() == s.pos + head + n, "prefix and body");
        vp_assert(spells<Big, S>(s.p + s.pos, head, n), "the exact length of the body, in the archive's byte order");
        auto j = vp_nondet_size();
        vp_assume(j < n);
        vp_assert(s.at(s.pos + head + j) == u8(v.body[j]), "the body behind it");
        vp_assert(s.frame(s.pos, s.pos + head + n), "bytes outside are unchanged");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range, "out of range");
        vp_assert(s.room() < head + n, "refused only when it does not fit");
        vp_assert(s.frame(s.pos, s.n), "bytes before are unchanged");
        vp_assert(out.position() >= s.pos && out.position() <= s.n, "position stays inside");
    }
}
#define F(name, ...) PROOF(fixed_##name) { fixed<__VA_ARGS__>
F(default, u32)(); }
F(size1, u8)(size1b{}); }
F(size2, u16)(size2b{}); }
F(size8, u64)(size8b{}); }
F(size4_big, u32, true)(zpp::bits::endian::big{}); }
F(size2_big, u16, true)(zpp::bits::endian::big{}, size2b{}); }
F(size8_big, u64, true)(zpp::bits::endian::big{}, size8b{}); }
F(size4_char, u32, false, char)(); }
F(size4_big_uchar, u32, true, unsigned char)(zpp::bits::endian::big{}); }
F(varint, zpp::bits::vsize_t)(size_varint{}); }
#ifndef VP_CONSTANT
F(varint_char, zpp::bits::vsize_t, false, char)(size_varint{}); }
#endif
#ifndef VP_CONSTANT
F(varint_big, zpp::bits::vsize_t)(size_varint{}, zpp::bits::endian::big{}); }
#endif
F(sized_u16, u16, false, std::byte, true)(); }
F(sized_u64_big, u64, true, std::byte, true)(zpp::bits::endian::big{}); }
F(sized_varint, zpp::bits::vuint64_t, false, std::byte, true)(); }
#ifndef VP_CONSTANT
F(sized_varint32, zpp::bits::vuint32_t, false, std::byte, true)(); }
#endif
F(sized_varint16, zpp::bits::varint<u16>, false, std::byte, true)(); }

// Into a growing container
template <typename S, bool Big = false, typename... Opt>
void grown(Opt... opt)
{
    growing<> g;
    auto v = message<S>();
    const auto n = v.body.size();
    const auto head = is_varint<S> ? vp_pick(prefix<S>(n), 10) : sizeof(S);
    zpp::bits::out out{g.data, Opt(opt)...};
    out.reset(g.pos);
    auto r = out(v);
    const auto end = g.pos + head + n;
    vp_assert(success(r) && out.position() == end, "prefix and body");
    vp_assert(spells<Big, S>(g.data.p + g.pos, head, n), "the exact length of the body, in the archive's byte order");
    auto j = vp_nondet_size();
    vp_assume(j < n);
    vp_assert(g.data.at(g.pos + head + j) == u8(v.body[j]), "the body behind it");
    vp_assert(g.kept(g.pos, end) && g.data.used == (end > g.n ? end : g.n), "fitted, and what was there is kept");
    vp_cover("written");
}
PROOF(grown_default) { grown<u32>(); }
PROOF(grown_size1) { grown<u8>(size1b{}); }
PROOF(grown_size8_big) { grown<u64, true>(size8b{}, zpp::bits::endian::big{}); }
#ifndef VP_CONSTANT
PROOF(grown_varint_double) { grown<zpp::bits::vsize_t>(size_varint{}, enlarger<2>{}); }
#endif

// Decoding reads the prefix and hands the announced length to the protocol.
template <typename S, bool Big = false, typename Byte = std::byte, bool Sized = false, typename... Opt>
void decoded(Opt... opt)
{
    source<Byte> s;
    run v;
    ghost::calls = 0;
    ghost::code = vp_nondet_u8() & 1 ? int(std::errc::protocol_error) : 0;
    u64 head = 0, n = 0;
    bool complete = false;
    if constexpr (is_varint<S>) {
        const vp::reading<S, Byte> want(s.p + s.pos, s.n - s.pos);
        complete = want.complete;
        head = want.size;
        n = want.n & varint_of<S>::mask;
    } else {
        head = sizeof(S);
        complete = s.n - s.pos >= head;
        n = complete ? word<Big>(s.p + s.pos, head) : 0;
    }
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    zpp::bits::errc r;
    if constexpr (Sized) {
        r = in(zpp::bits::sized<S>(v));
    } else {
        r = in(v);
    }
    if (complete) {
        vp_assert(ghost::calls == 1, "decoded once");
        vp_assert(ghost::announced == n, "with the announced length");
        vp_assert(ghost::position == s.pos + head, "from behind the prefix");
        vp_assert(r == std::errc(ghost::code), "the result of the message");
        vp_assert(failure(r) || in.position() == s.pos + head + v.taken, "where the message ended");
        vp_cover(success(r) ? "read" : "failed");
    } else {
        vp_assert(ghost::calls == 0, "no message without a prefix");
        vp_assert(failure(r) && (is_varint<S> || r == out_of_range), "a truncated prefix");
        vp_cover("truncated");
    }
}
#define D(name, ...) PROOF(decoded_##name) { decoded<__VA_ARGS__>
D(default, u32)(); }
D(size1, u8)(size1b{}); }
D(size2, u16)(size2b{}); }
D(size8, u64)(size8b{}); }
D(size4_big, u32, true)(zpp::bits::endian::big{}); }
D(size8_big, u64, true)(zpp::bits::endian::big{}, size8b{}); }
D(size4_char, u32, false, char)(); }
D(varint, zpp::bits::vsize_t)(size_varint{}); }
D(varint_const, zpp::bits::vsize_t, false, const std::byte)(size_varint{}); }
D(sized_u16, u16, false, std::byte, true)(); }
D(sized_varint32, zpp::bits::vuint32_t, false, std::byte, true)(); }

// A failing body is reported as it is.
struct broken
{
    struct failing
    {
        constexpr zpp::bits::errc operator()(auto & archive, auto &) const
        {
            archive.position() += 0;
            return std::errc::protocol_error;
        }
    };
    using serialize = zpp::bits::protocol<failing{}>;
    u32 a;
};
PROOF(failing_body)
{
    sink<> s;
    broken v{1};
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = out(v);
    vp_assert(r == (s.room() < 4 ? out_of_range : std::errc::protocol_error), "the error of the body");
    vp_assert(s.frame(s.pos, s.pos + 4), "bytes outside are unchanged");
    vp_cover("failed");
}
// Protobuf messages stay within the length that was announced.
struct pair_message
{
    using serialize = zpp::bits::pb_protocol;
    u32 a = 0;
    zpp::bits::vuint32_t b = 0;
};
template <typename S, bool Big = false, typename... Opt>
void confined(Opt... opt)
{
    source<> s;
    pair_message v;
    u64 head = sizeof(S), n = 0;
    bool complete = s.n - s.pos >= head;
    if constexpr (is_varint<S>) {
        const vp::reading<S, std::byte> want(s.p + s.pos, s.n - s.pos);
        complete = want.complete;
        head = want.size;
        n = want.n;
    } else {
        n = complete ? word<Big>(s.p + s.pos, head) : 0;
    }
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto r = in(v);
    if (!complete) {
        vp_assert(failure(r), "a truncated prefix");
        vp_cover("truncated");
    } else if (n > s.n - s.pos - head) {
        vp_assert(r == out_of_range, "more announced than there is");
        vp_assert(in.position() == s.pos + head, "and nothing of it is read");
        vp_assert(v.a == 0 && v.b == 0u, "nor decoded");
        vp_cover("too long");
    } else {
        vp_assert(in.position() >= s.pos + head && in.position() <= s.pos + head + n, "never past the announced length");
        vp_assert(failure(r) || in.position() == s.pos + head + n, "all of it on success");
        vp_cover(success(r) ? "read" : "failed");
    }
}
PROOF(confined_default) { confined<u32>(); }
PROOF(confined_size1) { confined<u8>(size1b{}); }
PROOF(confined_size8) { confined<u64>(size8b{}); }
PROOF(confined_big) { confined<u32, true>(zpp::bits::endian::big{}); }
#ifndef VP_CONSTANT
PROOF(confined_varint) { confined<zpp::bits::vsize_t>(size_varint{}); }
#endif
