// C13: a variant is the identifier of its alternative and that alternative.
#include "wire.h"
using namespace vp;
using namespace zpp::bits::options;
using namespace zpp::bits::literals;

struct plain { u16 a; u8 b; auto each(auto f) { f(a), f(b); } auto each(auto f) const { f(a), f(b); } bool operator==(const plain &) const = default; };
struct one { u32 x; using serialize_id = zpp::bits::id<"one!"_s>; auto each(auto f) { f(x); } auto each(auto f) const { f(x); } };
struct two { u8 y; u8 z; using serialize_id = zpp::bits::id<"two!"_s>; auto each(auto f) { f(y), f(z); } auto each(auto f) const { f(y), f(z); } };
struct three { std::string s; auto each(auto f) { f(s); } auto each(auto f) const { f(s); } };
auto serialize_id(const three &) -> zpp::bits::id<"3333"_s>;
struct tag_a { u8 v; using serialize_id = zpp::bits::id<"v1::tag_a"_sha256, 8>; auto each(auto f) { f(v); } auto each(auto f) const { f(v); } };
struct tag_b { u64 v; using serialize_id = zpp::bits::id<"v1::tag_b"_sha256, 8>; auto each(auto f) { f(v); } auto each(auto f) const { f(v); } };
struct long_a { u16 v; using serialize_id = zpp::bits::id<"abc"_s>; auto each(auto f) { f(v); } auto each(auto f) const { f(v); } };
struct long_b { u8 v; using serialize_id = zpp::bits::id<"abd"_s>; auto each(auto f) { f(v); } auto each(auto f) const { f(v); } };
// default construction only through the library
class hidden
{
  public:
    u32 v;
    explicit hidden(u32 v) : v(v) {}
    hidden(hidden &&) = default;
    hidden & operator=(hidden &&) = default;
    hidden(const hidden &) = default;
    hidden & operator=(const hidden &) = default;
    auto each(auto f) { f(v); }
    auto each(auto f) const { f(v); }

  private:
    friend zpp::bits::access; // variants must not construct it themselves
    hidden() : v(0x5a5a) {}
    using serialize = zpp::bits::members<1>;
};

template <typename V>
struct ids // the default: the index in one byte
{
    static constexpr std::size_t size = 1;
    template <std::size_t I>
    static constexpr u64 at = I;
};
constexpr u64 text(const char * s, int n)
{
    u64 r = 0;
    for (int i = n; i-- > 0;) {
        r = r << 8 | u8(s[i]);
    }
    return r;
}
using named = std::variant<one, two, three>;
template <>
struct ids<named>
{
    static constexpr std::size_t size = 4;
    template <std::size_t I>
    static constexpr u64 at = text(I == 0 ? "one!" : I == 1 ? "two!" : "3333", 4);
};
using tagged = std::variant<tag_a, tag_b>;
template <>
struct ids<tagged>
{
    static constexpr std::size_t size = 8;
    // the first eight bytes of the SHA-256 of v1::tag_a and v1::tag_b
    template <std::size_t I>
    static constexpr u64 at = I == 0 ? 0xef755d1ba46e4c6cull : 0xd4a5a52b7526a773ull;
};
using lettered = std::variant<long_a, long_b>;
template <>
struct ids<lettered>
{
    static constexpr std::size_t size = 3;
    template <std::size_t I>
    static constexpr u64 at = text(I == 0 ? "abc" : "abd", 3);
};
// f.template operator()<I>() for the alternative I
template <std::size_t N>
void nth(std::size_t i, auto f)
{
    [&]<std::size_t... I>(std::index_sequence<I...>) { (void)((i == I ? (f.template operator()<I>(), true) : false) || ...); }(std::make_index_sequence<N>{});
}
template <typename T>
T fresh()
{
    if constexpr (std::is_same_v<T, hidden>) {
        return hidden(vp_nondet_u32());
    } else {
        return make<T>(0xffffffff);
    }
}
template <typename V>
V arbitrary()
{
    std::uint64_t id = vp_nondet_u8();
    vp_assume(id < std::variant_size_v<V>);
    id = vp_pick(id, std::variant_size_v<V> - 1);
    std::optional<V> v;
    nth<std::variant_size_v<V>>(id, [&]<std::size_t I>() {
        v.emplace(std::in_place_index<I>, fresh<std::variant_alternative_t<I, V>>());
    });
    return std::move(*v);
}
template <typename V, bool Big = false, typename... Opt>
void encode(Opt... opt)
{
    sink<> s;
    const V v = arbitrary<V>();
    nth<std::variant_size_v<V>>(v.index(), [&]<std::size_t I>() {
        auto & alt = *std::get_if<I>(&v);
        measure<> m;
        m(alt);
        auto size = ids<V>::size + m.off;
        zpp::bits::out out{s.span, Opt(opt)...};
        out.reset(s.pos);
        auto r = out(v);
        if (success(r)) {
            vp_cover("written");
            vp_assert(size <= s.room() && out.position() == s.pos + size, "the identifier and the alternative");
            if (ids<V>::size == 3) {
                vp_assert(le(s.p + s.pos, ids<V>::size) == ids<V>::template at<I>, "the identifier of the alternative"); // a byte string
            } else {
                vp_assert(word<Big>(s.p + s.pos, ids<V>::size) == ids<V>::template at<I>, "the identifier of the alternative");
            }
            spell<Big> w{s.p + s.pos + ids<V>::size};
            w(alt);
            vp_assert(w.ok, "followed by the alternative");
            vp_assert(s.frame(s.pos, s.pos + size), "bytes outside are unchanged");
        } else {
            vp_cover("refused");
            vp_assert(r == out_of_range && size > s.room(), "refused only when it does not fit");
        }
    });
}
template <typename V, bool Big = false, typename... Opt>
void decode(Opt... opt)
{
    vp_throw_ok(1);
    source<> s;
    auto live = vp_heap_live();
    {
        V v = arbitrary<V>();
        auto before = v.index();
        auto left = s.n - s.pos;
        bool has = left >= ids<V>::size;
        auto id = !has ? 0 : ids<V>::size == 3 ? le(s.p + s.pos, ids<V>::size) : word<Big>(s.p + s.pos, ids<V>::size);
        std::size_t which = std::variant_size_v<V>;
        [&]<std::size_t... I>(std::index_sequence<I...>) { ((has && id == ids<V>::template at<I> ? void(which = I) : void()), ...); }(std::make_index_sequence<std::variant_size_v<V>>{});
        which = vp_pick(which, std::variant_size_v<V>);
        zpp::bits::in in{s.span, Opt(opt)...};
        in.reset(s.pos);
        auto r = in(v);
        vp_assert(in.position() >= s.pos && in.position() <= s.n, "position stays inside");
        vp_assert(!v.valueless_by_exception(), "still a value");
        if (which == std::variant_size_v<V>) {
            vp_cover("unknown or truncated");
            vp_assert(r == (has ? std::errc::bad_message : out_of_range), "an unknown identifier is a bad message");
            vp_assert(v.index() == before, "and the variant keeps its alternative");
        } else {
            nth<std::variant_size_v<V>>(which, [&]<std::size_t I>() {
                scan<Big> need{s.p + s.pos + ids<V>::size, left - ids<V>::size};
                need.template of<std::variant_alternative_t<I, V>>();
                if (success(r)) {
                    vp_cover("read");
                    vp_assert(need.ok, "only when the alternative is there");
                    vp_assert(v.index() == I, "the same alternative");
                    vp_assert(in.position() == s.pos + ids<V>::size + need.off, "exactly the identifier and the alternative");
                    spell<Big> w{s.p + s.pos + ids<V>::size, 0, true, true};
                    w(*std::get_if<I>(&v));
                    vp_assert(w.ok, "with the value read");
                } else {
                    vp_cover("truncated");
                    vp_assert(r == out_of_range && !need.ok, "refused only when truncated");
                    vp_assert(v.index() == I || v.index() == before, "no other alternative");
                }
            });
        }
    }
    vp_assert(vp_heap_live() == live, "what was held before is released");
}
using common = std::variant<u32, std::string, u8>;
using classes = std::variant<plain, std::vector<u16>>;
using closed = std::variant<u8, hidden>;
using single = std::variant<u16>;
#define B(name, V) PROOF(encode_##name) { encode<V>(); } PROOF(decode_##name) { decode<V>(); }
B(common, common)
B(classes, classes)
B(named, named)
B(tagged, tagged)
B(lettered, lettered)
B(closed, closed)
B(single, single)
#define BO(name, V, opt) PROOF(encode_##name) { encode<V, true>(opt{}); } PROOF(decode_##name) { decode<V, true>(opt{}); }
BO(common_big, common, endian::big)
BO(named_big, named, endian::big)
BO(tagged_big, tagged, endian::big)
// an identifier known beforehand: the alternative alone
template <typename V, std::size_t I>
void known_out(auto wrap)
{
        sink<> s;
        V v(std::in_place_index<I>, fresh<std::variant_alternative_t<I, V>>());
        measure<> m;
        m(*std::get_if<I>(&v));
        zpp::bits::out out{s.span};
        out.reset(s.pos);
        auto r = out(wrap(v));
        if (success(r)) {
            vp_cover("written");
            vp_assert(out.position() == s.pos + m.off, "the alternative without an identifier");
            spell<> w{s.p + s.pos};
            w(*std::get_if<I>(&v));
            vp_assert(w.ok, "the alternative");
            vp_assert(s.frame(s.pos, s.pos + m.off), "bytes outside are unchanged");
        } else {
            vp_cover("refused");
            vp_assert(r == out_of_range && m.off > s.room(), "refused only when it does not fit");
        }
}
template <typename V, std::size_t I>
void known_in(auto in_wrap)
{
    source<> s;
    V v = arbitrary<V>();
    auto before = v.index();
    scan<> need{s.p + s.pos, s.n - s.pos};
    need.template of<std::variant_alternative_t<I, V>>();
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = in(in_wrap(v));
    if (success(r)) {
        vp_cover("read");
        vp_assert(need.ok && in.position() == s.pos + need.off, "exactly the alternative");
        vp_assert(v.index() == I, "the known alternative");
        spell<> w{s.p + s.pos, 0, true, true};
        w(*std::get_if<I>(&v));
        vp_assert(w.ok, "with the value read");
    } else {
        vp_cover("truncated");
        vp_assert(r == out_of_range && !need.ok, "refused only when truncated");
        vp_assert(v.index() == I || v.index() == before, "no other alternative");
    }
}
#define K(name, V, I, ...) \
    PROOF(known_##name##_out) { known_out<V, I>([](auto & v) { return zpp::bits::known_id<__VA_ARGS__>(v); }); } \
    PROOF(known_##name##_in) { vp_throw_ok(1); known_in<V, I>([](auto & v) { return zpp::bits::known_id<__VA_ARGS__>(v); }); }
K(one, named, 0, "one!"_s)
K(two, named, 1, "two!"_s)
K(three, named, 2, "3333"_s)
K(tag_b, tagged, 1, "v1::tag_b"_sha256, 8)
K(abd, lettered, 1, "abd"_s)
K(byte0, common, 0, std::byte{0})
K(byte2, common, 2, std::byte{2})
K(hidden, closed, 1, std::byte{1})
// an identifier known at run time
template <typename V, typename Id>
void known_dynamic()
{
    source<> s;
    V v = arbitrary<V>();
    auto before = v.index();
    auto id = vp_nondet_u64() & (sizeof(Id) < 8 ? (1ull << (8 * sizeof(Id) % 64)) - 1 : ~0ull);
    std::size_t which = std::variant_size_v<V>;
    [&]<std::size_t... I>(std::index_sequence<I...>) { ((id == ids<V>::template at<I> ? void(which = I) : void()), ...); }(std::make_index_sequence<std::variant_size_v<V>>{});
    which = vp_pick(which, std::variant_size_v<V>);
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = in(zpp::bits::known_id(Id(id), v));
    if (which == std::variant_size_v<V>) {
        vp_cover("unknown");
        vp_assert(r == std::errc::bad_message && v.index() == before && in.position() == s.pos, "an unknown identifier is a bad message");
        return;
    }
    nth<std::variant_size_v<V>>(which, [&]<std::size_t I>() {
        scan<> need{s.p + s.pos, s.n - s.pos};
        need.template of<std::variant_alternative_t<I, V>>();
        if (success(r)) {
            vp_cover("read");
            vp_assert(need.ok && in.position() == s.pos + need.off, "exactly the alternative");
            vp_assert(v.index() == I, "the identified alternative");
            spell<> w{s.p + s.pos, 0, true, true};
            w(*std::get_if<I>(&v));
            vp_assert(w.ok, "with the value read");
        } else {
            vp_cover("truncated");
            vp_assert(r == out_of_range && !need.ok, "refused only when truncated");
        }
    });
}
PROOF(known_at_run_time) { vp_throw_ok(1); known_dynamic<named, u32>(); }
PROOF(known_at_run_time_64) { known_dynamic<tagged, u64>(); }
PROOF(known_at_run_time_byte) { vp_throw_ok(1); known_dynamic<common, std::byte>(); }
// no value at all
struct fragile
{
    fragile() = default;
    fragile(const fragile & o) : x(o.x) {}
    fragile & operator=(const fragile & o) { x = o.x; return *this; }
    u8 x{};
    using serialize = zpp::bits::members<1>;
};
PROOF(valueless)
{
    sink<> s;
    std::variant<u32, fragile> v{u32(7)};
    // valueless_by_exception is the state a throwing emplace leaves behind
    auto raw = reinterpret_cast<unsigned char *>(&v);
    for (std::size_t i = 0; i < sizeof(v) && !v.valueless_by_exception(); ++i) {
        auto old = raw[i];
        raw[i] = 0xff;
        if (!v.valueless_by_exception()) {
            raw[i] = old;
        }
    }
    vp_assert(v.valueless_by_exception(), "valueless");
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = out(v);
    vp_assert(r == std::errc::invalid_argument, "an invalid argument");
    vp_assert(out.position() == s.pos && s.frame(0, 0), "nothing is written");
    vp_cover("reported");
}
