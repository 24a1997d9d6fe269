// C08: the allocation limit of an input.
#include "varint.h"
using namespace vp;
using namespace zpp::bits::options;

// A resizable sequence of E that records what it was asked to allocate.
template <typename E>
struct store
{
    using value_type = E;
    using iterator = E *;
    using const_iterator = const E *;
    std::size_t used = vp_nondet_size();
    std::size_t capacity = vp_nondet_size();
    E * p = nullptr;
    u64 resized = 0;
    std::size_t asked = 0;
    store()
    {
        vp_assume(used <= capacity);
        vp_assume(capacity <= (1ull << 40) / sizeof(E));
        p = static_cast<E *>(vp_region(capacity * sizeof(E)));
    }
    store(const store &) = delete;
    E * data() { return p; }
    const E * data() const { return p; }
    std::size_t size() const { return used; }
    E & operator[](std::size_t i) { return p[i]; }
    const E & operator[](std::size_t i) const { return p[i]; }
    E * begin() { return p; }
    E * end() { return p + used; }
    const E * begin() const { return p; }
    const E * end() const { return p + used; }
    void resize(std::size_t n)
    {
        ++resized;
        asked = n;
        if (n > capacity) {
            vp_throw_exit();
        }
        used = n;
    }
};
struct pixel { u8 r, g; u16 b; auto each(auto f) { f(r), f(g), f(b); } auto each(auto f) const { f(r), f(g), f(b); } };
struct padded { u8 a; u32 b; auto each(auto f) { f(a), f(b); } auto each(auto f) const { f(a), f(b); } };

template <typename E, typename P, u64 Limit, bool Big = false, typename Byte = std::byte, typename... Opt>
void limited(Opt... opt)
{
    vp_throw_ok(1);
    source<Byte> s;
    store<E> t;
    const auto left = s.n - s.pos;
    const auto used = t.used;
    u64 count = 0;
    if (left >= sizeof(P)) {
        count = word<Big>(s.p + s.pos, sizeof(P));
    }
    zpp::bits::in in{s.span, alloc_limit<Limit>{}, Opt(opt)...};
    in.reset(s.pos);
    auto r = in(t);
    constexpr u64 most = Limit / sizeof(E);
    vp_assert(t.resized == 0 || t.asked <= most, "never allocates more than the limit");
    vp_assert(t.resized <= 1, "allocates once");
    if (left < sizeof(P)) {
        vp_assert(r == out_of_range && t.resized == 0 && t.used == used, "no length to read");
        vp_cover("no length");
    } else if (count > most) {
        vp_assert(r == std::errc::message_size, "a length beyond the limit is a message size error");
        vp_assert(t.resized == 0 && t.used == used, "before anything is allocated");
        vp_assert(in.position() <= s.n, "inside the input");
        vp_cover("beyond the limit");
    } else {
        // as without the limit
        vp_assert(t.resized == 1 && t.asked == count, "the announced length is allocated");
        const bool enough = count <= (left - sizeof(P)) / flat<E>();
        vp_assert(success(r) == enough, "accepted exactly when the elements are there");
        vp_assert(success(r) || r == out_of_range, "truncated input is out of range");
        if (success(r)) {
            vp_cover("read");
            vp_assert(t.used == count && in.position() == s.pos + sizeof(P) + count * flat<E>(), "all of them and no more");
            spell<Big, P> w{s.p + s.pos};
            w.template one<P>(t);
            vp_assert(w.ok, "the elements");
        } else {
            vp_cover("truncated");
        }
    }
}
#define L(name, E, P, limit, big, ...) PROOF(name) { limited<E, P, limit, big, std::byte>(__VA_ARGS__); }
L(bytes_0, u8, u32, 0, false)
L(bytes_1, u8, u32, 1, false)
L(bytes_1000, u8, u32, 1000, false)
L(chars_4095, char, u32, 4095, false)
L(words_1000, u16, u32, 1000, false)
L(words_1001, u16, u32, 1001, false)
L(words_1, u16, u32, 1, false)
L(dwords_1023, u32, u32, 1023, false)
L(quads_1000, u64, u32, 1000, false)
L(quads_4g, u64, u64, (1ull << 32), false, size8b{})
L(quads_huge, u64, u64, (~0ull - 1), false, size8b{})
L(bytes_huge, u8, u64, (~0ull - 1), false, size8b{})
L(words_size8, u16, u64, 1000, false, size8b{})
L(words_size2, u16, u16, 1000, false, size2b{})
L(bytes_size1, u8, u8, 100, false, size1b{})
L(words_size1, u16, u8, 100, false, size1b{})
L(pixels, pixel, u32, 1000, false)
L(padded_objects, padded, u32, 1000, false)
L(words_big, u16, u32, 1000, true, zpp::bits::endian::big{})
L(quads_big_size8, u64, u64, 4000, true, zpp::bits::endian::big{}, size8b{})
PROOF(bytes_from_chars) { limited<u8, u32, 1000, false, char>(); }
PROOF(bytes_from_const) { limited<u8, u32, 1000, false, const std::byte>(); }

// the prefix as a variable-length integer
template <typename E, u64 Limit>
void varint_limited()
{
    vp_throw_ok(1);
    source<> s;
    store<E> t;
    const reading<zpp::bits::vsize_t, std::byte> want(s.p + s.pos, s.n - s.pos);
    zpp::bits::in in{s.span, alloc_limit<Limit>{}, size_varint{}};
    in.reset(s.pos);
    auto r = in(t);
    constexpr u64 most = Limit / sizeof(E);
    vp_assert(t.resized == 0 || t.asked <= most, "never allocates more than the limit");
    if (!want.complete) {
        vp_assert(failure(r) && t.resized == 0, "no length to read");
        vp_cover("no length");
    } else if (want.n > most) {
        vp_assert(r == std::errc::message_size && t.resized == 0, "a length beyond the limit is a message size error");
        vp_cover("beyond the limit");
    } else {
        vp_assert(t.resized == 1 && t.asked == want.n, "the announced length is allocated");
        vp_assert(success(r) == (want.n * sizeof(E) <= s.n - s.pos - want.size), "accepted exactly when the elements are there");
        vp_cover(success(r) ? "read" : "truncated");
    }
}
PROOF(varint_bytes) { varint_limited<u8, 1000>(); }
PROOF(varint_quads) { varint_limited<u64, 1000>(); }

// selected for one object only
PROOF(sized_object)
{
    vp_throw_ok(1);
    source<> s;
    zpp::bits::sized_item<std::vector<u16>, u16> v;
    zpp::bits::in in{s.span, alloc_limit<1000>{}};
    in.reset(s.pos);
    auto r = in(v);
    if (s.n - s.pos >= 2) {
        auto count = le(s.p + s.pos, 2);
        vp_assert((r == std::errc::message_size) == (count > 500), "a length beyond the limit is a message size error");
        vp_assert(count <= 500 || vp_heap_live() == 0, "before anything is allocated");
        vp_assert(v.size() <= 500, "never more than the limit");
        vp_cover(success(r) ? "read" : "refused");
    }
}
// the standard containers: the block they allocate
template <typename C, u64 Limit>
void allocated()
{
    vp_throw_ok(1);
    source<> s;
    {
        C v;
        zpp::bits::in in{s.span, alloc_limit<Limit>{}};
        in.reset(s.pos);
        auto r = in(v);
        vp_assert(v.size() * sizeof(v[0]) <= Limit, "never larger than the limit");
        vp_assert(vp_heap_live() <= 1, "one block at most");
        if (vp_heap_live() && v.size()) {
            vp_assert(v.capacity() * sizeof(v[0]) <= (Limit < 30 ? 30 : Limit), "allocated within the limit");
        }
        if (s.n - s.pos >= 4 && le(s.p + s.pos, 4) > Limit / sizeof(v[0])) {
            vp_assert(r == std::errc::message_size && vp_heap_live() == 0, "refused before anything is allocated");
            vp_cover("refused");
        } else {
            vp_assert(r != std::errc::message_size, "only for a length beyond the limit");
            vp_cover("accepted");
        }
    }
    vp_assert(vp_heap_live() == 0, "everything is released");
}
PROOF(vector_bytes) { allocated<std::vector<std::byte>, 1000>(); }
PROOF(vector_dwords) { allocated<std::vector<u32>, 1002>(); }
PROOF(string) { allocated<std::string, 1000>(); }

// the limit reaches sequences inside other objects
struct outer { u8 a; store<u16> v; u8 b; };
PROOF(nested)
{
    vp_throw_ok(1);
    source<> s;
    outer v;
    zpp::bits::in in{s.span, alloc_limit<1000>{}};
    in.reset(s.pos);
    auto r = in(v);
    vp_assert(v.v.resized == 0 || v.v.asked <= 500, "never allocates more than the limit");
    if (s.n - s.pos >= 5) {
        auto count = le(s.p + s.pos + 1, 4);
        vp_assert((r == std::errc::message_size) == (count > 500), "a length beyond the limit is a message size error");
        vp_assert(success(r) == (count <= 500 && s.n - s.pos >= 6 + 2 * count), "otherwise as without the limit");
        vp_cover(success(r) ? "read" : r == out_of_range ? "truncated" : "refused");
    }
}
using maybe_words = std::optional<std::vector<u16>>;
PROOF(in_optional)
{
    vp_throw_ok(1);
    source<> s;
    maybe_words v;
    zpp::bits::in in{s.span, alloc_limit<1000>{}};
    in.reset(s.pos);
    auto r = in(v);
    if (s.n - s.pos >= 5 && s.p[s.pos] != std::byte{}) {
        auto count = le(s.p + s.pos + 1, 4);
        vp_assert((r == std::errc::message_size) == (count > 500), "a length beyond the limit is a message size error");
        vp_cover(success(r) ? "read" : r == out_of_range ? "truncated" : "refused");
    }
}
using choice_t = std::variant<u8, std::vector<u16>>;
PROOF(in_variant)
{
    vp_throw_ok(1);
    source<> s;
    choice_t v;
    zpp::bits::in in{s.span, alloc_limit<1000>{}};
    in.reset(s.pos);
    auto r = in(v);
    if (s.n - s.pos >= 5 && s.p[s.pos] == std::byte{1}) {
        auto count = le(s.p + s.pos + 1, 4);
        vp_assert((r == std::errc::message_size) == (count > 500), "a length beyond the limit is a message size error");
        vp_cover(success(r) ? "read" : r == out_of_range ? "truncated" : "refused");
    }
}
// without the option there is no limit
PROOF(no_limit)
{
    vp_throw_ok(1);
    source<> s;
    store<u16> t;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = in(t);
    if (s.n - s.pos >= 4) {
        vp_assert(t.resized == 1 && t.asked == le(s.p + s.pos, 4), "the announced length is allocated");
        vp_assert(r != std::errc::message_size, "never a message size error");
        vp_cover("read");
    }
}
