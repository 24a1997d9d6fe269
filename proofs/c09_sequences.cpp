// C09: element count prefix, then every element in order; decoding builds a
// sequence of exactly that length with exactly those elements.
#include "wire.h"
using namespace vp;
using namespace zpp::bits::options;

// Any element whatsoever.  Ghost state: which element is due, and where in
// the archive it has to start.
namespace ghost
{
const char * base;
std::size_t next, count, position;
bool failed;
} // namespace ghost
struct elem
{
    u64 x;
    u32 y;
    static zpp::bits::errc serialize(auto & ar, auto & self)
    {
        vp_assert(!ghost::failed, "nothing after a failure");
        vp_assert(reinterpret_cast<const char *>(&self) == ghost::base + ghost::next * sizeof(elem), "the element that is due");
        vp_assert(ghost::next < ghost::count, "only as many as counted");
        vp_assert(ar.position() == ghost::position, "right after the previous one");
        if (vp_nondet_u8() & 1) {
            ghost::failed = true;
            return std::errc::protocol_error;
        }
        auto k = vp_nondet_size();
        vp_assume(k <= ar.remaining_data().size());
        ar.position() += k;
        ++ghost::next;
        ghost::position += k;
        return {};
    }
};
static_assert(sizeof(elem) == 16);
template <typename S, typename... Opt>
void encode_any(Opt... opt)
{
    sink<> s;
    auto n = vp_nondet_size();
    vp_assume(n <= (sizeof(S) < 8 ? (1ull << (8 * sizeof(S) % 64)) - 1 : ~0ull) && n < (1ull << 40) / sizeof(elem));
    std::span<const elem> v{static_cast<const elem *>(vp_region(n * sizeof(elem))), n};
    ghost::base = reinterpret_cast<const char *>(v.data());
    ghost::next = 0;
    ghost::count = n;
    ghost::failed = false;
    ghost::position = s.pos + sizeof(S);
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(v);
    if (success(r)) {
        vp_cover("written");
        vp_assert(!ghost::failed, "success means no element failed");
        vp_assert(ghost::next == n, "every element");
        vp_assert(out.position() == ghost::position, "nothing after the elements");
        vp_assert(s.room() >= sizeof(S) && le(s.p + s.pos, sizeof(S)) == n, "the count comes first");
    } else {
        vp_cover("failed");
        vp_assert(ghost::failed ? r == std::errc::protocol_error : (r == out_of_range && ghost::next == 0 && s.room() < sizeof(S)), "the element's own error");
    }
}
PROOF(encode_any_1) { encode_any<u8>(size1b{}); }
PROOF(encode_any_2) { encode_any<u16>(size2b{}); }
PROOF(encode_any_4) { encode_any<u32>(); }
PROOF(encode_any_8) { encode_any<u64>(size8b{}); }
// the elements a decode touches are those of the target
template <typename S, typename... Opt>
void decode_any(Opt... opt)
{
    source<> s;
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 40) / sizeof(elem));
    std::span<elem> v{static_cast<elem *>(vp_region(n * sizeof(elem))), n};
    auto count = s.n - s.pos >= sizeof(S) ? le(s.p + s.pos, sizeof(S)) : 0;
    ghost::base = reinterpret_cast<const char *>(v.data());
    ghost::next = 0;
    ghost::count = count;
    ghost::failed = false;
    ghost::position = s.pos + sizeof(S);
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto r = in(v);
    if (success(r)) {
        vp_cover("read");
        vp_assert(!ghost::failed, "success means no element failed");
        vp_assert(v.size() == count && reinterpret_cast<const char *>(v.data()) == ghost::base, "the announced number of elements in place");
        vp_assert(count <= n, "never more than the target has");
        vp_assert(ghost::next == count, "every element");
        vp_assert(in.position() == ghost::position, "nothing after the elements");
    } else {
        vp_cover("failed");
        if (ghost::failed) {
            vp_assert(r == std::errc::protocol_error, "the element's own error");
        } else {
            vp_assert(r == out_of_range && ghost::next == 0, "otherwise no element was touched");
            vp_assert(s.n - s.pos < sizeof(S) || count > n, "a count the target has no room for");
        }
    }
}
PROOF(decode_any_1) { decode_any<u8>(size1b{}); }
PROOF(decode_any_2) { decode_any<u16>(size2b{}); }
PROOF(decode_any_4) { decode_any<u32>(); }
PROOF(decode_any_8) { decode_any<u64>(size8b{}); }
// arrays and unsized sequences: exactly their own elements, no prefix
PROOF(encode_unsized_any)
{
    sink<> s;
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 40) / sizeof(elem));
    std::span<const elem> v{static_cast<const elem *>(vp_region(n * sizeof(elem))), n};
    ghost::base = reinterpret_cast<const char *>(v.data());
    ghost::next = 0;
    ghost::count = n;
    ghost::failed = false;
    ghost::position = s.pos;
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = out(zpp::bits::unsized(v));
    vp_assert(success(r) ? ghost::next == n && !ghost::failed : ghost::failed && r == std::errc::protocol_error, "every element unless one fails");
    vp_assert(!success(r) || out.position() == ghost::position, "nothing but the elements");
    if (success(r)) {
        vp_cover("written");
    }
}
PROOF(decode_unsized_any)
{
    source<> s;
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 40) / sizeof(elem));
    std::span<elem> v{static_cast<elem *>(vp_region(n * sizeof(elem))), n};
    ghost::base = reinterpret_cast<const char *>(v.data());
    ghost::next = 0;
    ghost::count = n;
    ghost::failed = false;
    ghost::position = s.pos;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = in(zpp::bits::unsized(v));
    vp_assert(success(r) ? ghost::next == n && !ghost::failed : ghost::failed && r == std::errc::protocol_error, "every element unless one fails");
    vp_assert(!success(r) || in.position() == ghost::position, "nothing but the elements");
    vp_assert(v.size() == n && reinterpret_cast<const char *>(v.data()) == ghost::base, "the same elements");
    if (success(r)) {
        vp_cover("read");
    }
}
// A container with nothing but resize, size and forward iterators, over
// storage that exists already; the elements sit a stride apart.
template <typename T>
struct chain
{
    struct node { T value; u64 pad; };
    using value_type = T;
    template <typename N>
    struct iter
    {
        using iterator_category = std::forward_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using pointer = N *;
        using reference = decltype((std::declval<N &>().value));
        N * at;
        reference operator*() const { return at->value; }
        iter & operator++() { ++at; return *this; }
        iter operator++(int) { auto i = *this; ++at; return i; }
        bool operator==(const iter &) const = default;
    };
    using iterator = iter<node>;
    using const_iterator = iter<const node>;
    node * nodes;
    std::size_t used, capacity;
    std::size_t resized = 0;
    std::size_t size() const { return used; }
    void resize(std::size_t n)
    {
        ++resized;
        if (n > capacity) {
            vp_throw_exit();
        }
        used = n;
    }
    iterator begin() { return {nodes}; }
    iterator end() { return {nodes + used}; }
    const_iterator begin() const { return {nodes}; }
    const_iterator end() const { return {nodes + used}; }
    chain()
    {
        capacity = vp_nondet_size();
        vp_assume(capacity < (1ull << 40) / sizeof(node));
        nodes = static_cast<node *>(vp_region(capacity * sizeof(node)));
        used = vp_nondet_size();
        vp_assume(used <= capacity);
    }
};
template <bool Big, typename S, typename... Opt>
void encode_chain(Opt... opt)
{
    sink<> s;
    const chain<u16> v;
    vp_assume(v.used <= (sizeof(S) < 8 ? (1ull << (8 * sizeof(S) % 64)) - 1 : ~0ull));
    auto j = vp_nondet_size();
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(v);
    auto size = sizeof(S) + 2 * v.used;
    if (success(r)) {
        vp_cover("written");
        vp_assert(out.position() == s.pos + size, "a count and the elements");
        vp_assert(word<Big>(s.p + s.pos, sizeof(S)) == v.used, "the count comes first");
        if (j < v.used) {
            vp_assert(word<Big>(s.p + s.pos + sizeof(S) + 2 * j, 2) == v.nodes[j].value, "each element in its place");
        }
        vp_assert(s.frame(s.pos, s.pos + size), "bytes outside are unchanged");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range && s.room() < size, "refused only when it does not fit");
    }
}
PROOF(encode_chain_4) { encode_chain<false, u32>(); }
PROOF(encode_chain_2_big) { encode_chain<true, u16>(size2b{}, endian::big{}); }
PROOF(encode_chain_8) { encode_chain<false, u64>(size8b{}); }
template <bool Big, typename S, typename... Opt>
void decode_chain(Opt... opt)
{
    vp_throw_ok(1);
    source<> s;
    chain<u16> v;
    auto j = vp_nondet_size();
    auto i = vp_nondet_size();
    vp_assume(i < v.capacity);
    auto pad = v.nodes[i].pad;
    auto old = v.nodes[i].value;
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto left = s.n - s.pos;
    auto r = in(v);
    auto count = left >= sizeof(S) ? word<Big>(s.p + s.pos, sizeof(S)) : 0;
    vp_assert(v.nodes[i].pad == pad, "nothing between the elements changes");
    if (success(r)) {
        vp_cover("read");
        vp_assert(v.used == count && v.resized == 1, "exactly the announced length");
        vp_assert(left >= sizeof(S) && (left - sizeof(S)) / 2 >= count, "all of them were there");
        vp_assert(in.position() == s.pos + sizeof(S) + 2 * count, "consumes the count and the elements");
        if (j < count) {
            vp_assert(word<Big>(s.p + s.pos + sizeof(S) + 2 * j, 2) == v.nodes[j].value, "each element from its place");
        }
        vp_assert(i < count || v.nodes[i].value == old, "nothing after the last element changes");
    } else {
        vp_cover("truncated");
        vp_assert(r == out_of_range, "truncated");
        vp_assert(left < sizeof(S) || (left - sizeof(S)) / 2 < count, "refused only when truncated");
    }
}
PROOF(decode_chain_4) { decode_chain<false, u32>(); }
PROOF(decode_chain_2_big) { decode_chain<true, u16>(size2b{}, endian::big{}); }
PROOF(decode_chain_1) { decode_chain<false, u8>(size1b{}); }
PROOF(decode_chain_8) { decode_chain<false, u64>(size8b{}); }
// A target that cannot grow: a span takes at most its size
template <typename T, bool Big, typename S, typename... Opt>
void decode_span(Opt... opt)
{
    source<> s;
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 40) / sizeof(T));
    auto p = static_cast<T *>(vp_region(n * sizeof(T)));
    std::span<T> v{p, n};
    auto i = vp_nondet_size();
    vp_assume(i < n);
    auto old = p[i];
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto left = s.n - s.pos;
    auto count = left >= sizeof(S) ? word<Big>(s.p + s.pos, sizeof(S)) : 0;
    auto r = in(v);
    if (success(r)) {
        vp_cover("read");
        vp_assert(v.data() == p && v.size() == count && count <= n, "the announced length, within the target");
        vp_assert(left >= sizeof(S) && (left - sizeof(S)) / sizeof(T) >= count, "all of them were there");
        vp_assert(in.position() == s.pos + sizeof(S) + sizeof(T) * count, "consumes the count and the elements");
        vp_assert(i < count ? word<Big>(s.p + s.pos + sizeof(S) + sizeof(T) * i, sizeof(T)) == p[i] : p[i] == old, "each element from its place and nothing else");
    } else {
        vp_cover("rejected");
        vp_assert(r == out_of_range, "out of range");
        vp_assert(left < sizeof(S) || count > n || (left - sizeof(S)) / sizeof(T) < count, "rejected only when too long or truncated");
        vp_assert(i < count || p[i] == old, "nothing beyond the announced length changes");
    }
}
PROOF(decode_span_u8) { decode_span<u8, false, u32>(); }
PROOF(decode_span_u32) { decode_span<u32, false, u32>(); }
PROOF(decode_span_u64_size8) { decode_span<u64, false, u64>(size8b{}); }
PROOF(decode_span_big) { decode_span<u16, true, u16>(size2b{}, endian::big{}); }
// unsized: the elements of the target, no prefix
template <typename T, bool Big, typename... Opt>
void unsized_in(Opt... opt)
{
    source<> s;
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 40) / sizeof(T));
    auto p = static_cast<T *>(vp_region(n * sizeof(T)));
    std::vector<T> v(p, p + n);
    auto i = vp_nondet_size();
    vp_assume(i < n);
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    zpp::bits::errc r;
    if constexpr (sizeof...(Opt) == 0) {
        r = in(zpp::bits::unsized(v));
    } else {
        r = in(v);
    }
    if (success(r)) {
        vp_cover("read");
        vp_assert(v.size() == n, "the target keeps its length");
        vp_assert(in.position() == s.pos + sizeof(T) * n, "consumes its elements");
        vp_assert(word<Big>(s.p + s.pos + sizeof(T) * i, sizeof(T)) == v[i], "each element from its place");
    } else {
        vp_cover("truncated");
        vp_assert(r == out_of_range && (s.n - s.pos) / sizeof(T) < n, "rejected only when truncated");
    }
}
PROOF(unsized_in_u8) { unsized_in<u8, false>(); }
PROOF(unsized_in_u32) { unsized_in<u32, false>(); }
PROOF(unsized_in_no_size) { unsized_in<u32, false>(no_size{}); }
PROOF(unsized_in_big) { unsized_in<u16, true>(no_size{}, endian::big{}); }
template <typename T, bool Big, typename... Opt>
void unsized_out(Opt... opt)
{
    sink<> s;
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 40) / sizeof(T));
    auto p = static_cast<T *>(vp_region(n * sizeof(T)));
    std::vector<T> v(p, p + n);
    auto i = vp_nondet_size();
    vp_assume(i < n);
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    zpp::bits::errc r;
    if constexpr (sizeof...(Opt) == 0) {
        r = out(zpp::bits::unsized(v));
    } else {
        r = out(v);
    }
    if (success(r)) {
        vp_cover("written");
        vp_assert(out.position() == s.pos + sizeof(T) * n, "its elements and nothing else");
        vp_assert(word<Big>(s.p + s.pos + sizeof(T) * i, sizeof(T)) == p[i], "each element in its place");
        vp_assert(s.frame(s.pos, s.pos + sizeof(T) * n), "bytes outside are unchanged");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range && s.room() / sizeof(T) < n, "refused only when it does not fit");
    }
}
PROOF(unsized_out_u8) { unsized_out<u8, false>(); }
PROOF(unsized_out_u32) { unsized_out<u32, false>(); }
PROOF(unsized_out_no_size) { unsized_out<u32, false>(no_size{}); }
PROOF(unsized_out_big) { unsized_out<u16, true>(no_size{}, endian::big{}); }
// both ways through the same buffer
template <typename T, typename... Opt>
void round_trip(Opt... opt)
{
    vp_throw_ok(1);
    sink<> s;
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 40) / sizeof(typename T::value_type) && n < (1ull << 32));
    auto p = static_cast<typename T::value_type *>(vp_region(n * sizeof(typename T::value_type)));
    const T v(p, p + n);
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    if (success(out(v))) {
        zpp::bits::in in{s.span, Opt(opt)...};
        in.reset(s.pos);
        T w{};
        auto r = in(w);
        vp_assert(success(r), "what was written can be read");
        vp_assert(in.position() == out.position(), "exactly what was written is consumed");
        vp_assert(w.size() == n, "the same length");
        auto i = vp_nondet_size();
        vp_assume(i < n);
        vp_assert(w[i] == p[i], "the same elements");
        vp_cover("round trip");
    }
}
PROOF(round_trip_string) { round_trip<std::string>(); }
PROOF(round_trip_vector) { round_trip<std::vector<u32>>(); }
PROOF(round_trip_size8) { round_trip<std::vector<u16>>(size8b{}); }
