// vp-irv: --unroll 1
// C22: maps and sets.  Assumed of the container: insert takes an element,
// clear drops all, iteration visits them in some order; what the archive asks
// of it is recorded.
#include "c22_types.h"
using namespace vp;
using namespace zpp::bits::options;
using zpp::bits::endian::big;

// a node, as the elements of a tree are
template <typename E>
struct node
{
    u32 pad;
    E e;
    u8 more;
};
// Elements of fixed size, any number of them
template <typename K, typename M = void>
struct chest : types<K, M>
{
    using value_type = typename types<K, M>::value_type;
    using element = typename types<K, M>::element;
    template <typename V>
    struct walk
    {
        using value_type = chest::value_type;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        using reference = V &;
        using pointer = V *;
        node<element> * p;
        V & operator*() const { return reinterpret_cast<V &>(p->e); }
        walk & operator++() { ++p; return *this; }
        walk operator++(int) { auto w = *this; ++p; return w; }
        bool operator==(const walk & o) const = default;
    };
    using iterator = walk<value_type>;
    using const_iterator = walk<const value_type>;
    std::size_t used = vp_nondet_size(), capacity = vp_nondet_size();
    node<element> * nodes;
    u64 cleared = 0;
    chest()
    {
        vp_assume(used <= capacity && capacity < (1ull << 40) / sizeof(node<element>));
        nodes = static_cast<node<element> *>(vp_region(capacity * sizeof(node<element>)));
    }
    chest(const chest &) = delete;
    std::size_t size() const { return used; }
    walk<value_type> begin() { return {nodes}; }
    walk<value_type> end() { return {nodes + used}; }
    walk<const value_type> begin() const { return {nodes}; }
    walk<const value_type> end() const { return {nodes + used}; }
    void clear()
    {
        ++cleared;
        used = 0;
    }
    void insert(element && e)
    {
        if (used == capacity) {
            vp_throw_exit(); // no memory
        }
        nodes[used].e = e;
        ++used;
    }
};
template <typename K, typename M>
inline std::size_t element_size()
{
    if constexpr (std::is_void_v<M>) {
        return flat<K>();
    } else {
        return flat<K>() + flat<M>();
    }
}
template <bool Big, typename K, typename M, typename S>
bool spelled(const chest<K, M> & c, std::size_t j, const std::byte * p)
{
    spell<Big, S> w{p, 0, true, true};
    if constexpr (std::is_void_v<M>) {
        w(c.nodes[j].e);
    } else {
        w(c.nodes[j].e.first, c.nodes[j].e.second);
    }
    return w.ok;
}
template <typename K, typename M, bool Big = false, typename S = u32, typename... Opt>
void encode(Opt... opt)
{
    sink<> s;
    const chest<K, M> c;
    vp_assume(c.used <= (sizeof(S) < 8 ? (1ull << (8 * sizeof(S) % 64)) - 1 : ~0ull));
    auto j = vp_nondet_size();
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(c);
    const auto each = element_size<K, M>();
    const auto size = sizeof(S) + each * c.used;
    if (success(r)) {
        vp_cover("written");
        vp_assert(out.position() == s.pos + size, "a count and the elements");
        vp_assert(word<Big>(s.p + s.pos, sizeof(S)) == c.used, "the count comes first");
        if (j < c.used) {
            vp_assert((spelled<Big, K, M, S>(c, j, s.p + s.pos + sizeof(S) + each * j)), "the elements in iteration order");
        }
        vp_assert(s.frame(s.pos, s.pos + size), "bytes outside are unchanged");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range && s.room() < size, "refused only when it does not fit");
        vp_assert(out.position() <= s.n, "position stays inside");
    }
}
template <typename K, typename M, bool Big = false, typename S = u32, typename... Opt>
void decode(Opt... opt)
{
    vp_throw_ok(1);
    source<> s;
    chest<K, M> c;
    auto j = vp_nondet_size();
    const auto left = s.n - s.pos;
    const auto count = left >= sizeof(S) ? word<Big>(s.p + s.pos, sizeof(S)) : 0;
    const auto each = element_size<K, M>();
    const auto first = s.p + s.pos + sizeof(S);
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto r = in(c);
    if (success(r)) {
        vp_cover("read");
        vp_assert(left >= sizeof(S) && (left - sizeof(S)) / each >= count, "all elements were there");
        vp_assert(c.used == count, "exactly as many insertions as announced");
        vp_assert(c.cleared == 1, "the previous content is replaced");
        vp_assert(in.position() == s.pos + sizeof(S) + each * count, "exactly the bytes of the elements");
        if (j < count) {
            vp_assert((spelled<Big, K, M, S>(c, j, first + each * j)), "exactly the elements read");
        }
    } else {
        vp_cover("truncated");
        vp_assert(r == out_of_range, "out of range");
        vp_assert(left < sizeof(S) || (left - sizeof(S)) / each < count, "refused only when truncated");
        vp_assert(in.position() <= s.n, "position stays inside");
        if (left >= sizeof(S)) {
            vp_cover("truncated elements");
            vp_assert(c.cleared == 1, "nothing of the previous content is left");
            vp_assert(c.used == (left - sizeof(S)) / each, "what was complete has been inserted");
            if (j < c.used) {
                vp_assert((spelled<Big, K, M, S>(c, j, first + each * j)), "and nothing else");
            }
        } else {
            vp_assert(c.cleared == 0, "without a count the target is kept");
        }
    }
}
struct plain { u16 a; u32 b; auto operator<=>(const plain &) const = default; auto each(auto f) { f(a), f(b); } auto each(auto f) const { f(a), f(b); } };
#define BOTH(name, ...) \
    PROOF(encode_##name) { encode<__VA_ARGS__>(); } \
    PROOF(decode_##name) { decode<__VA_ARGS__>(); }
BOTH(map, u32, u16)
BOTH(map_u8, u8, u8)
BOTH(map_u64, u64, u64)
BOTH(map_plain, u16, plain)
BOTH(set, u32, void)
BOTH(set_u8, u8, void)
BOTH(set_plain, plain, void)
#define BOTH_OPT(name, opts, ...) \
    PROOF(encode_##name) { encode<__VA_ARGS__> opts; } \
    PROOF(decode_##name) { decode<__VA_ARGS__> opts; }
BOTH_OPT(map_big, (big{}), u32, u16, true)
BOTH_OPT(map_size8, (size8b{}), u16, u64, false, u64)
BOTH_OPT(map_size1, (size1b{}), u64, u8, false, u8)
BOTH_OPT(set_size2_big, (size2b{}, big{}), u64, void, true, u16)

