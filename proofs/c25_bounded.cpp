// vp-irv: --unroll 8
// C25: elements that own objects themselves, and the containers of the library.
// Bounded: at most two elements are announced; before, the target is empty or
// holds what an earlier decoding left.
#include "c25_objects.h"

template <typename T, std::size_t Most = 2>
void few()
{
    vp_throw_ok(1);
    const auto live = ghost::live = vp_nondet_u32();
    const auto heap = vp_heap_live();
    {
        T target;
        for (int i = 0; i < 2; ++i) {
            source<> s;
            if (s.n - s.pos >= 4) {
                // how many are announced
                const u32 count = u32(vp_pick(any_below(Most + 1), Most));
                std::memcpy(s.p + s.pos, &count, 4);
            }
            zpp::bits::in in{s.span};
            in.reset(s.pos);
            if (success(in(target))) {
                vp_cover("decoded");
            } else {
                vp_cover("failed");
            }
            vp_assert(ghost::live == live + held(target), "the target holds every object there is");
        }
    }
    vp_assert(ghost::live == live, "every object is destroyed");
    vp_assert(vp_heap_live() == heap, "every block is freed");
}
PROOF(vector_optional) { few<std::vector<std::optional<tracked>>>(); }
PROOF(vector_unique) { few<std::vector<std::unique_ptr<tracked>>>(); }
PROOF(vector_variant) { few<std::vector<std::variant<tracked, hidden>>, 1>(); }
// Assumed of a container: it takes the elements inserted and drops them on clear
template <typename K, typename M>
struct box_types
{
    using key_type = K;
    using mapped_type = M;
    using value_type = std::pair<const K, M>;
    using element = std::pair<K, M>;
};
template <typename K>
struct box_types<K, void>
{
    using key_type = K;
    using value_type = K;
    using element = K;
};
template <typename K, typename M = void>
struct box : box_types<K, M>
{
    using element = typename box_types<K, M>::element;
    using iterator = element *;
    std::optional<element> e[2];
    std::size_t n = 0;
    std::size_t size() const { return n; }
    element * begin() { return nullptr; }
    element * end() { return nullptr; }
    void clear()
    {
        e[0].reset();
        e[1].reset();
        n = 0;
    }
    void insert(element && x)
    {
        // another with an equal key stays
        if (n < 2 && coin()) {
            e[n++].emplace(std::move(x));
        }
    }
};
template <typename K, typename M>
u64 held(box<K, M> & b)
{
    return ::held(b.e[0]) + ::held(b.e[1]);
}
PROOF(set) { few<box<tracked>>(); }
PROOF(set_hidden) { few<box<hidden>>(); }
PROOF(map) { few<box<u8, tracked>>(); }
PROOF(map_tracked) { few<box<tracked, moody>>(); }
PROOF(map_unique) { few<box<u8, std::unique_ptr<tracked>>>(); }
