// vp-irv: --unroll 8
// C25: elements of sequences, of any number.
#include "c25_objects.h"

// from an empty sequence
template <typename T, unsigned Objects = 1>
void in_sequence()
{
    vp_throw_ok(1);
    const auto live = ghost::live = vp_nondet_u32();
    const auto heap = vp_heap_live();
    {
        T t;
        {
            source<> s;
            zpp::bits::in in{s.span};
            in.reset(s.pos);
            if (success(in(t))) {
                vp_cover("decoded");
            } else {
                vp_cover("failed");
            }
        }
        vp_assert(ghost::live == live + Objects * t.size(), "the target holds every object there is");
    }
    vp_assert(ghost::live == live, "every object is destroyed");
    vp_assert(vp_heap_live() == heap, "every block is freed");
}
PROOF(vector) { in_sequence<std::vector<tracked>>(); }
PROOF(vector_moody) { in_sequence<std::vector<moody>>(); }
// into a sequence that holds some already
template <typename T, unsigned Most>
void in_filled()
{
    vp_throw_ok(1);
    const auto live = ghost::live = vp_nondet_u32();
    const auto heap = vp_heap_live();
    {
        const auto n = vp_pick(any_below(Most + 1), Most);
        T t(n);
        vp_assert(ghost::live == live + n, "what it held before");
        {
            source<> s;
            zpp::bits::in in{s.span};
            in.reset(s.pos);
            if (success(in(t))) {
                vp_cover("decoded");
            } else {
                vp_cover("failed");
            }
        }
        vp_assert(ghost::live == live + t.size(), "the target holds every object there is");
    }
    vp_assert(ghost::live == live, "every object is destroyed");
    vp_assert(vp_heap_live() == heap, "every block is freed");
}
PROOF(filled) { in_filled<std::vector<tracked>, 1>(); }
PROOF(filled_moody) { in_filled<std::vector<moody>, 2>(); }
// a container that counts what is inserted, whatever it does with it: every
// object the archive made for an element is gone when it turns to the next
template <typename E>
struct heap_of
{
    using key_type = E;
    using value_type = E;
    using iterator = E *;
    std::size_t n = 0;
    std::size_t size() const { return n; }
    E * begin() { return nullptr; }
    E * end() { return nullptr; }
    void clear() { n = 0; }
    void insert(E && e)
    {
        e.l.use();
        E taken{std::move(e)};
        ++n;
    }
};
// between two elements there is none
bool none(void * live)
{
    return ghost::live == *static_cast<u64 *>(live);
}
template <typename E>
void inserted()
{
    vp_throw_ok(1);
    u64 live = ghost::live = vp_nondet_u32();
    {
        heap_of<E> t;
        source<> s;
        zpp::bits::in in{s.span};
        in.reset(s.pos);
        vp_invariant(none, &live);
        auto r = in(t);
        vp_invariant_clear();
        if (success(r)) {
            vp_cover("decoded");
        } else {
            vp_cover("failed");
        }
        vp_assert(ghost::live == live, "no object is left");
    }
}
PROOF(inserted) { inserted<tracked>(); }
PROOF(inserted_hidden) { inserted<hidden>(); }
PROOF(inserted_moody) { inserted<moody>(); }
