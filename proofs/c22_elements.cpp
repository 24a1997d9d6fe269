// vp-irv: --unroll 8
// C22: elements of any size in maps and sets.
#include "c22_types.h"
using namespace vp;

// Elements of any size: each insertion is given what the input holds right
// after the element before.
namespace ghost
{
const std::byte * data;
u64 end, position, inserted, cleared;
zpp::bits::in<std::span<std::byte>> * in;
}
template <typename K, typename M = void>
struct ledger : types<K, M>
{
    using value_type = typename types<K, M>::value_type;
    using element = typename types<K, M>::element;
    using iterator = value_type *;
    std::size_t size() const { return ghost::inserted; }
    value_type * begin() { return nullptr; }
    value_type * end() { return nullptr; }
    void clear()
    {
        ++ghost::cleared;
        ghost::inserted = 0;
    }
    void insert(element && e)
    {
        const auto to = ghost::in->position();
        scan<> need{ghost::data + ghost::end, to - ghost::end};
        if constexpr (std::is_void_v<M>) {
            need.template of<K>();
        } else {
            (void)(need.template of<K>() && need.template of<M>());
        }
        vp_assert(need.ok && need.known && need.left == 0, "exactly the bytes of one element");
        spell<> w{ghost::data + ghost::end, 0, true, true};
        if constexpr (std::is_void_v<M>) {
            w(e);
        } else {
            w(e.first, e.second);
        }
        vp_assert(w.ok, "the element they spell");
        ghost::end = to;
        ++ghost::inserted;
        element taken{std::move(e)};
    }
};
// between two elements the input is right behind the one before
bool in_step(void *)
{
    return ghost::end == ghost::in->position() && ghost::cleared == 1;
}
template <typename K, typename M = void>
void each_in()
{
    vp_throw_ok(1);
    source<> s;
    ghost::data = s.p;
    ghost::end = s.pos + 4;
    ghost::cleared = 0;
    ghost::inserted = vp_nondet_size();
    const auto live = vp_heap_live();
    const auto count = s.n - s.pos >= 4 ? word<false>(s.p + s.pos, 4) : 0;
    {
        ledger<K, M> c;
        zpp::bits::in in{s.span};
        in.reset(s.pos);
        ghost::in = &in;
        vp_invariant(in_step, nullptr);
        auto r = in(c);
        vp_invariant_clear();
        if (success(r)) {
            vp_cover("read");
            vp_assert(s.n - s.pos >= 4 && ghost::inserted == count, "as many as announced");
            vp_assert(in.position() == ghost::end, "and nothing behind the last");
        } else {
            vp_cover("failed");
            vp_assert(s.n - s.pos < 4 || ghost::inserted < count, "not all");
            vp_assert(in.position() <= s.n, "position stays inside");
        }
        vp_assert(ghost::cleared == (s.n - s.pos >= 4), "the previous content is dropped first");
    }
    vp_assert(vp_heap_live() == live, "every decoded element is released");
}
PROOF(each_string) { each_in<std::string>(); }
PROOF(each_string_map) { each_in<u16, std::string>(); }
PROOF(each_optional) { each_in<u32, std::optional<u64>>(); }
PROOF(each_variant) { each_in<std::variant<u8, u32>, u16>(); }
PROOF(each_unique) { each_in<u8, std::unique_ptr<u32>>(); }
