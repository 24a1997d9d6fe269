// The protobuf encoding, from its definition.
#pragma once
#include "varint.h"
#include "growing.h"
#include <vector>

namespace vp
{
enum : unsigned { pb_varint = 0, pb_fixed64 = 1, pb_length = 2, pb_fixed32 = 5 };
// lists the parts of an encoding: how long it is and, given bytes, whether they are it
template <typename Byte = std::byte>
struct pb_parts
{
    const Byte * p = nullptr;
    std::size_t off = 0;
    bool ok = true;
    void varint(u64 n)
    {
        const auto k = vp_pick(groups(n), 10);
        if (p) {
            ok = ok & shortest(p + off, k, n);
        }
        off += k;
    }
    void tag(u64 field, unsigned type) { varint(field << 3 | type); }
    void fixed(u64 v, unsigned n)
    {
        if (p) {
            ok = ok & (word<false>(p + off, n) == v);
        }
        off += n;
    }
    void bytes(const void * q, std::size_t n)
    {
        if (p) {
            const auto j = vp_nondet_size();
            vp_assume(j < n || n == 0);
            ok = ok & (n == 0 || u8(p[off + (n ? j : 0)]) == static_cast<const u8 *>(q)[n ? j : 0]);
        }
        off += n;
    }
    // a part that is itself such a list, behind its length
    template <typename F>
    void nested(F f)
    {
        pb_parts inner;
        f(inner);
        varint(inner.off);
        if (p) {
            inner = {p + off};
            f(inner);
            ok = ok & inner.ok;
        }
        off += inner.off;
    }
};
// any number of arbitrary elements
template <typename T>
std::vector<T> any_vector()
{
    const auto n = vp_nondet_size();
    std::vector<T> v(n);
    if (n) {
        vp_symbolic(v.data(), n * sizeof(T));
    }
    return v;
}
} // namespace vp
