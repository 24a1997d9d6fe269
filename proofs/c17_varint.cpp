// vp-irv: --unroll 10
// C17: the contracts of decoding a variable-length integer that c17_safety.cpp
// and c17_fields.cpp rely on.
#include "varint.h"
using namespace vp;
template <typename T>
void varint()
{
    auto n = vp_nondet_size();
    auto p = static_cast<const std::byte *>(vp_region(n));
    reading<zpp::bits::varint<T>, std::byte> want(p, n);
    T v{};
    auto pos = vp_nondet_size(), old = pos;
    auto r = zpp::bits::decode_varint(std::span<const std::byte>{p, n}, v, pos);
    if (success(r)) {
        vp_cover("decoded");
        vp_assert(want.complete, "only when there is one");
        vp_assert(pos - old == want.size, "its bytes are taken");
        vp_assert(v == static_cast<T>(want.n), "its value");
    } else {
        vp_cover("failed");
        vp_assert(!want.complete, "only when there is none");
        vp_assert(pos == old, "nothing is taken");
        vp_assert(r == (n < zpp::bits::varint_max_size<T> ? std::errc::result_out_of_range : std::errc::value_too_large), "the reason");
    }
}
PROOF(varint_32) { varint<u32>(); }
PROOF(varint_64) { varint<u64>(); }
