// C21: the big endian words the hashes compute with are 32-bit arithmetic.
// These are the contracts c21_hash.cpp uses in place of the operators.
#include "wire.h"
using namespace vp;
template <typename T>
void word_operators()
{
    using word = zpp::bits::numbers::big_endian<T>;
    const auto a = any<T>(), b = any<T>();
    const auto value = [](word w) { return T(vp::be(&w, sizeof(T))); };
    const word x{a}, y{b};
    vp_assert(value(x) == a, "the bytes of a word are its value, most significant first");
    vp_assert(value(x + y) == T(a + b), "sum");
    vp_assert(value(x & y) == T(a & b), "and");
    vp_assert(value(x | y) == T(a | b), "or");
    vp_assert(value(x ^ y) == T(a ^ b), "exclusive or");
    vp_assert(value(~x) == T(~a), "complement");
    auto z = x;
    z += y;
    vp_assert(value(z) == T(a + b), "addition in place");
    vp_assert((x == y) == (a == b), "equality");
    const auto n = vp_pick(any_below(sizeof(T) * 8), sizeof(T) * 8 - 1);
    vp_cover("shifted");
    vp_assert(value(x << int(n)) == T(a << n), "shift up");
    vp_assert(value(x >> int(n)) == T(a >> n), "shift down");
    vp_assert(value(x << n) == T(a << n), "shift up by a size");
    vp_assert(value(x >> n) == T(a >> n), "shift down by a size");
}
PROOF(words32) { word_operators<u32>(); }
PROOF(words64) { word_operators<u64>(); }
