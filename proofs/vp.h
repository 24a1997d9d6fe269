// Vocabulary of the contracts.  Under the verifier (irv) the primitives are
// symbolic; compiled natively with vp_native.cpp they replay a recorded model
// or draw random values, so every contract is also an executable test.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
std::uint64_t vp_nondet_u64();
std::uint64_t vp_nondet_size(); // 0 .. 2^40
std::uint32_t vp_nondet_u32();
std::uint16_t vp_nondet_u16();
std::uint8_t vp_nondet_u8();
void vp_havoc(void * p, std::uint64_t constant_size); // arbitrary bytes
void vp_assume(bool);                                 // precondition
void vp_assert(bool, const char * name);              // postcondition, one named obligation
void vp_cover(const char * name);                     // reachability (vacuity) witness
void vp_declare_cover(const char * name);
void * vp_region(std::uint64_t size);                 // exactly `size` arbitrary bytes
std::uint64_t vp_uf1(std::uint32_t id, std::uint64_t a);                  // arbitrary function
std::uint64_t vp_uf2(std::uint32_t id, std::uint64_t a, std::uint64_t b); // arbitrary function
// what they do to 32 bits, kept whole in the verifier's terms
std::uint32_t vp_swap32(std::uint32_t);
std::uint32_t vp_shl32(std::uint32_t, std::uint32_t n);
std::uint32_t vp_shr32(std::uint32_t, std::uint32_t n);
std::uint64_t vp_heap_live();                         // live heap blocks
bool vp_is_heap(const void * p, std::uint64_t size);  // start of a live block of at least size bytes
std::uint64_t vp_object_size(const void * p);         // bytes from p to the end of its object
void vp_throw_ok(int);
void vp_throw_exit();
void vp_invariant(bool (*)(void *), void *);          // invariant offered for every loop entered from here on
void vp_rebuild(void * obj, std::uint64_t size, void (*)(void *), void *);
void vp_invariant_clear();
void vp_symbolic(const void * p, std::uint64_t size);
int vp_is_verifier();
std::uint64_t vp_pick(std::uint64_t v, std::uint64_t constant_max); // case split
void vp_print(const char * n, std::uint64_t v);
}

namespace vp
{
template <typename T>
inline T any()
{
    T t;
    vp_havoc(&t, sizeof(T));
    return t;
}
template <>
inline bool any<bool>()
{
    return vp_nondet_u8() & 1;
}
template <>
inline std::uint8_t any<std::uint8_t>()
{
    return vp_nondet_u8();
}
template <>
inline std::uint16_t any<std::uint16_t>()
{
    return vp_nondet_u16();
}
template <>
inline std::uint32_t any<std::uint32_t>()
{
    return vp_nondet_u32();
}
template <>
inline std::uint64_t any<std::uint64_t>()
{
    return vp_nondet_u64();
}
inline std::size_t any_below(std::size_t n) // < n
{
    auto v = vp_nondet_u64();
    vp_assume(v < n);
    return v;
}
// Little endian value of n bytes at p
inline std::uint64_t le(const void * p, unsigned n)
{
    std::uint64_t r = 0;
    for (unsigned i = 0; i < n; ++i) {
        r |= std::uint64_t(static_cast<const unsigned char *>(p)[i]) << (8 * i);
    }
    return r;
}
inline std::uint64_t be(const void * p, unsigned n)
{
    std::uint64_t r = 0;
    for (unsigned i = 0; i < n; ++i) {
        r |= std::uint64_t(static_cast<const unsigned char *>(p)[i]) << (8 * (n - 1 - i));
    }
    return r;
}
} // namespace vp

#define PROOF(name) extern "C" __attribute__((used, noinline)) void proof_##name()
