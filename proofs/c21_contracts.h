#pragma once
#include "c21_sha.h"
#include "wire.h"
using namespace vp;

// The contracts of the operators of big_endian<std::uint32_t>, proved in c21_words.cpp
extern "C" {
#define FOR(contract, regex) __attribute__((used)) extern const char vp_for_##contract[] = "zpp::bits::numbers::" regex;
FOR(contract_add, "operator\\+\\(.*big_endian<unsigned int>")
FOR(contract_and, "operator&\\(.*big_endian<unsigned int>")
FOR(contract_or, "operator\\|\\(.*big_endian<unsigned int>")
FOR(contract_xor, "operator\\^\\(.*big_endian<unsigned int>")
FOR(contract_not, "big_endian<unsigned int>::operator~")
FOR(contract_shl_int, "big_endian<unsigned int>::operator<< *<")
FOR(contract_shl_size, "big_endian<unsigned int>::operator<< *<")
FOR(contract_shr_int, "big_endian<unsigned int>::operator>> *<")
FOR(contract_shr_size, "big_endian<unsigned int>::operator>> *<")
#define CONTRACT __attribute__((used)) u32
inline u32 swap(u32 v) { return vp_swap32(v); }
CONTRACT contract_add(u32 a, u32 b) { return swap(swap(a) + swap(b)); }
CONTRACT contract_and(u32 a, u32 b) { return swap(swap(a) & swap(b)); }
CONTRACT contract_or(u32 a, u32 b) { return swap(swap(a) | swap(b)); }
CONTRACT contract_xor(u32 a, u32 b) { return swap(swap(a) ^ swap(b)); }
CONTRACT contract_not(const u32 * a) { return swap(~swap(*a)); }
CONTRACT contract_shl_int(const u32 * a, int n)
{
    vp_assert(n >= 0 && n < 32, "shifted by less than the width");
    return swap(fips::shl(swap(*a), unsigned(n)));
}
CONTRACT contract_shl_size(const u32 * a, u64 n)
{
    vp_assert(n < 32, "shifted by less than the width");
    return swap(fips::shl(swap(*a), unsigned(n)));
}
CONTRACT contract_shr_int(const u32 * a, int n)
{
    vp_assert(n >= 0 && n < 32, "shifted by less than the width");
    return swap(fips::shr(swap(*a), unsigned(n)));
}
CONTRACT contract_shr_size(const u32 * a, u64 n)
{
    vp_assert(n < 32, "shifted by less than the width");
    return swap(fips::shr(swap(*a), unsigned(n)));
}
}
// the address of the template argument itself
template <auto Padded>
const auto & argument()
{
    return Padded;
}
// the code as it is executed: the compiler does not evaluate the call
template <typename F>
auto executed(F f)
{
    return f();
}
