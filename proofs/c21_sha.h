// SHA-1 and SHA-256 as FIPS 180-4 defines them, on 32-bit words.
#pragma once
#include "vp.h"
#include <array>

namespace fips
{
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
inline u32 shl(u32 x, unsigned n) { return vp_shl32(x, n); }
inline u32 shr(u32 x, unsigned n) { return vp_shr32(x, n); }
inline u32 rotl(u32 x, unsigned n) { return shl(x, n) | shr(x, 32 - n); }
inline u32 rotr(u32 x, unsigned n) { return shr(x, n) | shl(x, 32 - n); }
inline u32 choose(u32 x, u32 y, u32 z) { return (x & y) ^ (~x & z); }
inline u32 majority(u32 x, u32 y, u32 z) { return (x & y) ^ (x & z) ^ (y & z); }
// Section 5.1.1: a one bit, as many zeros as needed, the length in bits
template <std::size_t N>
constexpr auto padded(const std::array<std::byte, N> & m)
{
    constexpr std::size_t size = (N + 1 + 8 + 63) / 64 * 64;
    std::array<std::byte, size> r{};
    for (std::size_t i = 0; i < N; ++i) {
        r[i] = m[i];
    }
    r[N] = std::byte{0x80};
    for (std::size_t i = 0; i < 8; ++i) {
        r[size - 1 - i] = std::byte(u64(N) * 8 >> (8 * i));
    }
    return r;
}
inline u32 load(const std::byte * p)
{
    u32 v;
    __builtin_memcpy(&v, p, 4);
    return vp_swap32(v);
}
template <std::size_t N>
struct words
{
    u32 w[N];
    // the bytes of the digest, most significant of each word first
    std::array<u8, 4 * N> bytes() const
    {
        std::array<u8, 4 * N> r;
        for (std::size_t i = 0; i < N; ++i) {
            u32 v = vp_swap32(w[i]);
            __builtin_memcpy(&r[4 * i], &v, 4);
        }
        return r;
    }
};
inline words<5> sha1(const std::byte * m, std::size_t blocks)
{
    words<5> h{{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}};
    for (std::size_t n = 0; n < blocks; ++n, m += 64) {
        u32 w[80];
        for (int t = 0; t < 80; ++t) {
            w[t] = t < 16 ? load(m + 4 * t) : rotl(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
        }
        auto [a, b, c, d, e] = h.w;
        for (int t = 0; t < 80; ++t) {
            u32 f = t < 20 ? choose(b, c, d) : t >= 40 && t < 60 ? majority(b, c, d) : b ^ c ^ d;
            u32 k = t < 20 ? 0x5a827999 : t < 40 ? 0x6ed9eba1 : t < 60 ? 0x8f1bbcdc : 0xca62c1d6;
            u32 x = rotl(a, 5) + f + e + k + w[t];
            e = d;
            d = c;
            c = rotl(b, 30);
            b = a;
            a = x;
        }
        h.w[0] += a, h.w[1] += b, h.w[2] += c, h.w[3] += d, h.w[4] += e;
    }
    return h;
}
// Section 4.2.2: the first 32 bits of the fractional parts of the cube roots of
// the first 64 primes, computed rather than copied
constexpr auto constants()
{
    std::array<u32, 64> k{};
    unsigned n = 0;
    for (u64 p = 2; n < 64; ++p) {
        bool prime = true;
        for (u64 q = 2; q * q <= p; ++q) {
            prime = prime && p % q != 0;
        }
        if (prime) {
            // floor(cbrt(p) * 2^32) by bisection: r^3 <= p * 2^96
            unsigned __int128 lo = 0, hi = (unsigned __int128)8 << 32;
            while (hi - lo > 1) {
                auto r = (lo + hi) / 2;
                // r^3 and p * 2^96, compared without the lowest 64 bits of r^3 mattering: r < 2^35
                auto sq = r * r;                       // < 2^70
                auto high = (sq >> 32) * r;            // r^3 / 2^32, rounded down, in parts
                auto low = (sq & 0xffffffff) * r >> 32;
                auto frac = (sq & 0xffffffff) * r & 0xffffffff;
                auto cube = high + low; // floor(r^3 / 2^32) < 2^73
                auto want = (unsigned __int128)p << 64;
                if (cube < want || (cube == want && frac == 0)) {
                    lo = r;
                } else {
                    hi = r;
                }
            }
            k[n++] = u32(lo);
        }
    }
    return k;
}
inline constexpr auto k256 = constants();
static_assert(k256[0] == 0x428a2f98 && k256[63] == 0xc67178f2);
inline words<8> sha256(const std::byte * m, std::size_t blocks)
{
    words<8> s{{0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19}};
    for (std::size_t n = 0; n < blocks; ++n, m += 64) {
        u32 w[64];
        for (int t = 0; t < 64; ++t) {
            if (t < 16) {
                w[t] = load(m + 4 * t);
            } else {
                u32 s0 = rotr(w[t - 15], 7) ^ rotr(w[t - 15], 18) ^ shr(w[t - 15], 3);
                u32 s1 = rotr(w[t - 2], 17) ^ rotr(w[t - 2], 19) ^ shr(w[t - 2], 10);
                w[t] = s1 + w[t - 7] + s0 + w[t - 16];
            }
        }
        auto [a, b, c, d, e, f, g, h] = s.w;
        for (int t = 0; t < 64; ++t) {
            u32 t1 = h + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + choose(e, f, g) + k256[t] + w[t];
            u32 t2 = (rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + majority(a, b, c);
            h = g;
            g = f;
            f = e;
            e = d + t1;
            d = c;
            c = b;
            b = a;
            a = t1 + t2;
        }
        s.w[0] += a, s.w[1] += b, s.w[2] += c, s.w[3] += d, s.w[4] += e, s.w[5] += f, s.w[6] += g, s.w[7] += h;
    }
    return s;
}
} // namespace fips
