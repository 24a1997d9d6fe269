// vp-flags: -fno-inline -DVP_SYMBOLIC_PARAMETERS
// C21: the hashes of every message of a length are those of the standard.  The
// message is a template argument; the verifier takes its bytes to be arbitrary.
#include "c21_contracts.h"

template <std::size_t N>
constexpr auto letters()
{
    std::array<std::byte, N> a{};
    for (std::size_t i = 0; i < N; ++i) {
        a[i] = std::byte(i * 37 + N + 11);
    }
    return a;
}
template <std::size_t N>
constexpr auto object = letters<N>();
template <std::size_t N>
void hash1()
{
    const auto & m = argument<fips::padded(object<N>)>();
    vp_symbolic(m.data(), N);
    const auto want = fips::sha1(m.data(), m.size() / 64).bytes();
    auto got = executed([] { return zpp::bits::sha1<object<N>>(); });
    static_assert(got.size() == 20);
    vp_cover("hashed");
    for (std::size_t i = 0; i < got.size(); ++i) {
        vp_assert(u8(got[i]) == want[i], "the digest the standard defines");
    }
}
template <std::size_t N>
void hash256()
{
    const auto & m = argument<fips::padded(object<N>)>();
    vp_symbolic(m.data(), N);
    const auto want = fips::sha256(m.data(), m.size() / 64).bytes();
    auto got = executed([] { return zpp::bits::sha256<object<N>>(); });
    static_assert(got.size() == 32);
    vp_cover("hashed");
    for (std::size_t i = 0; i < got.size(); ++i) {
        vp_assert(u8(got[i]) == want[i], "the digest the standard defines");
    }
}
#define H(n) PROOF(sha1_##n) { hash1<n>(); } PROOF(sha256_##n) { hash256<n>(); }
H(0) H(1) H(2) H(3) H(4) H(5) H(6) H(7) H(8) H(9) H(10) H(11) H(12) H(13) H(14) H(15)
H(16) H(17) H(18) H(19) H(20) H(21) H(22) H(23) H(24) H(25) H(26) H(27) H(28) H(29) H(30) H(31)
H(32) H(33) H(34) H(35) H(36) H(37) H(38) H(39) H(40) H(41) H(42) H(43) H(44) H(45) H(46) H(47)
H(48) H(49) H(50) H(51) H(52) H(53) H(54) H(55) H(56) H(57) H(58) H(59) H(60) H(61) H(62) H(63)
H(64) H(65) H(66) H(118) H(119) H(120) H(121) H(127) H(128) H(129) H(183) H(184) H(192)
