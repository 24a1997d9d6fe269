// vp-irv: --unroll 90
// vp-flags: -fno-inline -DVP_SYMBOLIC_PARAMETERS
// C21: the literals: hexadecimal text, hashes of text, hashes as integers, and
// hashes computed during compilation.
#include "c21_contracts.h"

// Hexadecimal text: every two digits in every place
template <zpp::bits::string_literal Text>
void hexadecimal()
{
    const auto & text = argument<Text>();
    constexpr std::size_t n = Text.size();
    const auto place = vp_pick(any_below(n / 2), n / 2 - 1);
    vp_symbolic(text.data() + 2 * place, 2);
    u8 want[n / 2 + 1];
    for (std::size_t i = 0; i < n; ++i) {
        const char c = text[i];
        vp_assume((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
        const u8 digit = c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10;
        want[i / 2] = i % 2 ? want[i / 2] | digit : digit << 4;
    }
    auto got = executed([] { return zpp::bits::operator""_decode_hex<Text>(); });
    static_assert(got.size() == n / 2);
    static_assert(std::same_as<decltype(got), std::array<std::byte, n / 2>>);
    vp_cover("decoded");
    for (std::size_t i = 0; i < n / 2; ++i) {
        vp_assert(u8(got[i]) == want[i], "the byte two digits spell");
    }
}
PROOF(hex_2) { hexadecimal<"a7">(); }
PROOF(hex_4) { hexadecimal<"00Fe">(); }
PROOF(hex_6) { hexadecimal<"0fA9c3">(); }
PROOF(hex_8) { hexadecimal<"012eF9Ab">(); }
PROOF(hex_40) { hexadecimal<"0123456789abcdefABCDEF98765432100fF0a9A9">(); }

// The text is the message, without the terminating null
template <zpp::bits::string_literal Text>
constexpr auto text_bytes()
{
    std::array<std::byte, Text.size()> a{};
    for (std::size_t i = 0; i < a.size(); ++i) {
        a[i] = std::byte(Text[i]);
    }
    return a;
}
template <zpp::bits::string_literal Text>
void text()
{
    const auto & m = argument<fips::padded(text_bytes<Text>())>();
    vp_symbolic(m.data(), Text.size());
    const auto one = fips::sha1(m.data(), m.size() / 64).bytes();
    const auto two = fips::sha256(m.data(), m.size() / 64).bytes();
    auto got1 = executed([] { return zpp::bits::operator""_sha1<Text>(); });
    auto got2 = executed([] { return zpp::bits::operator""_sha256<Text>(); });
    static_assert(got1.size() == 20 && got2.size() == 32);
    vp_cover("hashed");
    vp_assert(!std::memcmp(&got1, &one, 20), "the SHA-1 of the text");
    vp_assert(!std::memcmp(&got2, &two, 32), "the SHA-256 of the text");
}
PROOF(text_0) { text<"">(); }
PROOF(text_3) { text<"abc">(); }
PROOF(text_55) { text<"0123456789012345678901234567890123456789012345678901234">(); }
PROOF(text_56) { text<"01234567890123456789012345678901234567890123456789012345">(); }

// Digests and integers the compiler computes
template <zpp::bits::string_literal Text>
void compiled()
{
    constexpr auto bytes = fips::padded(text_bytes<Text>());
    const auto one = fips::sha1(bytes.data(), bytes.size() / 64).bytes();
    const auto two = fips::sha256(bytes.data(), bytes.size() / 64).bytes();
    constexpr auto got1 = zpp::bits::operator""_sha1<Text>();
    constexpr auto got2 = zpp::bits::operator""_sha256<Text>();
    vp_cover("compiled");
    vp_assert(!std::memcmp(&got1, &one, 20), "the SHA-1 of the text");
    vp_assert(!std::memcmp(&got2, &two, 32), "the SHA-256 of the text");
    constexpr auto int1 = zpp::bits::operator""_sha1_int<Text>();
    constexpr auto int2 = zpp::bits::operator""_sha256_int<Text>();
    static_assert(sizeof(int1) == sizeof(int) && sizeof(int2) == sizeof(int));
    vp_assert(!std::memcmp(&int1, &one, sizeof(int)), "the first bytes of the SHA-1 of the text");
    vp_assert(!std::memcmp(&int2, &two, sizeof(int)), "the first bytes of the SHA-256 of the text");
}
PROOF(compiled_0) { compiled<"">(); }
PROOF(compiled_3) { compiled<"abc">(); }
PROOF(compiled_name) { compiled<"v1::person::get_name">(); }
PROOF(compiled_55) { compiled<"0123456789012345678901234567890123456789012345678901234">(); }
PROOF(compiled_56) { compiled<"01234567890123456789012345678901234567890123456789012345">(); }
PROOF(compiled_63) { compiled<"012345678901234567890123456789012345678901234567890123456789012">(); }
PROOF(compiled_64) { compiled<"0123456789012345678901234567890123456789012345678901234567890123">(); }
PROOF(compiled_119) { compiled<"01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678">(); }
PROOF(compiled_120) { compiled<"012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789">(); }

// The message is the encoding of the object
struct point
{
    std::uint32_t x;
    std::uint16_t y;
    bool operator==(const point &) const = default;
};
PROOF(object)
{
    static constexpr point p{0x12345678, 0x9abc};
    constexpr auto bytes = zpp::bits::to_bytes<p>();
    static_assert(bytes.size() == 6);
    const auto & m = argument<fips::padded(bytes)>();
    vp_symbolic(m.data(), 6);
    const auto one = fips::sha1(m.data(), m.size() / 64).bytes();
    const auto two = fips::sha256(m.data(), m.size() / 64).bytes();
    auto got1 = executed([] { return zpp::bits::sha1<p>(); });
    auto got2 = executed([] { return zpp::bits::sha256<p>(); });
    vp_cover("hashed");
    vp_assert(!std::memcmp(&got1, &one, 20), "the SHA-1 of the encoding");
    vp_assert(!std::memcmp(&got2, &two, 32), "the SHA-256 of the encoding");
}
// A digest of another type holds the same bytes
PROOF(digest_type)
{
    const auto & m = argument<fips::padded(text_bytes<"abc">())>();
    vp_symbolic(m.data(), 3);
    const auto one = fips::sha1(m.data(), m.size() / 64).bytes();
    auto got = executed([] { return zpp::bits::sha1<text_bytes<"abc">(), std::array<unsigned char, 20>>(); });
    vp_cover("hashed");
    vp_assert(!std::memcmp(&got, &one, 20), "the SHA-1 of the encoding");
}
