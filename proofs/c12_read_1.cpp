// C12: decoding a variable-length integer from arbitrary bytes, with the
// decoder inline
#define ZPP_BITS_INLINE_DECODE_VARINT 1
#include "varint.h"
using namespace vp;
using namespace zpp::bits;
#include "varint_kinds.inc"
#define R(name, ...) PROOF(read_##name) { read_varint<__VA_ARGS__>(); }
KINDS(R)
#define RC(name, ...) PROOF(read_char_##name) { read_varint<__VA_ARGS__, char>(); }
KINDS(RC)
#define RU(name, ...) PROOF(read_uchar_##name) { read_varint<__VA_ARGS__, unsigned char>(); }
KINDS(RU)
#define RB(name, ...) PROOF(read_big_##name) { read_varint<__VA_ARGS__, std::byte>(endian::big{}); }
KINDS(RB)
// lengths as variable-length integers
template <typename T, bool Big, typename... Opt>
void sized_in(Opt... opt)
{
    vp_throw_ok(1);
    source<> s;
    T v{};
    auto left = s.n - s.pos;
    reading<vsize_t, std::byte> want(s.p + s.pos, left);
    zpp::bits::in in{s.span, size_varint{}, Opt(opt)...};
    in.reset(s.pos);
    auto r = in(v);
    auto i = vp_nondet_size();
    if (success(r)) {
        vp_cover("read");
        vp_assert(want.complete && v.size() == want.n, "the announced length");
        vp_assert((left - want.size) / sizeof(v[0]) >= want.n, "only when all of it is there");
        vp_assert(in.position() == s.pos + want.size + want.n * sizeof(v[0]), "consumes the length and the elements");
        if (i < v.size()) {
            vp_assert(word<Big>(s.p + s.pos + want.size + i * sizeof(v[0]), sizeof(v[0])) == bits(v[i]), "the elements");
        }
    } else {
        vp_cover("rejected");
        vp_assert(r == (want.complete || want.truncated ? std::errc::result_out_of_range : std::errc::value_too_large), "truncated or too long");
        vp_assert(!want.complete || (left - want.size) / sizeof(v[0]) < want.n, "a complete encoding is accepted");
    }
}
PROOF(sized_in_string) { sized_in<std::string, false>(); }
PROOF(sized_in_vector) { sized_in<std::vector<u16>, false>(); }
PROOF(sized_in_big) { sized_in<std::vector<u16>, true>(endian::big{}); }
