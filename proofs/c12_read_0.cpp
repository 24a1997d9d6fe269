// C12: decoding a variable-length integer from arbitrary bytes, with the
// decoder out of line
#define ZPP_BITS_INLINE_DECODE_VARINT 0
#include "varint.h"
using namespace vp;
using namespace zpp::bits;
#include "varint_kinds.inc"
#define R(name, ...) PROOF(read_##name) { read_varint<__VA_ARGS__>(); }
KINDS(R)
#define RC(name, ...) PROOF(read_char_##name) { read_varint<__VA_ARGS__, char>(); }
KINDS(RC)
#define RU(name, ...) PROOF(read_uchar_##name) { read_varint<__VA_ARGS__, unsigned char>(); }
KINDS(RU)
#define RB(name, ...) PROOF(read_big_##name) { read_varint<__VA_ARGS__, std::byte>(endian::big{}); }
KINDS(RB)
