// C11: every variable-length integer is written in the shortest encoding and
// reads back as the same value.
#include "varint.h"
using namespace vp;
using namespace zpp::bits;
#include "varint_kinds.inc"
#define W(name, ...) PROOF(write_##name) { write_varint<__VA_ARGS__>(); }
KINDS(W)
#define WC(name, ...) PROOF(write_char_##name) { write_varint<__VA_ARGS__, false, char>(); }
KINDS(WC)
#define WB(name, ...) PROOF(write_big_##name) { write_varint<__VA_ARGS__, true, unsigned char>(endian::big{}); }
KINDS(WB)
#define S(name, ...) PROOF(size_##name) { size_of_varint<__VA_ARGS__>(); }
#define INTS(X) \
    X(u8, varint<u8>) X(u16, varint<u16>) X(u32, vuint32_t) X(u64, vuint64_t) \
    X(i8, varint<std::int8_t>) X(i16, varint<std::int16_t>) X(i32, vint32_t) X(i64, vint64_t) \
    X(s8, varint<std::int8_t, varint_encoding::zig_zag>) X(s16, varint<std::int16_t, varint_encoding::zig_zag>) X(s32, vsint32_t) X(s64, vsint64_t)
INTS(S)
#define T(name, ...) PROOF(trip_##name) { varint_round_trip<__VA_ARGS__>(); }
KINDS(T)
// lengths as variable-length integers
template <typename T, bool Big, typename... Opt>
void sized_out(Opt... opt)
{
    sink<> s;
    const T v = make<T>();
    auto head = groups(v.size());
    auto size = head + v.size() * sizeof(v[0]);
    auto i = vp_nondet_size();
    zpp::bits::out out{s.span, size_varint{}, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(v);
    if (success(r)) {
        vp_cover("written");
        vp_assert(size <= s.room(), "only when it fits");
        vp_assert(out.position() == s.pos + size, "a minimal length and the elements");
        vp_assert(shortest(s.p + s.pos, head, v.size()), "the length");
        vp_assert(s.frame(s.pos, s.pos + size), "nothing else changes");
        if (i < v.size()) {
            vp_assert(word<Big>(s.p + s.pos + head + i * sizeof(v[0]), sizeof(v[0])) == bits(v[i]), "the elements");
        }
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range && s.room() < size, "refused only when it does not fit");
    }
}
PROOF(sized_out_string) { sized_out<std::string, false>(); }
PROOF(sized_out_vector) { sized_out<std::vector<u16>, false>(); }
PROOF(sized_out_big) { sized_out<std::vector<u16>, true>(endian::big{}); }
