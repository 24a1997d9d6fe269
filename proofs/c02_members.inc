// C02: an aggregate with any supported number of members is encoded as its
// members one after another, in declaration order, with no padding.
#include "fixtures.h"
#include "c02_members.h"
using namespace vp;

template <typename T>
std::size_t wire_size(const T & t)
{
    std::size_t n = 0;
    t.each([&](auto & m) { n += sizeof(m); });
    return n;
}
template <typename T>
bool matches(const T & t, const std::byte * p)
{
    bool ok = true;
    t.each([&](auto & m) {
        ok = ok & (le(p, sizeof(m)) == m);
        p += sizeof(m);
    });
    return ok;
}
template <typename T, std::size_t N>
void encode()
{
    static_assert(zpp::bits::number_of_members<T>() == N);
        sink<> s;
        T v = any<T>();
        zpp::bits::out out{s.span};
        out.reset(s.pos);
        const T & cv = v;
        auto r = out(cv);
        auto size = wire_size(v);
        if (success(r)) {
            vp_cover("written");
            vp_assert(out.position() == s.pos + size, "size is the sum of the members");
            vp_assert(matches(v, s.p + s.pos), "members in declaration order without padding");
            vp_assert(s.frame(s.pos, s.pos + size), "frame");
        } else {
            vp_cover("refused");
            vp_assert(r == out_of_range && s.room() < size, "refused only when it does not fit");
        }
}
template <typename T, std::size_t N>
void decode()
{
        source<> s;
        T v{};
        zpp::bits::in in{s.span};
        in.reset(s.pos);
        auto r = in(v);
        auto size = wire_size(v);
        if (success(r)) {
            vp_cover("read");
            vp_assert(in.position() == s.pos + size, "consumes the sum of the members");
            vp_assert(matches(v, s.p + s.pos), "each member gets its own bytes");
        } else {
            vp_cover("truncated");
            vp_assert(r == out_of_range && s.n - s.pos < size, "refused only when truncated");
        }
}
#define ONE(n)                                        \
    PROOF(encode_auto_##n) { encode<S##n, n>(); }     \
    PROOF(decode_auto_##n) { decode<S##n, n>(); }     \
    PROOF(encode_members_##n) { encode<M##n, n>(); }  \
    PROOF(decode_members_##n) { decode<M##n, n>(); }
