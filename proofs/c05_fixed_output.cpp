// C05: a fixed output buffer is never overrun, nothing outside the encoding
// changes, and exactly what does not fit is refused.
#include "wire.h"
using namespace vp;
using namespace zpp::bits::options;

template <typename T, bool Big = false, typename S = size4, typename Byte = std::byte, typename... Opt>
void fixed_output(Opt... opt)
{
    sink<Byte> s;
    const T v = make<T>(sizeof(S) < 8 ? (1ull << (8 * sizeof(S) % 64)) - 1 : ~0ull);
    measure<S> m;
    m(v);
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(v);
    if (success(r)) {
        vp_cover("written");
        vp_assert(m.off <= s.room(), "success only when it fits");
        vp_assert(out.position() == s.pos + m.off, "the position ends after the encoding");
        vp_assert(s.frame(s.pos, s.pos + m.off), "bytes outside the encoding are unchanged");
        spell<Big, S> w{s.p + s.pos};
        w(v);
        vp_assert(w.ok, "the bytes spell the value");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range, "the only error is out of range");
        vp_assert(s.room() < m.off, "refused only when it does not fit");
        vp_assert(out.position() >= s.pos && out.position() <= s.n, "position stays inside");
        vp_assert(s.frame(s.pos, s.n), "bytes before the position are unchanged");
    }
    vp_assert(s.span.size() == s.n && s.span.data() == s.p, "the buffer stays the same");
}
struct fixed { u8 a; u32 b; u16 c; auto each(auto f) { f(a), f(b), f(c); } auto each(auto f) const { f(a), f(b), f(c); } };
struct packed { u32 a; u32 b; auto each(auto f) { f(a), f(b); } auto each(auto f) const { f(a), f(b); } };
struct msg { u32 id; std::string name; std::vector<u16> data; auto each(auto f) { f(id), f(name), f(data); } auto each(auto f) const { f(id), f(name), f(data); } };
struct opts
{
    std::optional<u32> a;
    std::optional<u8> b;
    u16 c;
    using serialize = zpp::bits::members<3>;
    auto each(auto f) { f(a), f(b), f(c); }
    auto each(auto f) const { f(a), f(b), f(c); }
};
struct fn
{
    std::string s;
    u64 x;
    constexpr static auto serialize(auto & ar, auto & self) { return ar(self.x, self.s); }
    auto each(auto f) { f(x), f(s); }
    auto each(auto f) const { f(x), f(s); }
};
#define F(name, ...) PROOF(name) { fixed_output<__VA_ARGS__>(); }
F(u8, u8)
F(u64, u64)
F(fixed, fixed)
F(packed, packed)
F(array, std::array<u16, 5>)
F(pair, std::pair<u8, u32>)
F(string, std::string)
F(u16string, std::u16string)
F(vector_u8, std::vector<u8>)
F(vector_u64, std::vector<u64>)
F(vector_padded, std::vector<fixed>)
F(vector_packed, std::vector<packed>)
F(vector_pair, std::vector<std::pair<u8, u16>>)
F(vector_array, std::vector<std::array<u16, 2>>)
F(span, std::span<u32>)
F(span_padded, std::span<fixed>)
F(msg, msg)
F(opts, opts)
F(fn, fn)
F(optional, std::optional<u32>)
F(optional_string, std::optional<std::string>)
F(unique, std::unique_ptr<u32>)
F(unique_string, std::unique_ptr<std::string>)
F(tuple, std::tuple<u8, std::string, u32>)
F(variant, std::variant<u32, std::string, u8>)
F(vector1b, zpp::bits::vector1b<u32>)
F(vector2b, zpp::bits::vector2b<u32>)
F(vector8b, zpp::bits::vector8b<u32>)
F(string1b, zpp::bits::string1b)
F(string8b, zpp::bits::string8b)
F(string_uchar, std::string, false, size4, unsigned char)
F(msg_char, msg, false, size4, char)
#define O(name, opt, ...) PROOF(name) { fixed_output<__VA_ARGS__>(opt{}); }
O(vector_size1, size1b, std::vector<u16>, false, u8, std::byte)
O(vector_size2, size2b, std::vector<u16>, false, u16, std::byte)
O(vector_size8, size8b, std::vector<u16>, false, u64, std::byte)
O(string_native, size_native, std::string, false, u64, std::byte)
O(big_u32, endian::big, u32, true, size4, std::byte)
O(big_string, endian::big, std::string, true, size4, std::byte)
O(big_vector, endian::big, std::vector<u32>, true, size4, std::byte)
O(big_fixed, endian::big, fixed, true, size4, std::byte)
O(big_optional, endian::big, std::optional<u16>, true, size4, std::byte)
O(big_unique, endian::big, std::unique_ptr<u64>, true, size4, std::byte)
