// C04: decoding succeeds exactly when the input holds the complete encoding,
// consumes exactly that, and the value is what the consumed bytes spell.
#include "wire.h"
using namespace vp;
using namespace zpp::bits::options;

template <typename T, bool Big = false, typename S = size4, typename Byte = std::byte, typename... Opt>
void truncation(Opt... opt)
{
    vp_throw_ok(1);
    source<Byte> s;
    scan<Big, S> need{s.p + s.pos, s.n - s.pos};
    need.template of<T>();
    T v{};
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto r = in(v);
    if (success(r)) {
        vp_cover("complete");
        vp_assert(need.ok, "success only for a complete encoding");
        vp_assert(need.known, "success only for a known alternative");
        vp_assert(in.position() == s.pos + need.off, "exactly the encoding is consumed");
        spell<Big, S> w{s.p + s.pos, 0, true, true};
        w(v);
        vp_assert(w.off == need.off, "the value has the size of what was consumed");
        vp_assert(w.ok, "the value is what the bytes spell");
    } else {
        vp_cover("incomplete");
        vp_assert(!need.ok || !need.known, "a complete encoding is accepted");
        vp_assert(need.known ? r == out_of_range : r == std::errc::bad_message, "truncation is out of range");
    }
}
struct fixed { u8 a; u32 b; u16 c; auto each(auto f) { f(a), f(b), f(c); } auto each(auto f) const { f(a), f(b), f(c); } };
struct packed { u32 a; u32 b; auto each(auto f) { f(a), f(b); } auto each(auto f) const { f(a), f(b); } };
struct msg { u32 id; std::string name; std::vector<u16> data; auto each(auto f) { f(id), f(name), f(data); } auto each(auto f) const { f(id), f(name), f(data); } };
struct opts
{
    std::optional<u32> a;
    std::optional<u8> b;
    u16 c;
    using serialize = zpp::bits::members<3>;
    auto each(auto f) { f(a), f(b), f(c); }
    auto each(auto f) const { f(a), f(b), f(c); }
};
struct fn
{
    std::string s;
    u64 x;
    constexpr static auto serialize(auto & ar, auto & self) { return ar(self.x, self.s); }
    auto each(auto f) { f(x), f(s); }
    auto each(auto f) const { f(x), f(s); }
};
#define TR(name, ...) PROOF(name) { truncation<__VA_ARGS__>(); }
TR(u8, u8)
TR(u64, u64)
TR(fixed, fixed)
TR(packed, packed)
TR(array, std::array<u16, 5>)
TR(pair, std::pair<u8, u32>)
TR(string, std::string)
TR(u16string, std::u16string)
TR(vector_u8, std::vector<u8>)
TR(vector_u64, std::vector<u64>)
TR(vector_padded, std::vector<fixed>)
TR(vector_packed, std::vector<packed>)
TR(vector_pair, std::vector<std::pair<u8, u16>>)
TR(msg, msg)
TR(opts, opts)
TR(fn, fn)
TR(optional, std::optional<u32>)
TR(optional_string, std::optional<std::string>)
TR(unique, std::unique_ptr<u32>)
TR(unique_string, std::unique_ptr<std::string>)
TR(tuple, std::tuple<u8, std::string, u32>)
TR(variant, std::variant<u32, std::string, u8>)
TR(vector1b, zpp::bits::vector1b<u32>)
TR(vector2b, zpp::bits::vector2b<u32>)
TR(vector8b, zpp::bits::vector8b<u32>)
TR(string1b, zpp::bits::string1b)
TR(string8b, zpp::bits::string8b)
TR(string_uchar, std::string, false, size4, unsigned char)
TR(msg_char, msg, false, size4, char)
#define O(name, opt, ...) PROOF(name) { truncation<__VA_ARGS__>(opt{}); }
O(vector_size1, size1b, std::vector<u16>, false, u8, std::byte)
O(vector_size2, size2b, std::vector<u16>, false, u16, std::byte)
O(vector_size8, size8b, std::vector<u16>, false, u64, std::byte)
O(string_native, size_native, std::string, false, u64, std::byte)
O(big_u32, endian::big, u32, true, size4, std::byte)
O(big_string, endian::big, std::string, true, size4, std::byte)
O(big_vector, endian::big, std::vector<u32>, true, size4, std::byte)
O(big_fixed, endian::big, fixed, true, size4, std::byte)
O(big_optional, endian::big, std::optional<u16>, true, size4, std::byte)
O(big_unique, endian::big, std::unique_ptr<u64>, true, size4, std::byte)

