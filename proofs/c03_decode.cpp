// C03: decoding arbitrary bytes never reads outside the input, never leaves
// the position outside it, and ends in success or a documented error.
#include "fixtures.h"
#include <array>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>
using namespace vp;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

template <typename T, bool Variant = false, typename... Opt>
void decode(Opt... opt)
{
    vp_throw_ok(1); // a length the process cannot hold ends in the allocator's exception
    source<> s;
    {
        T v{};
        zpp::bits::in in{s.span, Opt(opt)...};
        in.reset(s.pos);
        auto r = in(v);
        vp_assert(in.position() >= s.pos, "position never moves back");
        vp_assert(in.position() <= s.n, "position stays inside the input");
        if (success(r)) {
            vp_cover("read");
        } else {
            vp_cover("rejected");
            vp_assert(r == out_of_range || (Variant && r == std::errc::bad_message), "documented error");
        }
    }
    vp_assert(vp_heap_live() == 0, "everything allocated is released");
}
struct fn { u8 a; u32 b; constexpr static auto serialize(auto & ar, auto & self) { return ar(self.a, self.b); } };
struct msg { u32 id; std::string name; std::vector<u16> data; };
struct opt_msg { u8 x; std::optional<msg> m; using serialize = zpp::bits::members<2>; };
struct padded { u8 a; u32 b; };
#define D(name, ...) PROOF(name) { decode<__VA_ARGS__>(); }
D(scalar, u64)
D(vector_u8, std::vector<u8>)
D(vector_u32, std::vector<u32>)
D(vector_fn, std::vector<fn>)
D(vector_padded, std::vector<padded>)
D(string, std::string)
D(u16string, std::u16string)
D(msg, msg)
D(opt_msg, opt_msg)
D(optional_string, std::optional<std::string>)
D(unique_string, std::unique_ptr<std::string>)
D(tuple, std::tuple<u8, std::vector<u8>, std::string>)
D(variant, std::variant<u32, std::string, std::vector<u16>>, true)
D(vector_of_optional, std::vector<std::optional<u32>>)
D(vector_of_variant, std::vector<std::variant<u32, u8>>, true)
D(optional_vector_of_variant, std::optional<std::vector<std::variant<u32, u8>>>, true)
using arr_opt = std::array<std::optional<u16>, 3>;
D(array_of_optional, arr_opt)
D(vector_of_array, std::vector<std::array<u16, 2>>)
D(vector_of_pair, std::vector<std::pair<u8, u32>>)
D(unique_msg, std::unique_ptr<msg>)
D(wstring, std::wstring)
// any element whatsoever: its own decoding consumes some of the remaining
// input or fails, which is all its contract says
struct opaque
{
    u64 x = 1;
    u8 y = 2;
    static zpp::bits::errc serialize(auto & ar, auto & self)
    {
        if (vp_nondet_u8() & 1) {
            return out_of_range;
        }
        auto k = vp_nondet_size();
        vp_assume(k <= ar.remaining_data().size());
        ar.position() += k;
        self.x = vp_nondet_u64();
        return {};
    }
};
struct with_opaque { u8 a; opaque b; std::vector<opaque> c; u32 d; };
D(vector_of_anything, std::vector<opaque>)
D(optional_anything, std::optional<opaque>)
D(unique_anything, std::unique_ptr<opaque>)
D(with_anything, with_opaque)
// other byte element types and options
#define O(name, T, ...) PROOF(name) { decode<T>(__VA_ARGS__); }
using namespace zpp::bits::options;
O(vector_size1, std::vector<u32>, size1b{})
O(vector_size2, std::vector<u32>, size2b{})
O(vector_size8, std::vector<u32>, size8b{})
O(vector_native, std::vector<u32>, size_native{})
O(vector_big, std::vector<u32>, endian::big{})
O(string_big_size8, std::string, endian::big{}, size8b{})
O(msg_big_size2, msg, endian::big{}, size2b{})
O(opt_msg_size1, opt_msg, size1b{})
template <typename Byte>
void bytes()
{
    vp_throw_ok(1);
    source<Byte> s;
    msg v{};
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = in(v);
    vp_assert(in.position() >= s.pos && in.position() <= s.n, "position stays inside the input");
    vp_assert(success(r) || r == out_of_range, "documented error");
    if (success(r)) {
        vp_cover("read");
    }
}
PROOF(msg_uchar) { bytes<unsigned char>(); }
PROOF(msg_char) { bytes<char>(); }
// several objects, several calls: an error in one leaves the position inside too
PROOF(calls)
{
    vp_throw_ok(1);
    source<> s;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    std::string a;
    std::optional<u16> b;
    u32 c{};
    (void)in(a, c);
    vp_assert(in.position() <= s.n, "inside after the first call");
    (void)in(b);
    vp_assert(in.position() <= s.n, "inside after the second call");
    (void)in(c, b);
    vp_assert(in.position() <= s.n, "inside after the third call");
}
// an input held by a growing container or an array behaves as the bytes it holds
PROOF(from_vector)
{
    vp_throw_ok(1);
    source<> s;
    std::vector<std::byte> data(s.p, s.p + s.n);
    zpp::bits::in in{data};
    in.reset(s.pos);
    std::string v;
    auto r = in(v);
    vp_assert(in.position() >= s.pos && in.position() <= s.n, "position stays inside the input");
    vp_assert(success(r) || r == out_of_range, "documented error");
    vp_assert(data.size() == s.n, "the input keeps its size");
    if (success(r)) {
        vp_cover("read");
    }
}
PROOF(from_array)
{
    vp_throw_ok(1);
    std::array<std::byte, 9> data = any<std::array<std::byte, 9>>();
    zpp::bits::in in{data};
    std::vector<u16> v;
    u8 x{};
    auto r = in(x, v);
    vp_assert(in.position() <= 9, "position stays inside the input");
    vp_assert(success(r) || r == out_of_range, "documented error");
    if (success(r)) {
        vp_cover("read");
        vp_assert(v.size() <= 2, "only what fits");
    }
}
PROOF(from_c_array)
{
    vp_throw_ok(1);
    unsigned char data[7];
    vp_havoc(data, 7);
    zpp::bits::in in{data};
    std::string v;
    auto r = in(v);
    vp_assert(in.position() <= 7, "position stays inside the input");
    vp_assert(success(r) || r == out_of_range, "documented error");
    if (success(r)) {
        vp_cover("read");
        vp_assert(v.size() <= 3, "only what fits");
    }
}
// zero copy views and fixed spans
PROOF(views)
{
    source<> s;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    std::span<const std::byte> a;
    u16 store[4]{};
    std::span<u16> d{store};
    std::span<u16, 4> e{store};
    auto r = in(a, d, e);
    vp_assert(in.position() >= s.pos && in.position() <= s.n, "position stays inside the input");
    vp_assert(success(r) || r == out_of_range, "documented error");
    if (success(r)) {
        vp_cover("read");
    }
}
PROOF(string_views)
{
    source<char> s;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    std::string_view a;
    zpp::bits::string_view1b b;
    auto r = in(a, b);
    vp_assert(in.position() >= s.pos && in.position() <= s.n, "position stays inside the input");
    vp_assert(success(r) || r == out_of_range, "documented error");
    if (success(r)) {
        vp_cover("read");
        vp_assert(a.data() >= s.p && a.data() + a.size() <= s.p + s.n, "the view lies inside the input");
        vp_assert(b.data() >= s.p && b.data() + b.size() <= s.p + s.n, "the view lies inside the input");
    }
}
