// C20: whole operations evaluated by the compiler in constant expressions
// give what the same operations give when they are executed.
#include "wire.h"
using namespace vp;
using zpp::bits::success;
using zpp::bits::failure;

namespace
{
struct point
{
    int x;
    u16 y;
    bool operator==(const point &) const = default;
};
struct shape
{
    std::array<point, 2> p;
    std::variant<u8, u32, point> v;
    std::optional<u16> o;
    std::string_view name;
};
enum class color : u8 { red = 7, blue = 200 };
struct outcome
{
    std::array<std::byte, 96> bytes{};
    std::size_t written = 0, read = 0;
    std::errc out{}, in{};
    bool equal = false;
    bool operator==(const outcome &) const = default;
};
template <typename... Opt, typename... T>
constexpr outcome trip(std::size_t room, std::size_t keep, std::tuple<Opt...> opt, const T &... v)
{
    outcome r;
    std::span<std::byte> to{r.bytes.data(), room};
    std::apply(
        [&](auto... o) {
            zpp::bits::out out{to, decltype(o)(o)...};
            r.out = out(v...).code;
            r.written = out.position();
            std::span<const std::byte> from{r.bytes.data(), keep};
            zpp::bits::in in{from, decltype(o)(o)...};
            std::tuple<T...> back{};
            r.in = std::apply([&](auto &... b) { return in(b...); }, back).code;
            r.read = in.position();
            r.equal = back == std::tuple<T...>{v...};
        },
        opt);
    return r;
}
template <typename F>
void agree(const outcome & evaluated, F f)
{
    const outcome executed = f();
    for (std::size_t i = 0; i < evaluated.bytes.size(); ++i) {
        vp_assert(evaluated.bytes[i] == executed.bytes[i], "the same bytes");
    }
    vp_assert(evaluated.written == executed.written && evaluated.read == executed.read, "the same sizes");
    vp_assert(evaluated.out == executed.out && evaluated.in == executed.in, "the same errors");
    vp_assert(evaluated.equal == executed.equal, "the same values");
}
} // namespace
#define A(name, ...) \
    PROOF(name) \
    { \
        constexpr outcome evaluated = trip(__VA_ARGS__); \
        agree(evaluated, [] { return trip(__VA_ARGS__); }); \
        vp_cover("compared"); \
    }
using namespace zpp::bits::options;
#define NONE std::tuple<>{}
A(scalars, 64, 64, NONE, u8(250), -5, 'x', true, color::blue, u64(0x0123456789abcdef))
A(scalars_big, 64, 64, std::tuple{zpp::bits::endian::big{}}, u8(250), -5, 'x', true, color::blue, u64(0x0123456789abcdef))
A(scalars_short, 6, 96, NONE, u8(250), -5, u32(7))
A(scalars_truncated, 64, 7, NONE, u8(250), -5, u32(7))
A(arrays, 64, 64, NONE, std::array<u16, 5>{1, 2, 300, 4, 65535}, std::array<std::byte, 3>{std::byte{1}, std::byte{255}, std::byte{7}})
A(arrays_big, 64, 64, std::tuple{zpp::bits::endian::big{}}, std::array<u32, 3>{1, 0x10203040, 0xffffffff}, std::array<point, 2>{point{-1, 2}, point{3, 65535}})
A(arrays_short, 9, 96, NONE, std::array<u16, 5>{1, 2, 300, 4, 65535})
A(arrays_truncated, 64, 9, NONE, std::array<u16, 5>{1, 2, 300, 4, 65535})
A(aggregates, 64, 64, NONE, point{-7, 9}, std::pair<u8, u32>{3, 70000}, std::tuple<u16, point>{5, point{1, 2}})
A(variants, 64, 64, NONE, std::variant<u8, u32, point>{point{-7, 9}}, std::variant<u8, u32>{u32(77777)}, std::optional<u16>{}, std::optional<u16>{515})
A(variants_truncated, 64, 8, NONE, std::variant<u8, u32, point>{point{-7, 9}}, std::variant<u8, u32>{u32(77777)})
A(varints, 64, 64, NONE, zpp::bits::vint32_t{-1}, zpp::bits::vuint64_t{300}, zpp::bits::vsint32_t{-300}, zpp::bits::vuint32_t{0})
A(varints_long, 96, 96, NONE, zpp::bits::vuint64_t{~0ull}, zpp::bits::vsint64_t{std::numeric_limits<std::int64_t>::min()}, zpp::bits::vint64_t{-1})
A(varints_short, 9, 96, NONE, zpp::bits::vuint64_t{~0ull})
A(varints_truncated, 96, 3, NONE, zpp::bits::vuint64_t{~0ull})
A(varint_sizes, 64, 64, std::tuple{size_varint{}}, std::array<u8, 3>{1, 2, 3}, std::optional<zpp::bits::vint32_t>{77})

// what to_bytes and from_bytes make of constants
PROOF(constants)
{
    constexpr auto d = zpp::bits::to_bytes<u32(0x01020304), std::array<u8, 3>{9, 8, 7}, point{-2, 513}>();
    static_assert(d.size() == 4 + 3 + 6);
    constexpr std::array<u8, 13> want{4, 3, 2, 1, 9, 8, 7, 0xfe, 0xff, 0xff, 0xff, 1, 2};
    for (std::size_t i = 0; i < d.size(); ++i) {
        vp_assert(u8(d[i]) == want[i], "the bytes of constants");
    }
    constexpr auto v = zpp::bits::from_bytes<d, u32, std::array<u8, 3>, point>();
    vp_assert(std::get<0>(v) == 0x01020304 && std::get<1>(v) == std::array<u8, 3>{9, 8, 7} && std::get<2>(v) == point{-2, 513}, "the values they hold");
    vp_cover("compared");
}
