// Shared pre-state of the contracts: arbitrary buffers, positions and bytes.
#pragma once
#include "vp.h"
#include "zpp_bits.h"
#include <bit>
#include <cstring>
#include <type_traits>
#ifdef VP_VERIFY
// libc's wide string functions, by definition
extern "C" __attribute__((used)) inline wchar_t * wmemset(wchar_t * d, wchar_t c, size_t n) noexcept
{
    for (size_t i = 0; i < n; ++i) {
        d[i] = c;
    }
    return d;
}
extern "C" __attribute__((used)) inline wchar_t * wmemcpy(wchar_t * d, const wchar_t * s, size_t n) noexcept
{
    return static_cast<wchar_t *>(__builtin_memcpy(d, s, n * sizeof(wchar_t)));
}
extern "C" __attribute__((used)) inline wchar_t * wmemmove(wchar_t * d, const wchar_t * s, size_t n) noexcept
{
    return static_cast<wchar_t *>(__builtin_memmove(d, s, n * sizeof(wchar_t)));
}
#endif

namespace vp
{
// An input of any size with any content, read from any position inside it.
template <typename Byte = std::byte>
struct source
{
    std::size_t n = vp_nondet_size();
    Byte * p = static_cast<Byte *>(vp_region(n));
    std::size_t pos = vp_nondet_size();
    std::span<Byte> span{p, n};
    source()
    {
        vp_assume(pos <= n);
    }
    std::uint8_t at(std::size_t i) const
    {
        return static_cast<std::uint8_t>(p[i]);
    }
};

// A fixed output buffer of any size and content, written from any position;
// `frame` checks that an arbitrary byte outside [from, to) kept its value.
template <typename Byte = std::byte>
struct sink
{
    std::size_t n = vp_nondet_size();
    Byte * p = static_cast<Byte *>(vp_region(n));
    std::size_t pos = vp_nondet_size();
    std::size_t k = vp_nondet_size();
    std::uint8_t before = 0;
    std::span<Byte> span{p, n};
    sink()
    {
        vp_assume(pos <= n);
        vp_assume(k < n || n == 0);
        if (n) {
            before = static_cast<std::uint8_t>(p[k]);
        }
    }
    std::uint8_t at(std::size_t i) const
    {
        return static_cast<std::uint8_t>(p[i]);
    }
    std::size_t room() const
    {
        return n - pos;
    }
    bool frame(std::size_t from, std::size_t to) const
    {
        if (n == 0) {
            return true;
        }
        if (vp_pick(k < from, 1)) { // one side at a time
            return at(k) == before;
        }
        if (vp_pick(k >= to, 1)) {
            return at(k) == before;
        }
        return true;
    }
};

// The value of an object as an unsigned number (its bit pattern)
template <typename T>
inline std::uint64_t bits(const T & t)
{
    if constexpr (sizeof(T) == 1) {
        return std::bit_cast<std::uint8_t>(t);
    } else if constexpr (sizeof(T) == 2) {
        return std::bit_cast<std::uint16_t>(t);
    } else if constexpr (sizeof(T) == 4) {
        return std::bit_cast<std::uint32_t>(t);
    } else {
        return std::bit_cast<std::uint64_t>(t);
    }
}
template <bool Big>
inline std::uint64_t word(const void * p, unsigned n)
{
    return Big ? be(p, n) : le(p, n);
}
template <typename T>
inline T from_bits(std::uint64_t v)
{
    if constexpr (sizeof(T) == 1) {
        return std::bit_cast<T>(std::uint8_t(v));
    } else if constexpr (sizeof(T) == 2) {
        return std::bit_cast<T>(std::uint16_t(v));
    } else if constexpr (sizeof(T) == 4) {
        return std::bit_cast<T>(std::uint32_t(v));
    } else {
        return std::bit_cast<T>(std::uint64_t(v));
    }
}
// Does the byte string at `base` spell the given values one after another?
// Scalars are their object representation in the given order, arrays, pairs
// and tuples are their elements, classes list their members through each().
template <bool Big = false>
struct wire
{
    const void * base;
    std::size_t off = 0;
    bool ok = true;
    template <typename... T>
    wire & operator()(const T &... t)
    {
        (one(t), ...);
        return *this;
    }
    template <typename T>
    void one(const T & t)
    {
        if constexpr (std::is_fundamental_v<T> || std::is_enum_v<T>) {
            ok = ok & (word<Big>(static_cast<const char *>(base) + off, sizeof(T)) == bits(t));
            off += sizeof(T);
        } else if constexpr (requires { t.each([](const auto &) {}); }) {
            t.each([this](const auto & m) { one(m); });
        } else if constexpr (requires { std::tuple_size<T>::value; }) {
            std::apply([this](const auto &... m) { (one(m), ...); }, t);
        } else {
            for (auto & m : t) {
                one(m);
            }
        }
    }
};
inline constexpr auto out_of_range = std::errc::result_out_of_range;

// Contracts of a value whose encoding always has Size bytes.
template <typename T, std::size_t Size, bool Big = false, typename Byte = std::byte, typename... Opt>
void encode_fixed(Opt... opt)
{
    sink<Byte> s;
    T v;
    vp_havoc(&v, sizeof(v));
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    const T & cv = v;
    auto r = out(cv);
    if (success(r)) {
        vp_cover("written");
        wire<Big> w{s.p + s.pos};
        w(v);
        vp_assert(w.off == Size, "stated size");
        vp_assert(out.position() == s.pos + Size, "size is the sum of the parts");
        vp_assert(w.ok, "parts one after another in order without padding");
        vp_assert(s.frame(s.pos, s.pos + Size), "bytes outside are unchanged");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range, "the only error is out of range");
        vp_assert(s.room() < Size, "refused only when it does not fit");
        vp_assert(s.frame(s.pos, s.n), "bytes before the position are unchanged");
        vp_assert(out.position() <= s.n, "position stays inside");
    }
}
template <typename T, std::size_t Size, bool Big = false, typename Byte = std::byte, typename... Opt>
void decode_fixed(Opt... opt)
{
    source<Byte> s;
    T v;
    vp_havoc(&v, sizeof(v));
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto r = in(v);
    if (success(r)) {
        vp_cover("read");
        wire<Big> w{s.p + s.pos};
        w(v);
        vp_assert(in.position() == s.pos + Size, "consumes the sum of the parts");
        vp_assert(w.ok, "each part gets its own bytes");
        vp_assert(s.n - s.pos >= Size, "enough input");
    } else {
        vp_cover("truncated");
        vp_assert(r == out_of_range, "the only error is out of range");
        vp_assert(s.n - s.pos < Size, "refused only when truncated");
        vp_assert(in.position() <= s.n, "position stays inside");
    }
}
} // namespace vp
using zpp::bits::failure;
using zpp::bits::success;
