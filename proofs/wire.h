// The wire format, written down once more and independently of the header:
// `scan` decides from the input alone whether it holds a complete encoding and
// how long it is, `spell` decides whether bytes spell a given value.  The
// elements of a sequence are checked at one arbitrary index, which stands for
// all of them.
#pragma once
#include "fixtures.h"
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>

namespace vp
{
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using size4 = std::uint32_t;

template <typename T>
inline constexpr bool is_scalar_v = std::is_fundamental_v<T> || std::is_enum_v<T>;
template <typename T>
concept listed = requires(T & t) { t.each([](auto &) {}); };
template <typename T>
concept sized_object = requires(const T & t) { []<typename X, typename S>(const zpp::bits::sized_item<X, S> &) {}(t); };
template <typename T>
concept sequence = requires(T & t) { t.begin(); t.size(); } && !requires { std::tuple_size<T>::value; };
template <typename T>
inline constexpr bool fixed_extent = false;
template <typename T, std::size_t N>
    requires(N != std::dynamic_extent)
inline constexpr bool fixed_extent<std::span<T, N>> = true;
template <typename T>
concept maybe = requires(T & t) { t.has_value(); *t; };
template <typename T>
concept pointer_like = requires(T & t) { t.get(); *t; };
template <typename T>
concept choice = requires(const T & t) { t.valueless_by_exception(); };

// Size of a value whose encoding has a size known from its type
template <typename T>
constexpr std::size_t flat()
{
    if constexpr (is_scalar_v<T>) {
        return sizeof(T);
    } else if constexpr (listed<T>) {
        std::size_t n = 0;
        alignas(T) char raw[sizeof(T)]{};
        reinterpret_cast<T &>(raw).each([&](auto & m) { n += flat<std::remove_cvref_t<decltype(m)>>(); });
        return n;
    } else if constexpr (std::is_array_v<T>) {
        return std::extent_v<T> * flat<std::remove_extent_t<T>>();
    } else if constexpr (requires { std::tuple_size<T>::value; }) {
        return []<std::size_t... I>(std::index_sequence<I...>) {
            return (std::size_t{} + ... + flat<std::remove_cvref_t<std::tuple_element_t<I, T>>>());
        }(std::make_index_sequence<std::tuple_size_v<T>>{});
    } else {
        static_assert(is_scalar_v<T>, "not flat");
    }
}
template <typename S>
inline constexpr std::size_t prefix_size()
{
    if constexpr (std::is_void_v<S>) {
        return 0;
    } else {
        return sizeof(S);
    }
}

template <bool Big = false, typename S = size4>
struct spell
{
    const void * base;
    std::size_t off = 0;
    bool ok = true;
    bool lenient = false;             // when decoding any presence byte but zero means present
    std::size_t j = vp_nondet_size(); // the arbitrary element
    const char * at() const
    {
        return static_cast<const char *>(base) + off;
    }
    template <typename... T>
    spell & operator()(const T &... t)
    {
        (one<S>(t), ...);
        return *this;
    }
    void number(std::uint64_t v, unsigned n)
    {
        ok = ok & (word<Big>(at(), n) == v);
        off += n;
    }
    template <typename P, typename T>
    void one(const T & t)
    {
        if constexpr (is_scalar_v<T>) {
            number(bits(t), sizeof(T));
        } else if constexpr (listed<T>) {
            t.each([this](const auto & m) { one<S>(m); });
        } else if constexpr (sized_object<T>) {
            []<typename X, typename Z>(spell & s, const zpp::bits::sized_item<X, Z> & i) { s.template one<Z>(static_cast<const X &>(i)); }(*this, t);
        } else if constexpr (choice<T>) {
            number(t.index(), 1);
            std::visit([this](const auto & m) { one<S>(m); }, t);
        } else if constexpr (maybe<T>) {
            ok = ok & (lenient ? (*at() != 0) == t.has_value() : *at() == t.has_value());
            off += 1;
            if (t.has_value()) {
                one<S>(*t);
            }
        } else if constexpr (pointer_like<T>) {
            one<S>(*t);
        } else if constexpr (requires { std::tuple_size<T>::value; }) {
            std::apply([this](const auto &... m) { (one<S>(m), ...); }, t);
        } else if constexpr (std::is_array_v<T>) {
            for (auto & m : t) {
                one<S>(m);
            }
        } else if constexpr (sequence<T>) {
            using E = std::remove_cvref_t<decltype(*t.begin())>;
            if constexpr (!std::is_void_v<P> && !fixed_extent<T>) {
                number(P(t.size()), sizeof(P));
            }
            if (j < t.size()) {
                spell e{static_cast<const char *>(base) + off + j * flat<E>(), 0, true, lenient};
                e.template one<S>(t.data()[j]);
                ok = ok & e.ok;
            }
            off += t.size() * flat<E>();
        } else {
            static_assert(is_scalar_v<T>, "no rule");
        }
    }
};

// Bytes the encoding of a value takes
template <typename S = size4>
struct measure
{
    std::size_t off = 0;
    template <typename... T>
    measure & operator()(const T &... t)
    {
        (one<S>(t), ...);
        return *this;
    }
    template <typename P, typename T>
    void one(const T & t)
    {
        if constexpr (is_scalar_v<T>) {
            off += sizeof(T);
        } else if constexpr (listed<T>) {
            t.each([this](const auto & m) { one<S>(m); });
        } else if constexpr (sized_object<T>) {
            []<typename X, typename Z>(measure & s, const zpp::bits::sized_item<X, Z> & i) { s.template one<Z>(static_cast<const X &>(i)); }(*this, t);
        } else if constexpr (choice<T>) {
            off += 1;
            std::visit([this](const auto & m) { one<S>(m); }, t);
        } else if constexpr (maybe<T>) {
            off += 1;
            if (t.has_value()) {
                one<S>(*t);
            }
        } else if constexpr (pointer_like<T>) {
            one<S>(*t);
        } else if constexpr (requires { std::tuple_size<T>::value; }) {
            std::apply([this](const auto &... m) { (one<S>(m), ...); }, t);
        } else if constexpr (std::is_array_v<T>) {
            for (auto & m : t) {
                one<S>(m);
            }
        } else {
            if constexpr (!std::is_void_v<P> && !fixed_extent<T>) {
                off += sizeof(P);
            }
            off += t.size() * flat<std::remove_cvref_t<decltype(*t.begin())>>();
        }
    }
};

template <bool Big = false, typename S = size4>
struct scan
{
    const void * base;
    std::size_t left;
    std::size_t off = 0;
    bool ok = true;    // complete so far
    bool known = true; // and every variant names an alternative
    const char * at() const
    {
        return static_cast<const char *>(base) + off;
    }
    bool take(std::size_t n)
    {
        if (!ok || n > left) {
            ok = false;
            return false;
        }
        off += n;
        left -= n;
        return true;
    }
    template <typename T>
    bool of()
    {
        one<S, T>();
        return ok;
    }
    template <typename P, typename T>
    void one()
    {
        if (!ok || !known) {
            return;
        }
        if constexpr (is_scalar_v<T>) {
            take(sizeof(T));
        } else if constexpr (listed<T>) {
            alignas(T) char raw[sizeof(T)];
            reinterpret_cast<T &>(raw).each([this](auto & m) { one<S, std::remove_cvref_t<decltype(m)>>(); });
        } else if constexpr (sized_object<T>) {
            alignas(T) char raw[sizeof(T)];
            []<typename X, typename Z>(scan & s, const zpp::bits::sized_item<X, Z> &) { s.template one<Z, X>(); }(*this, reinterpret_cast<T &>(raw));
        } else if constexpr (choice<T>) {
            auto p = at();
            if (take(1)) {
                auto id = u8(*p);
                known = known && id < std::variant_size_v<T>;
                [&]<std::size_t... I>(std::index_sequence<I...>) {
                    (void)((id == I ? (one<S, std::variant_alternative_t<I, T>>(), true) : false) || ...);
                }(std::make_index_sequence<std::variant_size_v<T>>{});
            }
        } else if constexpr (maybe<T>) {
            auto p = at();
            if (take(1) && *p) {
                one<S, std::remove_cvref_t<decltype(*std::declval<T &>())>>();
            }
        } else if constexpr (pointer_like<T>) {
            one<S, std::remove_cvref_t<decltype(*std::declval<T &>())>>();
        } else if constexpr (requires { std::tuple_size<T>::value; }) {
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                (one<S, std::remove_cvref_t<std::tuple_element_t<I, T>>>(), ...);
            }(std::make_index_sequence<std::tuple_size_v<T>>{});
        } else if constexpr (std::is_array_v<T>) {
            for (std::size_t i = 0; i < std::extent_v<T>; ++i) {
                one<S, std::remove_extent_t<T>>();
            }
        } else if constexpr (sequence<T>) {
            using E = std::remove_cvref_t<decltype(*std::declval<T &>().begin())>;
            auto p = at();
            if (take(sizeof(P))) {
                auto n = word<Big>(p, sizeof(P));
                if constexpr (sizeof(P) < 8) {
                    take(n * flat<E>());
                } else if (n > left / flat<E>()) {
                    ok = false;
                } else {
                    take(n * flat<E>());
                }
            }
        } else {
            static_assert(is_scalar_v<T>, "no rule");
        }
    }
};

// An arbitrary value of any supported shape; sequences have any length and
// content.  `limit` bounds sequence lengths (a prefix of one byte can only
// count to 255, which is the caller's obligation).
template <typename T>
inline T make(std::uint64_t limit = ~0ull)
{
    if constexpr (is_scalar_v<T>) {
        return any<T>();
    } else if constexpr (listed<T>) {
        T t{};
        t.each([&](auto & m) { m = make<std::remove_cvref_t<decltype(m)>>(limit); });
        return t;
    } else if constexpr (sized_object<T>) {
        return []<typename X, typename Z>(zpp::bits::sized_item<X, Z> *, std::uint64_t l) -> zpp::bits::sized_item<X, Z> {
            return make<X>(sizeof(Z) < 8 ? (1ull << (8 * sizeof(Z) % 64)) - 1 : l);
        }(static_cast<T *>(nullptr), limit);
    } else if constexpr (choice<T>) {
        T t{};
        std::uint64_t id = vp_nondet_u8();
        vp_assume(id < std::variant_size_v<T>);
        id = vp_pick(id, std::variant_size_v<T> - 1);
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            (void)((id == I ? (t.template emplace<I>(make<std::variant_alternative_t<I, T>>(limit)), true) : false) || ...);
        }(std::make_index_sequence<std::variant_size_v<T>>{});
        return t;
    } else if constexpr (maybe<T>) {
        T t{};
        if (vp_nondet_u8() & 1) {
            t.emplace(make<std::remove_cvref_t<decltype(*t)>>(limit));
        }
        return t;
    } else if constexpr (pointer_like<T>) {
        using P = std::remove_cvref_t<decltype(*std::declval<T &>())>;
        return T(new P(make<P>(limit)));
    } else if constexpr (requires { std::tuple_size<T>::value; }) {
        T t{};
        std::apply([&](auto &... m) { ((m = make<std::remove_cvref_t<decltype(m)>>(limit)), ...); }, t);
        return t;
    } else if constexpr (std::is_array_v<T>) {
        static_assert(!std::is_array_v<T>, "make arrays inside listed types");
    } else {
        using E = std::remove_cvref_t<decltype(*std::declval<T &>().begin())>;
        auto n = vp_nondet_size();
        vp_assume(n <= limit && n < (1ull << 40) / sizeof(E));
        auto p = static_cast<E *>(vp_region(n * sizeof(E)));
        return T(p, p + n);
    }
}
} // namespace vp
