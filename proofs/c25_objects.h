// Objects that keep account of themselves: each is alive from the end of its
// construction until it is destroyed once, and is used only in between.
#pragma once
#include "wire.h"
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <vector>
using namespace vp;

namespace ghost
{
u64 live;
}
constexpr u64 alive = 0xa11fea11fea11feaull, dead = 0xdeaddeaddeaddeadull;
struct life
{
    u64 state = alive;
    life() { ++ghost::live; }
    life(const life & o)
    {
        o.use();
        ++ghost::live;
    }
    life & operator=(const life & o)
    {
        o.use();
        use();
        return *this;
    }
    ~life()
    {
        vp_assert(state == alive, "only a live object is destroyed");
        state = dead;
        --ghost::live;
    }
    void use() const { vp_assert(state == alive, "only a live object is used"); }
};
// an object read in two steps, so that the input may end in its middle
struct tracked
{
    life l;
    u32 a = 1;
    u16 b = 2;
    static constexpr auto serialize(auto & archive, auto & self)
    {
        self.l.use();
        return archive(self.a, self.b);
    }
    auto operator<=>(const tracked & o) const
    {
        l.use(), o.l.use();
        return a <=> o.a;
    }
    bool operator==(const tracked & o) const { return a == o.a; }
};
// the same that only the archive can construct from nothing
struct hidden
{
    life l;
    u32 a = 1;
    u16 b = 2;
    explicit hidden(u32 a) : a(a) {}
    hidden(hidden &&) = default;
    hidden & operator=(hidden &&) = default;
    static constexpr auto serialize(auto & archive, auto & self)
    {
        self.l.use();
        return archive(self.a, self.b);
    }
    auto operator<=>(const hidden & o) const
    {
        l.use(), o.l.use();
        return a <=> o.a;
    }
    bool operator==(const hidden & o) const { return a == o.a; }

private:
    friend zpp::bits::access;
    hidden() = default;
};
static_assert(!std::is_default_constructible_v<hidden>);
// a loose end: its own reading fails when it likes
struct moody
{
    life l;
    u8 mood = 0;
    static constexpr auto serialize(auto & archive, auto & self) -> zpp::bits::errc
    {
        self.l.use();
        if (auto r = archive(self.mood); failure(r)) {
            return r;
        }
        return self.mood > 127 ? std::errc::bad_message : std::errc{};
    }
};
struct both
{
    tracked t;
    hidden h{5};
    u8 x = 0;
    using serialize = zpp::bits::members<3>;
};

// The objects a target holds, each used
template <typename T>
u64 held(T & t)
{
    if constexpr (requires { t.l.use(); }) {
        t.l.use();
        return 1;
    } else if constexpr (std::is_arithmetic_v<T>) {
        return 0;
    } else if constexpr (requires { t.h; }) {
        return held(t.t) + held(t.h);
    } else if constexpr (requires { t.has_value(); }) {
        return t ? held(*t) : 0;
    } else if constexpr (requires { t.release(); } || requires { t.use_count(); }) {
        return t ? held(*t) : 0;
    } else if constexpr (requires { t.valueless_by_exception(); }) {
        vp_assert(!t.valueless_by_exception(), "it holds one of its alternatives");
        return std::visit([](auto & x) { return held(x); }, t);
    } else if constexpr (requires { t.first; }) {
        return held(t.first) + held(t.second);
    } else if constexpr (requires { std::tuple_size<std::remove_cv_t<T>>::value; }) {
        return std::apply([](auto &... x) { return (u64(0) + ... + held(x)); }, t);
    } else {
        u64 n = 0;
        for (auto & x : t) {
            n += held(x);
        }
        return n;
    }
}
inline bool coin() { return vp_pick(vp_nondet_u8() & 1, 1); }
// Decode arbitrary input into the target, fully or failing wherever it ends,
// and then again from other input.
template <typename T, typename F>
void decoded(F fill)
{
    vp_throw_ok(1);
    const auto live = ghost::live = vp_nondet_u32();
    const auto heap = vp_heap_live();
    {
        auto target = fill();
        vp_assert(ghost::live == live + held(target), "what it held before");
        {
            source<> s;
            zpp::bits::in in{s.span};
            in.reset(s.pos);
            if (success(in(target))) {
                vp_cover("decoded");
            } else {
                vp_cover("failed");
            }
            vp_assert(ghost::live == live + held(target), "the target holds every object there is");
        }
        {
            source<> s;
            zpp::bits::in in{s.span};
            in.reset(s.pos);
            if (success(in(target))) {
                vp_cover("decoded again");
            } else {
                vp_cover("failed again");
            }
            vp_assert(ghost::live == live + held(target), "the target holds every object there is");
        }
    }
    vp_assert(ghost::live == live, "every object is destroyed");
    vp_assert(vp_heap_live() == heap, "every block is freed");
}
