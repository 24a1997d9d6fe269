// vp-flags: -fexceptions
// C24: the result type that carries a value or an error.  Every operation of
// the type is under contract for either state it starts from; a history is a
// sequence of these operations.
#include "wire.h"
#ifdef VP_VERIFY
// Assumed: std::generic_category() is some fixed category object.
namespace vp
{
struct category : std::error_category
{
    const char * name() const noexcept override { return "generic"; }
    std::string message(int) const override { return {}; }
};
inline category the_category;
} // namespace vp
namespace std { inline namespace _V2 { const error_category & generic_category() noexcept { return vp::the_category; } } }
#endif
using namespace vp;
template <typename T>
using voe = zpp::bits::value_or_errc<T>;

// An object that knows whether it is alive: using or destroying one that is
// not, and destroying one twice, fails.
namespace ghost { u64 live = 0, copies = 0, moves = 0; }
constexpr u64 alive = 0x1122334455667788, dead = 0x99aabbccddeeff00;
template <bool Copy>
struct tracked_as
{
    u64 state = alive;
    u32 v = 0;
    bool moved = false;
    tracked_as() { ++ghost::live; }
    explicit tracked_as(u32 v) : v(v) { ++ghost::live; }
    tracked_as(const tracked_as & o) requires Copy : v(o.v)
    {
        o.use();
        ++ghost::live, ++ghost::copies;
    }
    tracked_as(tracked_as && o) noexcept : v(o.v)
    {
        o.use();
        o.moved = true;
        o.v = 0;
        ++ghost::live, ++ghost::moves;
    }
    tracked_as & operator=(const tracked_as &) = delete;
    ~tracked_as()
    {
        vp_assert(state == alive, "only a live object is destroyed");
        state = dead;
        --ghost::live;
    }
    void use() const
    {
        vp_assert(state == alive, "only a live object is used");
        vp_assert(!moved, "the object still has its value");
    }
};
using tracked = tracked_as<true>;
using handle = tracked_as<false>;

bool coin()
{
    return vp_pick(vp_nondet_u8() & 1, 1);
}
template <typename T>
T fresh(u64 n)
{
    if constexpr (requires { T(u32(n)).use(); }) {
        return T(u32(n));
    } else if constexpr (std::is_same_v<T, std::unique_ptr<u64>>) {
        return std::make_unique<u64>(n);
    } else if constexpr (std::is_same_v<T, std::string>) {
        return make<std::string>(n);
    } else if constexpr (std::is_same_v<T, double>) {
        return from_bits<double>(n);
    } else {
        return T(n);
    }
}
// does t hold what fresh(n) made?
template <typename T>
bool holds(const T & t, u64 n)
{
    if constexpr (requires { t.use(); }) {
        t.use();
        return t.v == u32(n);
    } else if constexpr (std::is_same_v<T, std::unique_ptr<u64>>) {
        return t && *t == n;
    } else if constexpr (std::is_same_v<T, double>) {
        return bits(t) == n;
    } else {
        return t == T(n);
    }
}
// 0 when f returns, 1 when it throws the exception of error e, 2 otherwise
template <typename F>
int outcome(std::errc e, F f)
{
    try {
        f();
        return 0;
    } catch (const std::system_error & x) {
        return x.code() == std::make_error_code(e) ? 1 : 2;
    } catch (...) {
        return 2;
    }
}
struct balance
{
    u64 live = ghost::live, heap = vp_heap_live();
    ~balance() { vp_assert(ghost::live == live && vp_heap_live() == heap, "every object is destroyed exactly once"); }
};
// what an object holds must be what n and e say
template <typename T>
void check(const voe<T> & v, bool ok, u64 n, std::errc e)
{
    vp_assert(v.success() == ok && v.failure() == !ok, "success exactly with a value");
    vp_assert(zpp::bits::success(v) == ok && zpp::bits::failure(v) == !ok, "the same asked from outside");
    if (ok) {
        vp_assert(holds(v.value(), n), "the value");
    } else {
        vp_assert(v.error().code == e && v.error() == e, "the error");
    }
}
template <typename T>
voe<T> some(bool ok, u64 n, std::errc e)
{
    if (ok) {
        return voe<T>{fresh<T>(n)};
    }
    return voe<T>{zpp::bits::errc{e}};
}
template <typename T>
void made()
{
    vp_throw_ok(1);
    auto n = vp_nondet_u64();
    auto e = std::errc(vp_nondet_u32());
    balance b;
    if (coin()) {
        vp_cover("value");
        auto moves = ghost::moves;
        voe<T> v{fresh<T>(n)};
        check(v, true, n, e);
        if constexpr (std::is_same_v<T, handle>) {
            vp_assert(ghost::moves == moves + 1 && ghost::live == b.live + 1, "moved in");
        }
    } else {
        vp_cover("error");
        if (coin()) {
            voe<T> v{zpp::bits::errc{e}};
            check(v, false, n, e);
        } else {
            const zpp::bits::errc c{e};
            voe<T> v{c};
            check(v, false, n, e);
        }
        vp_assert(ghost::live == b.live, "an error has no object");
    }
}
template <typename T>
void copied_in()
{
    vp_throw_ok(1);
    auto n = vp_nondet_u64();
    balance b;
    T t = fresh<T>(n);
    {
        voe<T> v{t};
        check(v, true, n, {});
        vp_assert(holds(t, n), "the original is kept");
        const T & ct = t;
        voe<T> w{ct};
        check(w, true, n, {});
    }
    vp_assert(holds(t, n), "and independent");
    vp_cover("value");
}
template <typename T>
void moved()
{
    vp_throw_ok(1);
    auto n = vp_nondet_u64();
    auto e = std::errc(vp_nondet_u32());
    bool ok = coin();
    balance b;
    {
        auto v = some<T>(ok, n, e);
        check(v, ok, n, e);
        auto copies = ghost::copies;
        voe<T> w{std::move(v)};
        check(w, ok, n, e);
        vp_assert(v.success() == ok, "a value stays a value, if an empty one");
        vp_assert(v.success() || v.error().code == e, "an error stays that error");
        vp_assert(ghost::copies == copies, "moved, not copied");
        voe<T> x{std::move(w)};
        check(x, ok, n, e);
        vp_cover(ok ? "value" : "error");
    }
}
template <typename T>
void taken()
{
    vp_throw_ok(1);
    auto n = vp_nondet_u64();
    balance b;
    {
        voe<T> v{fresh<T>(n)};
        vp_assert(&v.value() == &std::as_const(v).value(), "the value itself");
        T t = std::move(v).value();
        vp_assert(holds(t, n), "the value moves out unchanged");
        static_assert(std::is_same_v<decltype(std::move(v).value()), T &&>);
        static_assert(std::is_same_v<decltype(v.value()), T &>);
        static_assert(std::is_same_v<decltype(std::as_const(v).value()), const T &>);
        vp_cover("taken");
    }
}
template <typename T>
void thrown()
{
    vp_throw_ok(1);
    auto n = vp_nondet_u64();
    auto e = std::errc(vp_nondet_u32());
    bool ok = coin();
    balance b;
    {
        auto v = some<T>(ok, n, e);
        bool good = false;
        auto r = outcome(e, [&] { good = holds(v.or_throw(), n); });
        vp_assert(r == (ok ? 0 : 1), "the exception of the error exactly when there is one");
        vp_assert(good == ok, "the value when there is one");
        good = false;
        r = outcome(e, [&] { good = holds(std::as_const(v).or_throw(), n); });
        vp_assert(r == (ok ? 0 : 1) && good == ok, "also when constant");
        check(v, ok, n, e);
        good = false;
        r = outcome(e, [&] {
            T t = std::move(v).or_throw();
            good = holds(t, n);
        });
        vp_assert(r == (ok ? 0 : 1) && good == ok, "and when moved from");
        vp_cover(ok ? "value" : "error");
    }
}
template <typename T>
void empty()
{
    balance b;
    voe<T> v;
    vp_assert(v.success() && !v.failure(), "a default one is a success");
    vp_assert(holds(v.value(), 0), "with a default value");
    vp_cover("default");
}
#define ALL(name, ...)                                     \
    PROOF(made_##name) { made<__VA_ARGS__>(); }            \
    PROOF(moved_##name) { moved<__VA_ARGS__>(); }          \
    PROOF(taken_##name) { taken<__VA_ARGS__>(); }          \
    PROOF(thrown_##name) { thrown<__VA_ARGS__>(); }
ALL(int, u32)
ALL(u64, u64)
ALL(u8, u8)
ALL(double, double)
ALL(tracked, tracked)
ALL(handle, handle)
ALL(unique, std::unique_ptr<u64>)
PROOF(copied_u32) { copied_in<u32>(); }
PROOF(copied_tracked) { copied_in<tracked>(); }
PROOF(empty_u32) { empty<u32>(); }
PROOF(empty_tracked) { empty<tracked>(); }
PROOF(empty_handle) { empty<handle>(); }

template <typename R>
void referenced()
{
    using T = std::remove_reference_t<R>;
    auto e = std::errc(vp_nondet_u32());
    std::remove_const_t<T> t = fresh<std::remove_const_t<T>>(vp_nondet_u64());
    balance b;
    if (coin()) {
        voe<R> v{static_cast<T *>(&t)};
        vp_assert(v.success() && !v.failure(), "success with a reference");
        vp_assert(&v.value() == &t && &std::as_const(v).value() == &t, "the object itself");
        static_assert(std::is_same_v<decltype(v.value()), T &> && std::is_same_v<decltype(std::move(v).value()), R>);
        voe<R> w{std::move(v)};
        vp_assert(w.success() && &w.value() == &t && v.success() && &v.value() == &t, "still the object itself");
        T * p = nullptr;
        vp_assert(outcome(e, [&] { p = &w.or_throw(); }) == 0 && p == &t, "nothing to throw");
        vp_cover("reference");
    } else {
        voe<R> v{zpp::bits::errc{e}};
        vp_assert(v.failure() && !v.success() && v.error().code == e, "the error");
        voe<R> w{std::move(v)};
        vp_assert(w.failure() && w.error().code == e, "still the error");
        vp_assert(outcome(e, [&] { (void)w.or_throw(); }) == 1, "and its exception");
        vp_cover("error");
    }
}
PROOF(reference) { referenced<u32 &>(); }
PROOF(reference_const) { referenced<const u64 &>(); }
PROOF(reference_tracked) { referenced<tracked &>(); }
PROOF(nothing)
{
    auto e = std::errc(vp_nondet_u32());
    if (coin()) {
        voe<void> v;
        vp_assert(v.success() && !v.failure() && zpp::bits::success(v), "a success without a value");
        voe<void> w{std::move(v)};
        vp_assert(w.success() && !w.failure(), "still a success");
        vp_cover("success");
    } else {
        voe<void> v{zpp::bits::errc{e}};
        vp_assert(v.failure() && !v.success() && v.error().code == e, "the error");
        voe<void> w{std::move(v)};
        vp_assert(w.failure() && w.error().code == e && v.error().code == e, "still the error");
        vp_cover("error");
    }
}
