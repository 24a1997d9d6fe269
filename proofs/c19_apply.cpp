// C19: calling a function from serialized arguments.
#include "wire.h"
using namespace vp;
using namespace zpp::bits::options;

// What the called functions were given, measured against the input.
namespace ghost
{
const void * base = nullptr; // where the arguments start
u64 calls = 0, used = 0;
bool equal = false;
u64 answer = 0;
const void * self = nullptr;
char text[] = "the answer of the function, long enough not to be short";
}
struct plain { u16 a; u32 b; auto each(auto f) { f(a), f(b); } auto each(auto f) const { f(a), f(b); } };

template <bool Big, typename R, typename... A>
R body(const A &... a)
{
    ++ghost::calls;
    spell<Big> w{ghost::base, 0, true, true};
    w(a...);
    ghost::equal = w.ok;
    ghost::used = w.off;
    if constexpr (!std::is_void_v<R>) {
        if constexpr (std::is_same_v<R, std::string>) {
            return std::string(ghost::text, sizeof(ghost::text) - 1);
        } else if constexpr (std::is_same_v<R, std::unique_ptr<u64>>) {
            return std::make_unique<u64>(ghost::answer);
        } else if constexpr (std::is_same_v<R, zpp::bits::errc>) {
            return std::errc(int(ghost::answer));
        } else {
            return from_bits<R>(ghost::answer);
        }
    }
}
template <typename R>
bool answered(const R & r)
{
    if constexpr (std::is_same_v<R, std::string>) {
        return r.size() == sizeof(ghost::text) - 1 && !std::memcmp(r.data(), ghost::text, r.size());
    } else if constexpr (std::is_same_v<R, std::unique_ptr<u64>>) {
        return r && *r == ghost::answer;
    } else {
        return bits(r) == bits(from_bits<R>(ghost::answer));
    }
}
// Applies f through `call` to any input; A are the parameters it declares.
template <bool Big, typename R, typename... A, typename F, typename... Opt>
void applied(F call, Opt... opt)
{
    vp_throw_ok(1);
    source<> s;
    auto heap = vp_heap_live();
    ghost::calls = 0;
    ghost::base = s.p + s.pos;
    ghost::answer = vp_nondet_u64();
    scan<Big> need{s.p + s.pos, s.n - s.pos};
    (void)(need.template of<A>() && ...);
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    {
        auto r = call(in);
        if (need.ok && need.known) {
            vp_assert(ghost::calls == 1, "called once");
            vp_assert(ghost::equal, "with the arguments in order");
            vp_assert(ghost::used == need.off && in.position() == s.pos + need.off, "exactly their bytes are consumed");
            if constexpr (std::is_void_v<R>) {
                static_assert(std::is_same_v<decltype(r), zpp::bits::errc>);
                vp_assert(success(r), "success");
            } else {
                static_assert(std::is_same_v<decltype(r), zpp::bits::value_or_errc<R>>);
                vp_assert(r.success(), "success");
                vp_assert(answered(r.value()), "the result unchanged");
            }
            vp_cover("called");
        } else {
            vp_assert(ghost::calls == 0, "not called without all arguments");
            if constexpr (std::is_void_v<R>) {
                vp_assert(failure(r), "the error");
                vp_assert(need.ok || r == out_of_range, "out of range when truncated");
            } else {
                vp_assert(r.failure(), "the error");
                vp_assert(need.ok || r.error().code == out_of_range, "out of range when truncated");
            }
            vp_cover("not called");
        }
        vp_assert(in.position() <= s.n, "position stays inside");
    }
    vp_assert(vp_heap_live() == heap, "nothing is leaked");
}

u64 two(u8 a, u32 b) { return body<false, u64>(a, b); }
void three(u64 a, const u16 & b, u8 && c) { body<false, void>(a, b, c); }
u32 one(plain p) noexcept { return body<false, u32>(p); }
std::string texts(std::string a, const std::string & b) { return body<false, std::string>(a, b); }
std::unique_ptr<u64> several(std::vector<u16> a, std::optional<u32> b, std::array<u8, 3> c) { return body<false, std::unique_ptr<u64>>(a, b, c); }
u8 alternatives(std::variant<u8, u32> a, u16 b) { return body<false, u8>(a, b); }
u16 owner(std::unique_ptr<u32> p, std::tuple<u8, u16> t) { return body<false, u16>(p, t); }
u64 two_big(u16 a, u32 b) { return body<true, u64>(a, b); }
double real(double a, float b) { return body<false, double>(a, b); }

#define FREE(name, fn, R, ...) \
    PROOF(free_##name) { applied<false, R, __VA_ARGS__>([](auto & in) { return zpp::bits::apply(fn, in); }); }
FREE(two, two, u64, u8, u32)
FREE(three, three, void, u64, u16, u8)
FREE(one, one, u32, plain)
FREE(texts, texts, std::string, std::string, std::string)
FREE(several, several, std::unique_ptr<u64>, std::vector<u16>, std::optional<u32>, std::array<u8, 3>)
FREE(alternatives, alternatives, u8, std::variant<u8, u32>, u16)
FREE(owner, owner, u16, std::unique_ptr<u32>, std::tuple<u8, u16>)
FREE(real, real, double, double, float)
FREE(address, &two, u64, u8, u32)
PROOF(free_big) { applied<true, u64, u16, u32>([](auto & in) { return zpp::bits::apply(two_big, in); }, zpp::bits::endian::big{}); }

// Function objects
PROOF(lambda)
{
    u64 captured = 0;
    auto f = [&captured](u8 a, u32 b) { ++captured; return body<false, u64>(a, b); };
    applied<false, u64, u8, u32>([&](auto & in) { return zpp::bits::apply(f, in); });
    vp_assert(captured == ghost::calls, "the object itself is called");
}
PROOF(lambda_mutable)
{
    auto f = [n = u64()](u16 a) mutable { ++n; body<false, void>(a); return n; };
    ghost::answer = 1;
    vp_throw_ok(1);
    source<> s;
    ghost::calls = 0;
    ghost::base = s.p + s.pos;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = zpp::bits::apply(f, in);
    vp_assert(r.success() == (s.n - s.pos >= 2), "called when the argument is there");
    vp_assert(r.failure() || (r.value() == 1 && ghost::calls == 1 && ghost::equal), "once");
    vp_cover(r.success() ? "called" : "not called");
}
PROOF(lambda_void) { applied<false, void, u32, u64>([](auto & in) { return zpp::bits::apply([](u32 a, u64 b) { body<false, void>(a, b); }, in); }); }
PROOF(lambda_const) { const auto f = [](const std::string & a) { return body<false, u32>(a); }; applied<false, u32, std::string>([&](auto & in) { return zpp::bits::apply(f, in); }); }
struct functor
{
    u64 operator()(u8 a, u8 b) noexcept { ghost::self = this; return body<false, u64>(a, b); }
};
PROOF(functor)
{
    functor f;
    ghost::self = &f;
    applied<false, u64, u8, u8>([&](auto & in) { return zpp::bits::apply(f, in); });
    vp_assert(ghost::self == &f, "this very object");
}
// Members
struct object
{
    u64 add(u32 a, u64 b) { ghost::self = this; return body<false, u64>(a, b); }
    u64 fixed(u32 a, u64 b) const { ghost::self = this; return body<false, u64>(a, b); }
    void nothing(u16 a) noexcept { ghost::self = this; body<false, void>(a); }
    std::string text(const std::string & a, u8 b) const noexcept { ghost::self = this; return body<false, std::string>(a, b); }
    u32 none() { ghost::self = this; ++ghost::calls; return u32(ghost::answer); }
    void none_void() { ghost::self = this; ++ghost::calls; }
};
#define MEMBER(name, R, ...)                                                                                        \
    PROOF(member_##name)                                                                                            \
    {                                                                                                               \
        object o;                                                                                                   \
        ghost::self = &o;                                                                                           \
        applied<false, R, __VA_ARGS__>([&](auto & in) { return zpp::bits::apply(o, &object::name, in); });          \
        vp_assert(ghost::self == &o, "this very object");                                                           \
    }
MEMBER(add, u64, u32, u64)
MEMBER(fixed, u64, u32, u64)
MEMBER(nothing, void, u16)
MEMBER(text, std::string, std::string, u8)
PROOF(member_const_object)
{
    const object o;
    ghost::self = &o;
    applied<false, u64, u32, u64>([&](auto & in) { return zpp::bits::apply(o, &object::fixed, in); });
    vp_assert(ghost::self == &o, "this very object");
}
// Without parameters nothing is read.
u64 none() { ++ghost::calls; return ghost::answer; }
void none_void() noexcept { ++ghost::calls; }
PROOF(no_parameters)
{
    source<> s;
    object o;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    ghost::calls = 0;
    ghost::answer = vp_nondet_u64();
    vp_assert(zpp::bits::apply(none, in) == ghost::answer && ghost::calls == 1, "a function");
    zpp::bits::apply(none_void, in);
    vp_assert(ghost::calls == 2, "one without a result");
    vp_assert(zpp::bits::apply([] { ++ghost::calls; return ghost::answer; }, in) == ghost::answer && ghost::calls == 3, "a function object");
    vp_assert(zpp::bits::apply(o, &object::none, in) == u32(ghost::answer) && ghost::calls == 4 && ghost::self == &o, "a member");
    zpp::bits::apply(o, &object::none_void, in);
    vp_assert(ghost::calls == 5, "one without a result");
    vp_assert(in.position() == s.pos, "nothing is read");
    vp_cover("called");
}
