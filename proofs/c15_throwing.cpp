// vp-flags: -fexceptions
// C15: the converting helpers raise exactly the exception for the error when
// and only when there is one.
#include "wire.h"
#ifdef VP_VERIFY
// Assumed: std::generic_category() is some fixed category object.
namespace vp
{
struct category : std::error_category
{
    const char * name() const noexcept override { return "generic"; }
    std::string message(int) const override { return {}; }
};
inline category the_category;
} // namespace vp
namespace std { inline namespace _V2 { const error_category & generic_category() noexcept { return vp::the_category; } } }
#endif
using namespace vp;

namespace ghost { u64 calls; }
struct step
{
    u32 value = 0;
    static zpp::bits::errc serialize(auto & archive, auto & self)
    {
        ++ghost::calls;
        if (vp_nondet_u8() & 1) {
            return std::errc(vp_nondet_u32());
        }
        return archive(self.value);
    }
};
// runs f: 0 when it returns, 1 when it throws the exception of error e, 2 otherwise
template <typename F>
int outcome(std::errc e, F f)
{
    try {
        f();
        return 0;
    } catch (const std::system_error & x) {
        return x.code() == std::make_error_code(e) ? 1 : 2;
    } catch (...) {
        return 2;
    }
}
PROOF(errc_or_throw)
{
    auto e = std::errc(vp_nondet_u32());
    zpp::bits::errc c{e};
    auto r = outcome(e, [&] { c.or_throw(); });
    vp_assert(r == (e == std::errc{} ? 0 : 1), "exactly the exception of the error, only when there is one");
    if (r) {
        vp_cover("thrown");
    } else {
        vp_cover("not thrown");
    }
}
PROOF(in_or_throw)
{
    source<> s;
    step a, b;
    u32 c;
    zpp::bits::in in{s.span}, same{s.span};
    in.reset(s.pos);
    ghost::calls = 0;
    std::errc e{};
    auto r = outcome(e, [&] {
        auto result = in(a, c, b);
        e = result;
        result.or_throw();
    });
    vp_assert((r == 0) == (e == std::errc{}), "thrown exactly when the call fails");
    if (r == 0) {
        vp_cover("read");
        vp_assert(ghost::calls == 2, "every object");
    } else {
        vp_cover("thrown");
    }
}
PROOF(out_or_throw)
{
    sink<> s;
    u32 a = vp_nondet_u32();
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = outcome(out_of_range, [&] { out(a).or_throw(); });
    vp_assert(r == (s.room() >= 4 ? 0 : 1), "thrown exactly when it does not fit");
    if (r) {
        vp_cover("thrown");
    } else {
        vp_cover("written");
    }
}
PROOF(value_or_throw)
{
    auto e = std::errc(vp_nondet_u32());
    bool good = vp_nondet_u8() & 1;
    auto x = vp_nondet_u32();
    vp_assume(e != std::errc{});
    auto v = good ? zpp::bits::value_or_errc<u32>{u32(x)} : zpp::bits::value_or_errc<u32>{zpp::bits::errc(e)};
    u32 got = 0;
    auto r = outcome(e, [&] { got = v.or_throw(); });
    vp_assert(r == (good ? 0 : 1) && (!good || got == x), "the value, or the exception of the error");
    got = 0;
    r = outcome(e, [&] { got = std::as_const(v).or_throw(); });
    vp_assert(r == (good ? 0 : 1) && (!good || got == x), "the value, or the exception of the error (const)");
    got = 0;
    r = outcome(e, [&] { got = std::move(v).or_throw(); });
    vp_assert(r == (good ? 0 : 1) && (!good || got == x), "the value, or the exception of the error (moved)");
    if (r) {
        vp_cover("thrown");
    } else {
        vp_cover("value");
    }
}
