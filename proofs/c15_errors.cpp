// C15: the first error stops the call and is returned unchanged.
#include "wire.h"
using namespace vp;
using namespace zpp::bits::options;

// Ghost state: what was processed, and the first error any of it returned.
namespace ghost
{
u64 calls;      // objects processed
bool failed;    // one of them failed
std::errc first; // with this error
u64 after;      // objects processed after that
void reset()
{
    calls = after = 0;
    failed = false;
    first = {};
}
std::errc step()
{
    ++calls;
    if (failed) {
        ++after;
    }
    auto e = std::errc(vp_nondet_u32()); // any error code, or success
    if (e != std::errc{} && !failed) {
        failed = true;
        first = e;
    }
    return e;
}
// the call's result, given how many objects it had to process
void check(zpp::bits::errc r, u64 all)
{
    vp_assert(after == 0, "nothing is processed after the first error");
    if (failed) {
        vp_cover("failed");
        vp_assert(r == first, "the first error is returned unchanged");
        vp_assert(failure(r), "as a failure");
        vp_assert(calls <= all && calls >= 1, "the failing object is the last one processed");
    } else {
        vp_cover("succeeded");
        vp_assert(r == std::errc{}, "no error without a failing object");
        vp_assert(calls == all, "every object is processed");
    }
}
} // namespace ghost
struct step
{
    u64 x{};
    static zpp::bits::errc serialize(auto &, auto &)
    {
        return ghost::step();
    }
};
// what users write: nested calls through the archive
struct user
{
    step a, b;
    static zpp::bits::errc serialize(auto & archive, auto & self)
    {
        if (auto r = archive(self.a); failure(r)) {
            return r;
        }
        return archive(self.b);
    }
};
struct plain_errc // serialize returning std::errc
{
    static std::errc serialize(auto &, auto &) { return ghost::step(); }
};
struct automatic { step a, b, c; };
struct counted { step a, b; using serialize = zpp::bits::members<2>; };
struct outer { user u; automatic m; step last; };
struct c_array { step s[3]; using serialize = zpp::bits::members<1>; };
// `v` holds `all` steps
template <typename T>
void nested_out(const T & v, u64 all)
{
    ghost::reset();
    sink<> s;
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    ghost::check(out(v), all);
}
template <typename T>
void nested_in(T & v, u64 all)
{
    ghost::reset();
    source<> s;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    ghost::check(in(v), all);
}
template <std::size_t... I>
void many(std::index_sequence<I...>)
{
    step v[sizeof...(I)];
    {
        ghost::reset();
        sink<> s;
        zpp::bits::out out{s.span};
        out.reset(s.pos);
        ghost::check(out(v[I]...), sizeof...(I));
    }
    {
        ghost::reset();
        source<> s;
        zpp::bits::in in{s.span};
        in.reset(s.pos);
        ghost::check(in(v[I]...), sizeof...(I));
    }
}
#define M(n) PROOF(many_##n) { many(std::make_index_sequence<n>{}); }
M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(12)
#define N(name, T, all) PROOF(name##_out) { T v; nested_out(v, all); } PROOF(name##_in) { T v; nested_in(v, all); }
using pair_t = std::pair<step, user>;
using tuple_t = std::tuple<step, automatic, step>;
using array_t = std::array<step, 5>;
using array2_t = std::array<std::array<step, 2>, 2>;
N(user, user, 2)
N(std_errc, plain_errc, 1)
N(automatic, automatic, 3)
N(counted, counted, 2)
N(outer, outer, 6)
N(pair, pair_t, 3)
N(tuple, tuple_t, 5)
N(array, array_t, 5)
N(array_of_array, array2_t, 4)
N(c_array, c_array, 3)
// objects around the failing one
PROOF(around_out)
{
    ghost::reset();
    sink<> s;
    u32 a = vp_nondet_u32(), b = vp_nondet_u32();
    step e, f;
    vp_assume(s.room() >= 8);
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = out(a, e, b, f);
    ghost::check(r, 2);
    bool second = ghost::calls == 2;
    vp_assert(out.position() == s.pos + (second ? 8 : 4), "nothing is written after the failure");
    vp_assert(s.frame(s.pos, s.pos + (second ? 8 : 4)), "bytes outside are unchanged");
    vp_assert(le(s.p + s.pos, 4) == a && (!second || le(s.p + s.pos + 4, 4) == b), "what came before is written");
}
PROOF(around_in)
{
    ghost::reset();
    source<> s;
    u32 a = 1, b = vp_nondet_u32(), b0 = b, c = vp_nondet_u32(), c0 = c;
    step e, f;
    vp_assume(s.n - s.pos >= 12);
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = in(a, e, b, f, c);
    ghost::check(r, 2);
    bool second = ghost::calls == 2;
    vp_assert(second || b == b0, "an object after the failure keeps its value");
    vp_assert(!ghost::failed || c == c0, "so does the last one");
    vp_assert(in.position() == s.pos + (second ? ghost::failed ? 8 : 12 : 4), "nothing is consumed after the failure");
}
// the library's own error in the middle
PROOF(truncated_in)
{
    ghost::reset();
    source<> s;
    u32 a = 1, c = vp_nondet_u32(), c0 = c;
    std::string b;
    step e;
    vp_throw_ok(1);
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto left = s.n - s.pos;
    auto r = in(a, b, e, c);
    if (ghost::calls == 0) {
        vp_cover("truncated before");
        vp_assert(r == out_of_range && c == c0, "out of range, and nothing later is touched");
        vp_assert(left < 8 || left - 8 < le(s.p + s.pos + 4, 4), "only when truncated");
    } else if (ghost::failed) {
        vp_cover("failed");
        vp_assert(r == ghost::first && c == c0 && ghost::calls == 1, "the object's error, and nothing later is touched");
    } else {
        vp_assert(success(r) || (r == out_of_range && c == c0), "the last one may still be truncated");
    }
}
PROOF(truncated_out)
{
    ghost::reset();
    sink<> s;
    u32 a = vp_nondet_u32(), c = vp_nondet_u32();
    step e;
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = out(a, e, c);
    if (ghost::calls == 0) {
        vp_cover("no room before");
        vp_assert(r == out_of_range && s.room() < 4, "out of range");
    } else if (ghost::failed) {
        vp_assert(r == ghost::first, "the object's error");
    } else {
        vp_assert(success(r) ? s.room() >= 8 : r == out_of_range && s.room() < 8, "the last one may not fit");
    }
}
// sequences of any length
PROOF(span_out)
{
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 32));
    std::span<const step> v{static_cast<const step *>(vp_region(n * sizeof(step))), n};
    ghost::reset();
    sink<> s;
    vp_assume(s.room() >= 4);
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    ghost::check(out(v), n);
}
PROOF(span_in)
{
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 36));
    std::span<step> v{static_cast<step *>(vp_region(n * sizeof(step))), n};
    ghost::reset();
    source<> s;
    vp_assume(s.n - s.pos >= 4 && le(s.p + s.pos, 4) <= n);
    auto count = le(s.p + s.pos, 4);
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    ghost::check(in(v), count);
}
PROOF(vector_in)
{
    vp_throw_ok(1);
    ghost::reset();
    source<> s;
    vp_assume(s.n - s.pos >= 4);
    std::vector<step> v;
    auto count = le(s.p + s.pos, 4);
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    ghost::check(in(v), count);
}
PROOF(vector_out)
{
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 32));
    auto p = static_cast<step *>(vp_region(n * sizeof(step)));
    std::vector<step> v(p, p + n);
    ghost::reset();
    sink<> s;
    vp_assume(s.room() >= 4);
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    ghost::check(out(v), n);
}
PROOF(vector_among_others)
{
    auto n = vp_nondet_size();
    vp_assume(n < (1ull << 32));
    auto p = static_cast<step *>(vp_region(n * sizeof(step)));
    std::span<step> v{p, n};
    step a, b;
    ghost::reset();
    sink<> s;
    vp_assume(s.room() >= 4);
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    ghost::check(out(a, v, b), n + 2);
}
PROOF(unsized_and_sized)
{
    auto n = vp_nondet_size();
    vp_assume(n < 256);
    std::span<step> v{static_cast<step *>(vp_region(n * sizeof(step))), n};
    step b;
    ghost::reset();
    source<> s;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    ghost::check(in(zpp::bits::unsized(v), b), n + 1);
    ghost::reset();
    sink<> t;
    vp_assume(t.room() >= 1);
    zpp::bits::out out{t.span};
    out.reset(t.pos);
    ghost::check(out(zpp::bits::sized<u8>(v), b), n + 1);
}
// optionals, pointers, variants
PROOF(optional_out) { std::optional<user> v; v.emplace(); ghost::reset(); sink<> s; vp_assume(s.room() >= 1); zpp::bits::out out{s.span}; out.reset(s.pos); step b; ghost::check(out(v, b), 3); }
PROOF(optional_in) { std::optional<user> v; ghost::reset(); source<> s; vp_assume(s.n - s.pos >= 1 && s.at(s.pos) != 0); zpp::bits::in in{s.span}; in.reset(s.pos); step b; ghost::check(in(v, b), 3); }
PROOF(unique_out) { auto v = std::make_unique<user>(); step b; ghost::reset(); sink<> s; zpp::bits::out out{s.span}; out.reset(s.pos); ghost::check(out(v, b), 3); }
PROOF(unique_in) { std::unique_ptr<user> v; step b; ghost::reset(); source<> s; zpp::bits::in in{s.span}; in.reset(s.pos); ghost::check(in(v, b), 3); }
PROOF(optional_ptr_out) { zpp::bits::optional_ptr<user> v{new user}; step b; ghost::reset(); sink<> s; vp_assume(s.room() >= 1); zpp::bits::out out{s.span}; out.reset(s.pos); ghost::check(out(v, b), 3); }
PROOF(optional_ptr_in) { zpp::bits::optional_ptr<user> v; step b; ghost::reset(); source<> s; vp_assume(s.n - s.pos >= 1 && s.at(s.pos) != 0); zpp::bits::in in{s.span}; in.reset(s.pos); ghost::check(in(v, b), 3); }
PROOF(null_out)
{
    std::unique_ptr<user> v;
    step a, b;
    ghost::reset();
    sink<> s;
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    auto r = out(a, v, b);
    vp_assert(ghost::calls == 1 && r == (ghost::failed ? ghost::first : std::errc::invalid_argument), "the null pointer stops it");
    if (!ghost::failed) {
        vp_cover("null");
    }
}
using var = std::variant<u8, user, step>;
PROOF(variant_out)
{
    auto i = vp_pick(vp_nondet_u8() & 1, 1);
    var v;
    if (i) {
        v.emplace<1>();
    } else {
        v.emplace<2>();
    }
    step b;
    ghost::reset();
    sink<> s;
    vp_assume(s.room() >= 1);
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    ghost::check(out(v, b), i ? 3 : 2);
}
PROOF(variant_in)
{
    var v;
    step b;
    ghost::reset();
    source<> s;
    vp_assume(s.n - s.pos >= 1 && s.at(s.pos) != 0);
    auto id = s.at(s.pos);
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    auto r = in(v, b);
    if (id > 2) {
        vp_cover("unknown");
        vp_assert(r == std::errc::bad_message && ghost::calls == 0, "an unknown identifier stops it");
    } else {
        ghost::check(r, id == 1 ? 3 : 2);
    }
}
PROOF(known_id)
{
    var v;
    step b;
    ghost::reset();
    source<> s;
    zpp::bits::in in{s.span};
    in.reset(s.pos);
    ghost::check(in(zpp::bits::known_id<std::byte{1}>(v), b), 3);
    ghost::reset();
    ghost::check(in(zpp::bits::known_id(std::byte{2}, v), b), 2);
    ghost::reset();
    sink<> t;
    zpp::bits::out out{t.span};
    v.emplace<1>();
    ghost::check(out(zpp::bits::known_id<std::byte{1}>(v), b), 3);
}
// an alternative, optional or pointee that only the library can construct
class hidden
{
  public:
    hidden(hidden &&) = default;
    hidden & operator=(hidden &&) = default;
    explicit hidden(int) {}
    static zpp::bits::errc serialize(auto &, auto &) { return ghost::step(); }

  private:
    friend zpp::bits::access;
    hidden() = default;
};
PROOF(hidden_optional) { std::optional<hidden> v; ghost::reset(); source<> s; vp_assume(s.n - s.pos >= 1 && s.at(s.pos) != 0); zpp::bits::in in{s.span}; in.reset(s.pos); step b; ghost::check(in(v, b), 2); vp_assert(v.has_value() == (!ghost::failed || ghost::calls == 2), "a value only after success"); }
PROOF(hidden_variant) { std::variant<u8, hidden> v; ghost::reset(); source<> s; vp_assume(s.n - s.pos >= 1 && s.at(s.pos) == 1); zpp::bits::in in{s.span}; in.reset(s.pos); step b; ghost::check(in(v, b), 2); vp_assert((v.index() == 1) == (!ghost::failed || ghost::calls == 2), "a value only after success"); }
PROOF(hidden_known) { std::variant<u8, hidden> v; ghost::reset(); source<> s; zpp::bits::in in{s.span}; in.reset(s.pos); step b; ghost::check(in(zpp::bits::known_id<std::byte{1}>(v), b), 2); }
PROOF(hidden_pointer) { std::unique_ptr<hidden> v; ghost::reset(); source<> s; zpp::bits::in in{s.span}; in.reset(s.pos); step b; ghost::check(in(v, b), 2); vp_assert((v != nullptr) == (!ghost::failed || ghost::calls == 2), "a value only after success"); }
// a growing output passes errors on as well
PROOF(growing)
{
    vp_throw_ok(1);
    std::vector<std::byte> data;
    step a, b;
    user u;
    ghost::reset();
    zpp::bits::out out{data};
    ghost::check(out(a, u, b), 4);
}
PROOF(in_out_helpers)
{
    vp_throw_ok(1);
    step a, b;
    {
        auto [data, in, out] = zpp::bits::data_in_out();
        ghost::reset();
        ghost::check(out(a, b), 2);
        ghost::reset();
        ghost::check(in(a, b), 2);
    }
}
// success and failure are exact opposites of each other
PROOF(success_failure)
{
    auto e = std::errc(vp_nondet_u32());
    zpp::bits::errc c{e};
    vp_assert(success(c) == (e == std::errc{}) && failure(c) == (e != std::errc{}), "of a result");
    vp_assert(success(e) == (e == std::errc{}) && failure(e) == (e != std::errc{}), "of a code");
    vp_assert(std::errc(c) == e && c.code == e, "the code is kept");
    vp_assert(success(zpp::bits::errc{}), "success by default");
    vp_cover("all codes");
}
