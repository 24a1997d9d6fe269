// C14: optionals and owning pointers encode presence faithfully.
#include "wire.h"
using namespace vp;
using namespace zpp::bits::options;

struct plain { u16 a; u8 b; auto each(auto f) { f(a), f(b); } auto each(auto f) const { f(a), f(b); } };
struct node { u32 v; std::unique_ptr<u8> p; auto each(auto f) { f(v), f(p); } auto each(auto f) const { f(v), f(p); } };
// default construction only through the library
class hidden
{
  public:
    u32 v;
    explicit hidden(u32 v) : v(v) {}
    auto each(auto f) { f(v); }
    auto each(auto f) const { f(v); }

  private:
    friend zpp::bits::access;
    hidden() : v(0x5a5a) {}
    using serialize = zpp::bits::members<1>;
};
// how many objects exist, and an identity for each
struct tracked
{
    static inline u64 live = 0, serial = 0;
    u64 id;
    u32 v{};
    tracked() : id(++serial) { ++live; }
    tracked(const tracked & o) : id(++serial), v(o.v) { ++live; }
    tracked & operator=(const tracked & o) { v = o.v; return *this; }
    ~tracked() { --live; }
    auto each(auto f) { f(v); }
    auto each(auto f) const { f(v); }
    static constexpr auto serialize(auto & archive, auto & self) { return archive(self.v); }
};
template <typename T>
T fresh()
{
    if constexpr (std::is_same_v<T, hidden>) {
        return hidden(vp_nondet_u32());
    } else if constexpr (std::is_same_v<T, tracked>) {
        tracked t;
        t.v = vp_nondet_u32();
        return t;
    } else {
        return make<T>(0xffffffff);
    }
}
bool coin()
{
    return vp_pick(vp_nondet_u8() & 1, 1);
}
template <typename T, bool Big = false, typename... Opt>
void optional_out(Opt... opt)
{
    sink<> s;
    std::optional<T> v;
    measure<> m;
    if (coin()) {
        v.emplace(fresh<T>());
        m(*v);
    }
    auto size = 1 + m.off;
    const auto & cv = v;
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(cv);
    if (success(r)) {
        vp_assert(size <= s.room() && out.position() == s.pos + size, "presence and the value when present");
        vp_assert(s.at(s.pos) == (v ? 1 : 0), "one presence byte, zero or one");
        if (v) {
            vp_cover("value");
            spell<Big> w{s.p + s.pos + 1};
            w(*v);
            vp_assert(w.ok, "followed by the value");
        } else {
            vp_cover("empty");
        }
        vp_assert(s.frame(s.pos, s.pos + size), "bytes outside are unchanged");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range && size > s.room(), "refused only when it does not fit");
    }
}
template <typename T, bool Big = false, typename... Opt>
void optional_in(Opt... opt)
{
    vp_throw_ok(1);
    source<> s;
    auto live = vp_heap_live();
    {
        std::optional<T> v;
        bool held = coin();
        if (held) {
            v.emplace(fresh<T>());
        }
        auto left = s.n - s.pos;
        bool has = left != 0, present = has && s.at(s.pos) != 0;
        zpp::bits::in in{s.span, Opt(opt)...};
        in.reset(s.pos);
        auto r = in(v);
        if (success(r)) {
            vp_assert(has, "only with a presence byte");
            vp_assert(v.has_value() == present, "engaged when present");
            if (v) {
                vp_cover("value");
                scan<Big> need{s.p + s.pos + 1, left - 1};
                vp_assert(need.template of<T>(), "only when the value is there");
                vp_assert(in.position() == s.pos + 1 + need.off, "exactly the presence and the value");
                spell<Big> w{s.p + s.pos + 1, 0, true, true};
                w(*v);
                vp_assert(w.ok, "with the value read");
            } else {
                vp_cover("empty");
                vp_assert(in.position() == s.pos + 1, "exactly the presence");
            }
        } else {
            if (has) {
                vp_cover("truncated value");
                scan<Big> need{s.p + s.pos + 1, left - 1};
                need.template of<T>();
                vp_assert(present && !(need.ok && need.known), "refused only when the value is");
                vp_assert(r == (need.known ? out_of_range : std::errc::bad_message), "with its error");
            } else {
                vp_cover("no presence");
                vp_assert(r == out_of_range && v.has_value() == held, "nothing happened");
            }
            vp_assert(in.position() >= s.pos && in.position() <= s.n, "position stays inside");
        }
    }
    vp_assert(vp_heap_live() == live, "what was held before is released");
}
template <typename P, bool Big = false, typename... Opt>
void pointer_out(Opt... opt)
{
    using T = typename P::element_type;
    sink<> s;
    P v;
    measure<> m;
    if (coin()) {
        v.reset(new T(fresh<T>()));
        m(*v);
    }
    const auto & cv = v;
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(cv);
    if (!v) {
        vp_cover("null");
        vp_assert(r == std::errc::invalid_argument, "a null pointer is an invalid argument");
        vp_assert(out.position() == s.pos && s.frame(0, 0), "and nothing is written");
    } else if (success(r)) {
        vp_cover("value");
        vp_assert(m.off <= s.room() && out.position() == s.pos + m.off, "exactly the pointee");
        spell<Big> w{s.p + s.pos};
        w(*v);
        vp_assert(w.ok, "encoded as its pointee");
        vp_assert(s.frame(s.pos, s.pos + m.off), "bytes outside are unchanged");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range && m.off > s.room(), "refused only when it does not fit");
    }
}
template <typename P, bool Big = false, typename... Opt>
void pointer_in(Opt... opt)
{
    using T = typename P::element_type;
    vp_throw_ok(1);
    source<> s;
    auto live = vp_heap_live();
    {
        P v;
        if (coin()) {
            v.reset(new T(fresh<T>()));
        }
        auto before = v.get();
        zpp::bits::in in{s.span, Opt(opt)...};
        in.reset(s.pos);
        auto r = in(v);
        scan<Big> need{s.p + s.pos, s.n - s.pos};
        need.template of<T>();
        if (success(r)) {
            vp_cover("value");
            vp_assert(need.ok && in.position() == s.pos + need.off, "exactly the pointee");
            vp_assert(v.get() != nullptr && vp_is_heap(v.get(), sizeof(T)), "an object of its own");
            spell<Big> w{s.p + s.pos, 0, true, true};
            w(*v);
            vp_assert(w.ok, "with the value read");
        } else {
            vp_cover("truncated");
            vp_assert(!(need.ok && need.known), "refused only when the pointee is");
            vp_assert(r == (need.known ? out_of_range : std::errc::bad_message), "with its error");
            vp_assert(v.get() == before, "what was held before is kept");
        }
    }
    vp_assert(vp_heap_live() == live, "what was held before is released");
}
// an optional pointer: a presence byte and the pointee when there is one
template <typename T, bool Big = false, typename... Opt>
void optional_ptr_out(Opt... opt)
{
    sink<> s;
    zpp::bits::optional_ptr<T> v;
    measure<> m;
    if (coin()) {
        v.reset(new T(fresh<T>()));
        m(*v);
    }
    auto size = 1 + m.off;
    const auto & cv = v;
    zpp::bits::out out{s.span, Opt(opt)...};
    out.reset(s.pos);
    auto r = out(cv);
    if (success(r)) {
        vp_assert(size <= s.room() && out.position() == s.pos + size, "presence and the pointee when present");
        vp_assert(s.at(s.pos) == (v ? 1 : 0), "one presence byte, zero or one");
        if (v) {
            vp_cover("value");
            spell<Big> w{s.p + s.pos + 1};
            w(*v);
            vp_assert(w.ok, "followed by the pointee");
        } else {
            vp_cover("null");
        }
        vp_assert(s.frame(s.pos, s.pos + size), "bytes outside are unchanged");
    } else {
        vp_cover("refused");
        vp_assert(r == out_of_range && size > s.room(), "refused only when it does not fit");
    }
}
template <typename T, bool Big = false, typename... Opt>
void optional_ptr_in(Opt... opt)
{
    vp_throw_ok(1);
    source<> s;
    auto live = vp_heap_live();
    {
        zpp::bits::optional_ptr<T> v;
        if (coin()) {
            v.reset(new T(fresh<T>()));
        }
        auto before = v.get();
        auto left = s.n - s.pos;
        bool has = left != 0, present = has && s.at(s.pos) != 0;
        zpp::bits::in in{s.span, Opt(opt)...};
        in.reset(s.pos);
        auto r = in(v);
        if (success(r)) {
            vp_assert(has, "only with a presence byte");
            vp_assert((v != nullptr) == present, "an object when present");
            if (v) {
                vp_cover("value");
                scan<Big> need{s.p + s.pos + 1, left - 1};
                vp_assert(need.template of<T>(), "only when the pointee is there");
                vp_assert(in.position() == s.pos + 1 + need.off, "exactly the presence and the pointee");
                vp_assert(vp_is_heap(v.get(), sizeof(T)), "an object of its own");
                spell<Big> w{s.p + s.pos + 1, 0, true, true};
                w(*v);
                vp_assert(w.ok, "with the value read");
            } else {
                vp_cover("null");
                vp_assert(in.position() == s.pos + 1, "exactly the presence");
            }
        } else {
            vp_assert(r == out_of_range, "out of range");
            vp_assert(v.get() == before, "what was held before is kept");
            if (has) {
                vp_cover("truncated value");
                scan<Big> need{s.p + s.pos + 1, left - 1};
                vp_assert(present && !need.template of<T>(), "refused only when truncated");
            } else {
                vp_cover("no presence");
            }
        }
    }
    vp_assert(vp_heap_live() == live, "what was held before is released");
}
#define O(name, ...) PROOF(optional_out_##name) { optional_out<__VA_ARGS__>(); } PROOF(optional_in_##name) { optional_in<__VA_ARGS__>(); }
#define OB(name, ...) PROOF(optional_out_##name) { optional_out<__VA_ARGS__, true>(endian::big{}); } PROOF(optional_in_##name) { optional_in<__VA_ARGS__, true>(endian::big{}); }
#define P(name, ...) PROOF(pointer_out_##name) { pointer_out<__VA_ARGS__>(); } PROOF(pointer_in_##name) { pointer_in<__VA_ARGS__>(); }
#define PB(name, ...) PROOF(pointer_out_##name) { pointer_out<__VA_ARGS__, true>(endian::big{}); } PROOF(pointer_in_##name) { pointer_in<__VA_ARGS__, true>(endian::big{}); }
#define Q(name, ...) PROOF(optional_ptr_out_##name) { optional_ptr_out<__VA_ARGS__>(); } PROOF(optional_ptr_in_##name) { optional_ptr_in<__VA_ARGS__>(); }
#define QB(name, ...) PROOF(optional_ptr_out_##name) { optional_ptr_out<__VA_ARGS__, true>(endian::big{}); } PROOF(optional_ptr_in_##name) { optional_ptr_in<__VA_ARGS__, true>(endian::big{}); }
using triple = std::tuple<u8, u32, u16>;
using text = std::string;
using words = std::vector<u16>;
using inner = std::optional<u32>;
using choice_t = std::variant<u8, std::string>;
using owned = std::unique_ptr<u32>;
O(u8, u8)
O(u64, u64)
O(plain, plain)
O(triple, triple)
O(string, text)
O(words, words)
O(nested, inner)
O(variant, choice_t)
O(owned, owned)
O(hidden, hidden)
O(tracked, tracked)
OB(big_u32, u32)
OB(big_words, words)
OB(big_nested, inner)
P(u32, std::unique_ptr<u32>)
P(plain, std::unique_ptr<plain>)
P(string, std::unique_ptr<text>)
P(words, std::unique_ptr<words>)
P(optional, std::unique_ptr<inner>)
P(owned, std::unique_ptr<owned>)
P(hidden, std::unique_ptr<hidden>)
P(variant, std::unique_ptr<choice_t>)
PB(big_u32, std::unique_ptr<u32>)
PB(big_string, std::unique_ptr<text>)
Q(u32, u32)
Q(plain, plain)
Q(string, text)
Q(words, words)
Q(hidden, hidden)
Q(optional, inner)
QB(big_u32, u32)
QB(big_words, words)
// objects are neither lost nor made twice
PROOF(optional_life)
{
    source<> s;
    tracked::live = 0;
    {
        std::optional<tracked> v;
        if (coin()) {
            v.emplace();
        }
        zpp::bits::in in{s.span};
        in.reset(s.pos);
        auto r = in(v);
        vp_assert(tracked::live == v.has_value(), "exactly the object held");
        if (success(r) && !v) {
            vp_cover("released");
        }
        if (failure(r)) {
            vp_cover("failed");
        }
    }
    vp_assert(tracked::live == 0, "all gone");
}
PROOF(pointer_life)
{
    source<> s;
    tracked::live = 0;
    {
        std::unique_ptr<tracked> v;
        if (coin()) {
            v = std::make_unique<tracked>();
        }
        auto old = v ? v->id : 0;
        zpp::bits::in in{s.span};
        in.reset(s.pos);
        auto r = in(v);
        vp_assert(tracked::live == (v ? 1 : 0), "exactly the object held");
        vp_assert(failure(r) ? (v ? v->id == old : old == 0) : v->id != old, "a fresh object on success only");
        if (failure(r)) {
            vp_cover("failed");
        }
    }
    vp_assert(tracked::live == 0, "all gone");
}
// every null kind of pointer
PROOF(both_ends)
{
    sink<> s;
    zpp::bits::optional_ptr<u32> v{vp_nondet_u8() & 1 ? std::make_unique<u32>(vp_nondet_u32()) : nullptr}, w{std::make_unique<u32>(1)};
    zpp::bits::out out{s.span};
    out.reset(s.pos);
    if (success(out(v))) {
        zpp::bits::in in{s.span};
        in.reset(s.pos);
        vp_assert(success(in(w)) && in.position() == out.position(), "reads back");
        vp_assert(!v == !w && (!v || *v == *w), "the same pointer state and value");
        vp_cover("round trip");
    }
}
