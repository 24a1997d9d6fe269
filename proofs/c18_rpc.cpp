// C18: remote calls.  A server is given any input; a client any arguments.
#include "wire.h"
using namespace vp;
using namespace zpp::bits::options;
using namespace zpp::bits::literals;

// Which function was called last, how often any was, and whether its
// arguments are the ones behind `base`.
namespace ghost
{
const void * base = nullptr;
u64 calls = 0, which = 0, used = 0;
bool equal = false;
u64 answer = 0;
const void * self = nullptr;
char text[] = "the answer of the function, long enough not to be short";
}
struct plain { u16 a; u32 b; auto each(auto f) { f(a), f(b); } auto each(auto f) const { f(a), f(b); } };

template <bool Big, typename R, u64 Which, typename... A>
R body(const A &... a)
{
    ++ghost::calls;
    ghost::which = Which;
    spell<Big> w{ghost::base, 0, true, true};
    w(a...);
    ghost::equal = w.ok;
    ghost::used = w.off;
    if constexpr (std::is_same_v<R, std::string>) {
        return std::string(ghost::text, sizeof(ghost::text) - 1);
    } else if constexpr (std::is_same_v<R, plain>) {
        return plain{u16(ghost::answer), u32(ghost::answer >> 16)};
    } else if constexpr (std::is_same_v<R, zpp::bits::errc>) {
        return std::errc(int(ghost::answer));
    } else if constexpr (!std::is_void_v<R>) {
        return from_bits<R>(ghost::answer);
    }
}
template <typename R>
std::size_t answer_size()
{
    if constexpr (std::is_same_v<R, std::string>) {
        return 4 + sizeof(ghost::text) - 1;
    } else if constexpr (std::is_void_v<R> || std::is_same_v<R, zpp::bits::errc>) {
        return 0;
    } else {
        return flat<R>();
    }
}
template <bool Big, typename R>
bool answered(const void * p)
{
    spell<Big> w{p};
    if constexpr (std::is_same_v<R, std::string>) {
        w(std::string_view(ghost::text, sizeof(ghost::text) - 1));
    } else if constexpr (std::is_same_v<R, plain>) {
        w(plain{u16(ghost::answer), u32(ghost::answer >> 16)});
    } else {
        w(from_bits<R>(ghost::answer));
    }
    return w.ok;
}
template <bool Big>
struct functions
{
    static u64 add(u8 a, u32 b) { return body<Big, u64, 1>(a, b); }
    static void tell(u64 a, u16 b) { body<Big, void, 2>(a, b); }
    static std::string join(std::string a, const std::string & b) { return body<Big, std::string, 3>(a, b); }
    static u32 none() { return body<Big, u32, 4>(); }
    static plain swap(plain p) noexcept { return body<Big, plain, 5>(p); }
    static void none_void() { body<Big, void, 6>(); }
    static zpp::bits::errc fail_none() { return body<Big, zpp::bits::errc, 8>(); }
    static u8 many(std::optional<u16> a, std::vector<u32> b) { return body<Big, u8, 9>(a, b); }
};
struct object
{
    u64 add(u8 a, u32 b) { ghost::self = this; return body<false, u64, 1>(a, b); }
    void tell(u64 a, u16 b) noexcept { ghost::self = this; body<false, void, 2>(a, b); }
    u32 none() const { ghost::self = this; return body<false, u32, 3>(); }
};
// The outcome of serving one request of the binding (R, A...) whose arguments
// start at ghost::base; `s` and `o` are the streams before.
template <bool Big, u64 Which, typename R, typename... A, typename In, typename Out>
void served(const source<> & s, std::size_t from, sink<> & o, In & in, Out & out, zpp::bits::errc r)
{
    scan<Big> need{s.p + from, s.n - from};
    (void)(need.template of<A>() && ...);
    if (!need.ok) {
        vp_assert(failure(r), "truncated arguments are an error");
        vp_assert(r == out_of_range, "out of range");
        vp_assert(ghost::calls == 0, "and nothing is called");
        vp_assert(out.position() == o.pos && o.frame(o.pos, o.pos), "nor answered");
        vp_cover("truncated");
        return;
    }
    vp_assert(ghost::calls == 1 && ghost::which == Which, "exactly the bound function, once");
    vp_assert(ghost::equal && ghost::used == need.off, "with the arguments of the request");
    vp_assert(in.position() == from + need.off, "whose bytes are consumed");
    const auto size = answer_size<R>();
    if (success(r)) {
        vp_assert(out.position() == o.pos + size && size <= o.room(), "the result");
        vp_assert(o.frame(o.pos, o.pos + size), "and nothing else");
        if constexpr (std::is_same_v<R, zpp::bits::errc>) {
            vp_assert(ghost::answer % (1ull << 32) == 0, "an error is reported");
        } else if constexpr (!std::is_void_v<R>) {
            vp_assert((answered<Big, R>(o.p + o.pos)), "unchanged");
        }
        vp_cover("served");
    } else if constexpr (std::is_same_v<R, zpp::bits::errc>) {
        vp_assert(r == std::errc(int(ghost::answer)), "the error of the function");
        vp_assert(out.position() == o.pos && o.frame(o.pos, o.pos), "without an answer");
        vp_cover("failed");
    } else {
        vp_assert(size > o.room() && r == out_of_range, "refused only for lack of room");
        vp_assert(o.frame(o.pos, o.n), "bytes before the answer are unchanged");
        vp_cover("no room");
    }
}
template <typename T>
struct tag { using type = T; };
// binding number, function number, result, parameters
template <auto Id, u64 Which, typename R, typename... A>
struct entry
{
    static constexpr auto id = Id;
    template <bool Big>
    static bool check(u64 got, const source<> & s, std::size_t from, sink<> & o, auto & in, auto & out, zpp::bits::errc r)
    {
        if (got != u64(std::make_unsigned_t<decltype(Id)>(Id))) {
            return false;
        }
        served<Big, Which, R, A...>(s, from, o, in, out, r);
        return true;
    }
};
template <bool Big, typename Id, typename... Entries, typename Make>
void server(Make make, auto... opt)
{
    vp_throw_ok(1);
    source<> s;
    sink<> o;
    auto heap = vp_heap_live();
    ghost::calls = 0;
    ghost::answer = vp_nondet_u64();
    ghost::base = s.p + s.pos + sizeof(Id);
    zpp::bits::in in{s.span, decltype(opt)(opt)...};
    zpp::bits::out out{o.span, decltype(opt)(opt)...};
    in.reset(s.pos);
    out.reset(o.pos);
    auto r = make(in, out);
    static_assert(std::is_same_v<decltype(r), zpp::bits::errc>);
    if (s.n - s.pos < sizeof(Id)) {
        vp_assert(r == out_of_range && ghost::calls == 0, "a truncated identifier");
        vp_assert(out.position() == o.pos && o.frame(o.pos, o.pos), "is not answered");
        vp_cover("no identifier");
    } else {
        auto got = word<Big>(s.p + s.pos, sizeof(Id));
        if (!(Entries::template check<Big>(got, s, s.pos + sizeof(Id), o, in, out, r) || ...)) {
            vp_assert(r == std::errc::not_supported, "an unknown identifier");
            vp_assert(ghost::calls == 0, "calls nothing");
            vp_assert(in.position() == s.pos + sizeof(Id), "reads nothing");
            vp_assert(out.position() == o.pos && o.frame(o.pos, o.pos), "answers nothing");
            vp_cover("unknown");
        }
    }
    vp_assert(vp_heap_live() == heap, "nothing is leaked");
}
using F = functions<false>;
using B = functions<true>;
using first = zpp::bits::rpc<zpp::bits::bind<F::add, 11>, zpp::bits::bind<F::tell, 22>, zpp::bits::bind<F::none, -3>>;
PROOF(server_first)
{
    server<false, int, entry<11, 1, u64, u8, u32>, entry<22, 2, void, u64, u16>, entry<-3, 4, u32>>([](auto & in, auto & out) {
        first::server s{in, out};
        return s.serve();
    });
}
using second = zpp::bits::rpc<zpp::bits::bind<F::join, std::uint16_t(0x1234)>, zpp::bits::bind<F::swap, std::uint16_t(0x3412)>, zpp::bits::bind<F::none_void, std::uint16_t(0)>,
                              zpp::bits::bind<F::fail_none, std::uint16_t(1)>, zpp::bits::bind<F::many, std::uint16_t(2)>>;
PROOF(server_second)
{
    server<false, u16, entry<u16(0x1234), 3, std::string, std::string, std::string>, entry<u16(0x3412), 5, plain, plain>, entry<u16(0), 6, void>, 
           entry<u16(1), 8, zpp::bits::errc>, entry<u16(2), 9, u8, std::optional<u16>, std::vector<u32>>>([](auto & in, auto & out) {
        second::server s{in, out};
        return s.serve();
    });
}
using hashed = zpp::bits::rpc<zpp::bits::bind<F::add, "add"_sha256_int>, zpp::bits::bind<F::tell, "tell"_sha256_int>>;
PROOF(server_hashed)
{
    server<false, int, entry<"add"_sha256_int, 1, u64, u8, u32>, entry<"tell"_sha256_int, 2, void, u64, u16>>([](auto & in, auto & out) {
        auto [c, s] = hashed::client_server(in, out);
        return s.serve();
    });
}
using big = zpp::bits::rpc<zpp::bits::bind<B::add, std::uint64_t(11)>, zpp::bits::bind<B::tell, std::uint64_t(1) << 63>, zpp::bits::bind<B::swap, std::uint64_t(7)>>;
PROOF(server_big)
{
    server<true, u64, entry<u64(11), 1, u64, u8, u32>, entry<u64(1) << 63, 2, void, u64, u16>, entry<u64(7), 5, plain, plain>>([](auto & in, auto & out) {
        big::server s{in, out};
        return s.serve();
    }, zpp::bits::endian::big{});
}
using members = zpp::bits::rpc<zpp::bits::bind<&object::add, 1>, zpp::bits::bind<&object::tell, 2>, zpp::bits::bind<&object::none, 3>>;
PROOF(server_members)
{
    object x;
    ghost::self = &x;
    server<false, int, entry<1, 1, u64, u8, u32>, entry<2, 2, void, u64, u16>, entry<3, 3, u32>>([&](auto & in, auto & out) {
        members::server s{in, out, x};
        return s.serve();
    });
    vp_assert(ghost::self == &x, "on the given object");
}
PROOF(server_members_client_server)
{
    object x;
    ghost::self = &x;
    server<false, int, entry<1, 1, u64, u8, u32>, entry<2, 2, void, u64, u16>, entry<3, 3, u32>>([&](auto & in, auto & out) {
        auto [c, s] = members::client_server(in, out, x);
        return s.serve();
    });
    vp_assert(ghost::self == &x, "on the given object");
}
// An identifier known from elsewhere is not read again.
PROOF(serve_known)
{
    vp_throw_ok(1);
    source<> s;
    sink<> o;
    ghost::calls = 0;
    ghost::answer = vp_nondet_u64();
    ghost::base = s.p + s.pos;
    zpp::bits::in in{s.span};
    zpp::bits::out out{o.span};
    in.reset(s.pos);
    out.reset(o.pos);
    first::server server{in, out};
    auto id = int(vp_nondet_u32());
    auto r = server.serve(id);
    auto got = u64(u32(id));
    if (!(entry<11, 1, u64, u8, u32>::check<false>(got, s, s.pos, o, in, out, r) || entry<22, 2, void, u64, u16>::check<false>(got, s, s.pos, o, in, out, r) ||
          entry<-3, 4, u32>::check<false>(got, s, s.pos, o, in, out, r))) {
        vp_assert(r == std::errc::not_supported && ghost::calls == 0, "an unknown identifier");
        vp_assert(in.position() == s.pos && out.position() == o.pos && o.frame(o.pos, o.pos), "does nothing");
        vp_cover("unknown");
    }
}
// A request is the identifier and the arguments as the function declares them.
template <bool Big, typename Id, typename... A, typename Request>
void requested(Id id, Request request, auto opts, const A &... a)
{
    vp_throw_ok(1);
    source<> s;
    sink<> o;
    auto make = [&](auto... opt) {
        zpp::bits::in in{s.span, decltype(opt)(opt)...};
        zpp::bits::out out{o.span, decltype(opt)(opt)...};
        in.reset(s.pos);
        out.reset(o.pos);
        auto r = request(in, out);
        vp_assert(in.position() == s.pos, "a request reads nothing");
        return std::pair{r, out.position()};
    };
    auto [r, position] = std::apply(make, opts);
    measure<> m;
    m(a...);
    std::size_t head = 0;
    if constexpr (!std::is_same_v<Id, std::monostate>) {
        head = sizeof(Id);
    }
    const auto size = head + m.off;
    if (success(r)) {
        vp_assert(position == o.pos + size && size <= o.room(), "identifier and arguments");
        if constexpr (!std::is_same_v<Id, std::monostate>) {
            vp_assert(word<Big>(o.p + o.pos, head) == bits(id), "the identifier of the function");
        }
        spell<Big> w{o.p + o.pos + head};
        w(a...);
        vp_assert(w.ok, "the arguments in order");
        vp_assert(o.frame(o.pos, o.pos + size), "nothing else");
        vp_cover("requested");
    } else {
        vp_assert(r == out_of_range && size > o.room(), "refused only when it does not fit");
        vp_cover("refused");
    }
}
PROOF(request_exact)
{
    auto a = vp_nondet_u8();
    auto b = vp_nondet_u32();
    requested<false>(11, [&](auto & in, auto & out) { first::client c{in, out}; return c.template request<11>(a, b); }, std::tuple{}, a, b);
}
PROOF(request_converted)
{
    auto a = vp_nondet_u64();
    auto b = int(vp_nondet_u32());
    requested<false>(11, [&](auto & in, auto & out) { first::client c{in, out}; return c.template request<11>(a, b); }, std::tuple{}, u8(a), u32(b));
}
PROOF(request_big)
{
    auto a = vp_nondet_u64();
    auto b = int(vp_nondet_u32());
    requested<true>(u64(11), [&](auto & in, auto & out) { big::client c{in, out}; return c.template request<std::uint64_t(11)>(a, b); }, std::tuple{zpp::bits::endian::big{}}, u8(a), u32(b));
}
PROOF(request_none)
{
    requested<false>(-3, [&](auto & in, auto & out) { first::client c{in, out}; return c.template request<-3>(); }, std::tuple{});
}
PROOF(request_texts)
{
    auto a = make<std::string>(0xffffffff), b = make<std::string>(0xffffffff);
    requested<false>(u16(0x1234), [&](auto & in, auto & out) { second::client c{in, out}; return c.template request<std::uint16_t(0x1234)>(a, b); }, std::tuple{}, a, b);
}
PROOF(request_plain)
{
    auto a = make<plain>();
    requested<false>(u16(0x3412), [&](auto & in, auto & out) { second::client c{in, out}; return c.template request<std::uint16_t(0x3412)>(a); }, std::tuple{}, a);
}
PROOF(request_hashed)
{
    auto a = vp_nondet_u64();
    auto b = vp_nondet_u16();
    requested<false>("tell"_sha256_int, [&](auto & in, auto & out) { hashed::client c{in, out}; return c.template request<"tell"_sha256_int>(a, b); }, std::tuple{}, a, b);
}
PROOF(request_body)
{
    auto a = vp_nondet_u64();
    auto b = int(vp_nondet_u32());
    requested<false>(std::monostate{}, [&](auto & in, auto & out) { first::client c{in, out}; return c.template request_body<11>(a, b); }, std::tuple{}, u8(a), u32(b));
}
PROOF(request_body_exact)
{
    auto a = vp_nondet_u64();
    auto b = vp_nondet_u16();
    requested<false>(std::monostate{}, [&](auto & in, auto & out) { first::client c{in, out}; return c.template request_body<22>(a, b); }, std::tuple{}, a, b);
}
PROOF(request_member)
{
    auto a = int(vp_nondet_u32());
    auto b = vp_nondet_u64();
    requested<false>(1, [&](auto & in, auto & out) { members::client c{in, out}; return c.template request<1>(a, b); }, std::tuple{}, u8(a), u32(b));
}
// A response is the result of the function.
template <bool Big, typename R, typename Response>
void responded(Response response, auto... opt)
{
    vp_throw_ok(1);
    source<> s;
    sink<> o;
    auto heap = vp_heap_live();
    zpp::bits::in in{s.span, decltype(opt)(opt)...};
    zpp::bits::out out{o.span, decltype(opt)(opt)...};
    in.reset(s.pos);
    out.reset(o.pos);
    {
        auto r = response(in, out);
        static_assert(std::is_same_v<decltype(r), zpp::bits::value_or_errc<R>>);
        scan<Big> need{s.p + s.pos, s.n - s.pos};
        if (need.template of<R>()) {
            vp_assert(r.success(), "a complete response");
            vp_assert(in.position() == s.pos + need.off, "exactly its bytes");
            spell<Big> w{s.p + s.pos, 0, true, true};
            w(r.value());
            vp_assert(w.ok, "the result that was sent");
            vp_cover("response");
        } else {
            vp_assert(r.failure() && r.error().code == out_of_range, "a truncated response");
            vp_cover("truncated");
        }
        vp_assert(out.position() == o.pos && o.frame(o.pos, o.pos), "a response writes nothing");
    }
    vp_assert(vp_heap_live() == heap, "nothing is leaked");
}
PROOF(response_u64) { responded<false, u64>([](auto & in, auto & out) { first::client c{in, out}; return c.template response<11>(); }); }
PROOF(response_u32) { responded<false, u32>([](auto & in, auto & out) { first::client c{in, out}; return c.template response<-3>(); }); }
PROOF(response_big) { responded<true, u64>([](auto & in, auto & out) { big::client c{in, out}; return c.template response<std::uint64_t(11)>(); }, zpp::bits::endian::big{}); }
PROOF(response_plain) { responded<false, plain>([](auto & in, auto & out) { second::client c{in, out}; return c.template response<std::uint16_t(0x3412)>(); }); }
PROOF(response_text) { responded<false, std::string>([](auto & in, auto & out) { second::client c{in, out}; return c.template response<std::uint16_t(0x1234)>(); }); }
PROOF(response_hashed) { responded<false, u64>([](auto & in, auto & out) { hashed::client c{in, out}; return c.template response<"add"_sha256_int>(); }); }

// A whole call: request, serve, response over one buffer.
PROOF(round_trip)
{
    vp_throw_ok(1);
    sink<> q, a;
    auto x = vp_nondet_u8();
    auto y = vp_nondet_u32();
    ghost::calls = 0;
    ghost::answer = vp_nondet_u64();
    ghost::base = q.p + q.pos + 4;
    zpp::bits::out request{q.span}, answer{a.span};
    request.reset(q.pos);
    answer.reset(a.pos);
    zpp::bits::in asked{q.span}, result{a.span};
    asked.reset(q.pos);
    result.reset(a.pos);
    first::client client{result, request};
    first::server server{asked, answer};
    if (failure(client.request<11>(x, y))) {
        return;
    }
    auto r = server.serve();
    vp_assert(ghost::calls == 1 && ghost::which == 1 && ghost::equal, "called once with equal arguments");
    vp_assert(asked.position() == request.position(), "the whole request");
    if (success(r)) {
        auto got = client.response<11>();
        vp_assert(got.success() && got.value() == ghost::answer, "an equal result");
        vp_assert(result.position() == answer.position(), "the whole response");
        vp_cover("called");
    }
}
// Opaque functions are handed the archives themselves.
namespace ghost
{
const void * in = nullptr, * out = nullptr;
u64 taken = 0, given = 0;
const void * data = nullptr;
}
using archive_in = zpp::bits::in<std::span<std::byte>>;
using archive_out = zpp::bits::out<std::span<std::byte>>;
u64 plain_both(archive_in & i, archive_out & o) { ++ghost::calls; ghost::which = 1; ghost::in = &i; ghost::out = &o; return ghost::answer; }
void plain_input(archive_in & i) { ++ghost::calls; ghost::which = 2; ghost::in = &i; }
zpp::bits::errc plain_output(archive_out & o) { ++ghost::calls; ghost::which = 3; ghost::out = &o; return std::errc(int(ghost::answer)); }
void plain_rest(std::span<const std::byte> d) { ++ghost::calls; ghost::which = 4; ghost::data = d.data(); ghost::given = d.size(); }
u64 plain_some(std::span<const std::byte> & d)
{
    ++ghost::calls;
    ghost::which = 5;
    ghost::data = d.data();
    ghost::given = d.size();
    vp_assume(ghost::taken <= d.size());
    d = d.first(ghost::taken);
    return ghost::answer;
}
u32 plain_neither() { ++ghost::calls; ghost::which = 6; return u32(ghost::answer); }
struct opaque_object
{
    u64 both(archive_in & i, archive_out & o) { ghost::self = this; return plain_both(i, o); }
    void input(archive_in & i) { ghost::self = this; return plain_input(i); }
    zpp::bits::errc output(archive_out & o) { ghost::self = this; return plain_output(o); }
    void rest(std::span<const std::byte> d) { ghost::self = this; return plain_rest(d); }
    u64 some(std::span<const std::byte> & d) { ghost::self = this; return plain_some(d); }
    u32 neither() { ghost::self = this; return plain_neither(); }
};
template <typename Rpc, typename... Context>
void opaque(Context &... context)
{
    source<> s;
    sink<> o;
    ghost::calls = 0;
    ghost::answer = vp_nondet_u64();
    ghost::taken = vp_nondet_size();
    archive_in in{s.span};
    archive_out out{o.span};
    in.reset(s.pos);
    out.reset(o.pos);
    typename Rpc::template server<archive_in &, archive_out &, Context &...> server{in, out, context...};
    auto r = server.serve();
    if (s.n - s.pos < 4) {
        vp_assert(r == out_of_range && ghost::calls == 0, "a truncated identifier");
        vp_cover("no identifier");
        return;
    }
    auto id = word<false>(s.p + s.pos, 4);
    if (id == 0 || id > 6) {
        vp_assert(r == std::errc::not_supported && ghost::calls == 0, "an unknown identifier");
        vp_cover("unknown");
        return;
    }
    vp_assert(ghost::calls == 1 && ghost::which == id, "exactly the bound function, once");
    const auto from = s.pos + 4;
    auto position = from;
    std::size_t size = 0;
    if (id == 1 || id == 2) {
        vp_assert(ghost::in == &in, "the input archive itself");
    }
    if (id == 1 || id == 3) {
        vp_assert(ghost::out == &out, "the output archive itself");
    }
    if (id == 4 || id == 5) {
        vp_assert(ghost::data == s.p + from && ghost::given == s.n - from, "the remaining data");
        position += id == 4 ? s.n - from : ghost::taken;
        vp_cover("data");
    }
    vp_assert(in.position() == position, "what was consumed");
    if (id == 1 || id == 5) {
        size = 8;
    } else if (id == 6) {
        size = 4;
    }
    if (id == 3) {
        vp_assert(r == std::errc(int(ghost::answer)), "the error of the function");
        vp_cover("error");
    } else if (success(r)) {
        vp_assert(size <= o.room() && (size == 0 || word<false>(o.p + o.pos, unsigned(size)) == (size == 4 ? u32(ghost::answer) : ghost::answer)), "the result");
        vp_cover("served");
    } else {
        vp_assert(r == out_of_range && size > o.room(), "refused only for lack of room");
        vp_cover("no room");
    }
    vp_assert(failure(r) || out.position() == o.pos + size, "and no more");
    vp_assert(o.frame(o.pos, o.pos + size), "nothing else is written");
}
PROOF(opaque_functions)
{
    using namespace zpp::bits;
    opaque<rpc<bind_opaque<plain_both, 1>, bind_opaque<plain_input, 2>, bind_opaque<plain_output, 3>, bind_opaque<plain_rest, 4>, bind_opaque<plain_some, 5>, bind_opaque<plain_neither, 6>>>();
}
PROOF(opaque_members)
{
    using namespace zpp::bits;
    using X = opaque_object;
    X x;
    ghost::self = &x;
    opaque<rpc<bind_opaque<&X::both, 1>, bind_opaque<&X::input, 2>, bind_opaque<&X::output, 3>, bind_opaque<&X::rest, 4>, bind_opaque<&X::some, 5>, bind_opaque<&X::neither, 6>>>(x);
    vp_assert(ghost::self == &x, "on the given object");
}
