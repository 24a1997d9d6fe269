// vp-irv: --unroll 1
// C17: any bytes at all, any number of fields: nothing outside is read, and the
// result is an error or the whole input.
namespace zpp::bits
{
// kept apart, for its contract
[[gnu::noinline]] constexpr auto decode_varint(auto data, auto & value, auto & position);
}
#include "pb_spec.h"
#include "pocket.h"
using namespace vp;
using namespace zpp::bits::options;
using zpp::bits::no_size;

// What decoding a variable-length integer does to the position, for every
// input; proved below of each decoder, and all that its callers rely on here.
extern "C" {
#define FOR(contract, regex) __attribute__((used)) extern const char vp_for_##contract[] = "zpp::bits::decode_varint<" regex;
FOR(contract_varint_32, ".*unsigned int, unsigned long>")
FOR(contract_varint_64, ".*unsigned long, unsigned long>")
#define CONTRACT __attribute__((used)) u32
}
template <typename T>
u32 varint_contract(std::size_t n, T * value, u64 * position)
{
    *value = static_cast<T>(vp_nondet_u64());
    auto k = vp_nondet_size();
    if (k >= 1 && k <= n && k <= zpp::bits::varint_max_size<T>) {
        *position += k;
        return 0;
    }
    auto e = static_cast<u32>(vp_nondet_u64());
    vp_assume(e != 0);
    return e;
}
extern "C" {
CONTRACT contract_varint_32(const std::byte *, std::size_t n, u32 * value, u64 * position) { return varint_contract(n, value, position); }
CONTRACT contract_varint_64(const std::byte *, std::size_t n, u64 * value, u64 * position) { return varint_contract(n, value, position); }
}

struct entries
{
    using key_type = u32;
    using mapped_type = u64;
    using value_type = std::pair<const u32, u64>;
    using iterator = value_type *;
    u64 n = 0;
    entries() {}
    std::size_t size() const { return n; }
    value_type * begin() { return nullptr; }
    value_type * end() { return nullptr; }
    void clear() { n = 0; }
    void insert(const value_type &) { ++n; }
    void emplace(u32, u64) { ++n; }
};

template <typename M, typename... Opt>
void any_input(bool (*valid)(void *), Opt... opt)
{
    vp_throw_ok(1);
    source<> s;
    M m;
    zpp::bits::in in{s.span, no_size{}, Opt(opt)...};
    in.reset(s.pos);
    if (valid) {
        vp_invariant(valid, &m);
    }
    auto r = in(m);
    vp_invariant_clear();
    if (success(r)) {
        vp_cover("decoded");
        vp_assert(in.position() == s.n, "all of the input");
    } else {
        vp_cover("failed");
        vp_assert(in.position() >= s.pos && in.position() <= s.n, "position stays inside");
    }
}
enum class color : u32 {};
struct scalars
{
    zpp::bits::vint32_t a;
    zpp::bits::vsint64_t b;
    u32 c;
    double d;
    bool e;
    color f;
    using serialize = zpp::bits::pb_members<6>;
};
PROOF(scalars) { any_input<scalars>(nullptr); }
struct texts
{
    pocket<char> t;
    u32 x;
    pocket<std::byte> b;
    using serialize = zpp::bits::pb_members<3>;
};
bool texts_valid(void * p)
{
    auto & m = *static_cast<texts *>(p);
    return m.t.valid() & m.b.valid();
}
PROOF(texts) { any_input<texts>(texts_valid); }
template <typename T>
struct repeated
{
    pocket<T> v;
    using serialize = zpp::bits::pb_members<1>;
};
template <typename T>
bool repeated_valid(void * p)
{
    return static_cast<repeated<T> *>(p)->v.valid();
}
PROOF(repeated_fixed) { any_input<repeated<u32>>(repeated_valid<u32>); }
PROOF(repeated_varint) { any_input<repeated<zpp::bits::vuint32_t>>(repeated_valid<zpp::bits::vuint32_t>); }
PROOF(repeated_enum) { any_input<repeated<color>>(repeated_valid<color>); }
// A message of which only what is proved here of messages is known: it takes
// all of what it is given or fails, and stays within it.
struct any_message
{
    using pb_default = zpp::bits::pb<>;
    constexpr zpp::bits::errc operator()(auto & archive, auto & item, std::size_t size) const
    {
        auto left = archive.remaining_data().size();
        if (size > left) {
            return std::errc::result_out_of_range;
        }
        vp_symbolic(&item, sizeof(item));
        if (vp_nondet_size() & 1) {
            archive.position() += size;
            return {};
        }
        auto part = vp_nondet_size();
        vp_assume(part <= size);
        archive.position() += part;
        return failing();
    }
    static zpp::bits::errc failing()
    {
        auto e = static_cast<std::errc>(vp_nondet_u64());
        vp_assume(e != std::errc{});
        return e;
    }
};
struct leaf
{
    u64 b = 0;
    using serialize = zpp::bits::protocol<any_message{}, 1>;
};
struct nested
{
    leaf l;
    u32 x = 0;
    leaf k;
    using serialize = zpp::bits::pb_members<3>;
};
PROOF(nested) { any_input<nested>(nullptr); }
PROOF(repeated_message) { any_input<repeated<leaf>>(repeated_valid<leaf>); }
struct mapped
{
    entries e;
    using serialize = zpp::bits::pb_members<1>;
};
PROOF(map) { any_input<mapped>(nullptr); }

// the contract of decoding a message of an announced length, as it is used for
// member messages
template <typename M, typename... Opt>
void confined(Opt... opt)
{
    vp_throw_ok(1);
    source<> s;
    M m;
    zpp::bits::in in{s.span, Opt(opt)...};
    in.reset(s.pos);
    auto size = vp_nondet_size();
    auto r = zpp::bits::pb<>{}(in, m, size);
    if (success(r)) {
        vp_cover("decoded");
        vp_assert(size <= s.n - s.pos, "the announced length is there");
        vp_assert(in.position() == s.pos + size, "exactly the announced length");
    } else {
        vp_cover("failed");
        vp_assert(in.position() >= s.pos && in.position() <= s.n, "position stays inside");
        vp_assert(size > s.n - s.pos || in.position() - s.pos <= size, "nor beyond the announced length");
    }
}
PROOF(confined_scalars) { confined<scalars>(); }
PROOF(confined_nested) { confined<nested>(); }
PROOF(confined_member) { confined<nested>(size_varint{}, endian::little{}); }
