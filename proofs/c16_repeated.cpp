// vp-irv: --unroll 12
// C16: repeated varints, texts, messages, maps.  Bounded: at most two elements,
// texts of at most three characters.
#include "pb_message.h"
#include <map>
#include <string>

template <typename T>
struct list
{
    std::vector<T> v;
    bool operator==(const list &) const = default;
    using serialize = zpp::bits::pb_members<1>;
};
template <typename T>
void packed_varints()
{
    vp_throw_ok(1);
    const auto n = vp_pick(any_below(3), 2);
    list<T> m;
    m.v.resize(n);
    u64 x[2];
    for (std::size_t i = 0; i < n; ++i) {
        if constexpr (std::is_enum_v<T>) {
            m.v[i] = from_bits<T>(any<u64>());
            x[i] = bits(m.v[i]);
        } else {
            m.v[i] = from_bits<typename varint_of<T>::type>(any<u64>());
            x[i] = number<T>(m.v[i].value);
        }
    }
    message(m, [&](auto & w) {
        if (n) {
            w.tag(1, pb_length), w.nested([&](auto & w) {
                for (std::size_t i = 0; i < n; ++i) {
                    w.varint(x[i]);
                }
            });
        }
    });
}
PROOF(varints32) { packed_varints<zpp::bits::vuint32_t>(); }
PROOF(varints64) { packed_varints<zpp::bits::vint64_t>(); }
PROOF(zigzags) { packed_varints<zpp::bits::vsint32_t>(); }
enum class color : u32 {};
PROOF(enums) { packed_varints<color>(); }

struct leaf
{
    zpp::bits::vuint32_t a;
    u32 b = 0;
    bool operator==(const leaf &) const = default;
    using serialize = zpp::bits::pb_members<2>;
};
PROOF(messages)
{
    vp_throw_ok(1);
    const auto n = vp_pick(any_below(3), 2);
    list<leaf> m;
    m.v.resize(n);
    for (auto & l : m.v) {
        l.a = any<u32>(), l.b = any<u32>();
    }
    message(m, [&](auto & w) {
        for (auto & l : m.v) {
            w.tag(1, pb_length), w.nested([&](auto & w) {
                w.tag(1, pb_varint), w.varint(u32(l.a));
                w.tag(2, pb_fixed32), w.fixed(l.b, 4);
            });
        }
    });
}
PROOF(texts)
{
    vp_throw_ok(1);
    const auto n = vp_pick(any_below(3), 2);
    list<std::string> m;
    for (std::size_t i = 0; i < n; ++i) {
        std::string s;
        for (auto k = vp_pick(any_below(4), 3); k; --k) {
            s.push_back(char(any<u8>()));
        }
        m.v.push_back(s);
    }
    message(m, [&](auto & w) {
        for (auto & s : m.v) {
            w.tag(1, pb_length), w.varint(s.size()), w.bytes(s.data(), s.size());
        }
    });
}
// a map is its entries, each a message of key and value
template <typename K, typename M>
struct table
{
    using key_type = K;
    using mapped_type = M;
    using value_type = std::pair<const K, M>;
    using iterator = std::pair<K, M> *;
    using const_iterator = const std::pair<K, M> *;
    std::pair<K, M> e[2];
    table() {}
    std::size_t n = 0;
    std::size_t size() const { return n; }
    auto begin() { return e; }
    auto end() { return e + n; }
    auto begin() const { return e; }
    auto end() const { return e + n; }
    void clear() { n = 0; }
    void insert(const value_type & v) { emplace(v.first, v.second); }
    void emplace(K k, M m)
    {
        vp_assert(n < 2, "no more than there were");
        e[n++] = {k, m};
    }
    bool operator==(const table & o) const
    {
        for (std::size_t i = 0; i < n; ++i) {
            if (!(e[i] == o.e[i])) {
                return false;
            }
        }
        return n == o.n;
    }
};
template <typename K, typename M>
struct tabled
{
    table<K, M> t;
    bool operator==(const tabled &) const = default;
    using serialize = zpp::bits::pb_members<1>;
};
template <typename T>
T any_part()
{
    if constexpr (requires { typename varint_of<T>::type; }) {
        return T{from_bits<typename varint_of<T>::type>(any<u64>())};
    } else if constexpr (std::same_as<T, leaf>) {
        leaf l;
        l.a = any<u32>(), l.b = any<u32>();
        return l;
    } else {
        return from_bits<T>(any<u64>());
    }
}
template <typename W, typename T>
void part(W & w, unsigned field, const T & t)
{
    if constexpr (requires { typename varint_of<T>::type; }) {
        w.tag(field, pb_varint), w.varint(number<T>(t.value));
    } else if constexpr (std::is_enum_v<T>) {
        w.tag(field, pb_varint), w.varint(bits(t));
    } else if constexpr (std::same_as<T, leaf>) {
        w.tag(field, pb_length), w.nested([&](auto & w) {
            w.tag(1, pb_varint), w.varint(u32(t.a));
            w.tag(2, pb_fixed32), w.fixed(t.b, 4);
        });
    } else {
        w.tag(field, sizeof(T) == 4 ? pb_fixed32 : pb_fixed64), w.fixed(bits(t), sizeof(T));
    }
}
template <typename K, typename M>
void map_field()
{
    vp_throw_ok(1);
    tabled<K, M> m;
    m.t.n = vp_pick(any_below(3), 2);
    for (auto & [k, v] : m.t) {
        k = any_part<K>(), v = any_part<M>();
    }
    message(m, [&](auto & w) {
        for (auto & [k, v] : m.t) {
            w.tag(1, pb_length), w.nested([&](auto & w) { part(w, 1, k), part(w, 2, v); });
        }
    });
}
PROOF(map) { map_field<u32, u64>(); }
PROOF(map_varint) { map_field<zpp::bits::vuint32_t, u32>(); }
PROOF(map_enum) { map_field<color, u32>(); }
PROOF(map_to_enum) { map_field<u64, color>(); }
