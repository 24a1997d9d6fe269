// An output container with nothing but the vector interface the archive may
// use.  Any size, content and position to begin with; growing either gives
// fresh arbitrary bytes after the old ones or fails like an allocation does.
// Ghost state records every size it was asked for.
#pragma once
#include "wire.h"

namespace vp
{
template <typename Byte = std::byte>
struct tape
{
    using value_type = Byte;
    std::size_t used = vp_nondet_size();
    std::size_t capacity = vp_nondet_size();
    Byte * p = static_cast<Byte *>(vp_region(capacity));
    u64 resized = 0;      // calls to resize
    std::size_t most = 0; // the largest size asked for
    std::size_t reserved = 0;
    std::size_t cap = ~0ull; // the larger of an allocation limit and the first size
    bool exceeded = false;   // grown beyond it
    tape()
    {
        vp_assume(used <= capacity);
    }
    tape(const tape &) = delete;
    Byte * data() { return p; }
    const Byte * data() const { return p; }
    std::size_t size() const { return used; }
    Byte & operator[](std::size_t i)
    {
        vp_assert(i < used, "only bytes the container has");
        return p[i];
    }
    const Byte & operator[](std::size_t i) const { return p[i]; }
    Byte * begin() { return p; }
    Byte * end() { return p + used; }
    const Byte * begin() const { return p; }
    const Byte * end() const { return p + used; }
    void resize(std::size_t n)
    {
        ++resized;
        if (n > most) {
            most = n;
        }
        if (n > cap) {
            exceeded = true;
        }
        if (n > capacity) {
            vp_throw_exit();
        }
        used = n;
    }
    void reserve(std::size_t n)
    {
        reserved = n;
        if (n > capacity) {
            vp_throw_exit();
        }
    }
    std::uint8_t at(std::size_t i) const { return static_cast<std::uint8_t>(p[i]); }
};
// An arbitrary state of a growing output: content, size and position; `kept`
// checks one arbitrary byte of the old content outside [from, to).
template <typename Byte = std::byte>
struct growing
{
    tape<Byte> data;
    std::size_t n = data.used; // size before
    std::size_t pos = vp_nondet_size();
    std::size_t k = vp_nondet_size();
    std::uint8_t before = 0;
    growing()
    {
        vp_throw_ok(1);
        vp_assume(pos <= n);
        vp_assume(k < n || n == 0);
        if (n) {
            before = data.at(k);
        }
    }
    void limit(std::size_t l)
    {
        data.cap = vp_nondet_size();
        vp_assume(data.cap >= n);
        vp_assume(data.cap >= l);
        vp_assume(data.cap <= n || data.cap <= l);
    }
    bool kept(std::size_t from, std::size_t to) const
    {
        if (n == 0) {
            return true;
        }
        if (vp_pick(k < from, 1)) { // one side at a time
            return data.at(k) == before && k < data.used;
        }
        if (vp_pick(k >= to, 1)) {
            return data.at(k) == before && k < data.used;
        }
        return true;
    }
};
} // namespace vp
