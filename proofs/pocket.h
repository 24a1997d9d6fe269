#pragma once
#include "wire.h"

namespace vp
{
// A sequence with room for some number of elements; beyond, adding one fails
// like an allocation does.
template <typename T>
struct pocket
{
    using value_type = T;
    using iterator = T *;
    using const_iterator = const T *;
    std::size_t used = vp_nondet_size();
    std::size_t capacity = vp_nondet_size();
    T * p = nullptr;
    pocket()
    {
        vp_assume(used <= capacity && capacity < (1ull << 40) / sizeof(T));
        p = static_cast<T *>(vp_region(capacity * sizeof(T)));
    }
    pocket(const pocket &) = delete;
    pocket(pocket &&) = default;
    T * data() { return p; }
    const T * data() const { return p; }
    std::size_t size() const { return used; }
    T * begin() { return p; }
    T * end() { return p + used; }
    const T * begin() const { return p; }
    const T * end() const { return p + used; }
    void clear() { used = 0; }
    void resize(std::size_t n)
    {
        if (n > capacity) {
            vp_throw_exit();
        }
        used = n;
    }
    void push_back(T v)
    {
        if (used >= capacity) {
            vp_throw_exit();
        }
        p[used++] = std::move(v);
    }
    T & operator[](std::size_t i) { return p[i]; }
    const T & operator[](std::size_t i) const { return p[i]; }
    bool valid() const { return used <= capacity; }
};
} // namespace vp
