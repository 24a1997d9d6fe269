// What the archive asks a map or a set for.
#pragma once
#include "wire.h"
using namespace vp;

template <typename K, typename M>
struct types
{
    using key_type = K;
    using mapped_type = M;
    using value_type = std::pair<const K, M>;
    using element = std::pair<K, M>;
};
template <typename K>
struct types<K, void>
{
    using key_type = K;
    using value_type = K;
    using element = K;
};
