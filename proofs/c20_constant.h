// The header as it is during constant evaluation: every branch it chooses by
// std::is_constant_evaluated() is taken as in a constant expression.  The
// standard library is included first and is left as it is.
#pragma once
#define VP_CONSTANT // some contracts are too slow on these paths and are left out
#include <bits/stdc++.h>
namespace std
{
constexpr bool vp_evaluated_as_constant() noexcept
{
    return true;
}
} // namespace std
#define is_constant_evaluated vp_evaluated_as_constant
#define __builtin_is_constant_evaluated() true
#include "zpp_bits.h"
#undef is_constant_evaluated
#undef __builtin_is_constant_evaluated
