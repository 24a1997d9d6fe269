// C20: the contracts of c12_read_0.cpp hold of the code as it is during constant evaluation.
#define ZPP_BITS_INLINE_DECODE_VARINT 0
#include "c20_constant.h"
#include "c12_read_0.cpp"
