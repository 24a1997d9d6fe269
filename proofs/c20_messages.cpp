// vp-irv: --unroll 1
// C20: the contracts of c27_messages.cpp hold of the code as it is during constant evaluation.
#include "c20_constant.h"
#include "c27_messages.cpp"
