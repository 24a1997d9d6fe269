// vp-irv: --unroll 200 --merge
// C20: the contracts of c05_packed.cpp hold of the code as it is during constant evaluation.
#include "c20_constant.h"
#include "c05_packed.cpp"
