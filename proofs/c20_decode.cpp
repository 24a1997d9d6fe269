// C20: the contracts of c03_decode.cpp hold of the code as it is during constant evaluation.
#include "c20_constant.h"
#include "c03_decode.cpp"
