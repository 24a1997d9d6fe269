// C20: the contracts of c11_varint.cpp hold of the code as it is during constant evaluation.
#include "c20_constant.h"
#include "c11_varint.cpp"
