// C20: the contracts of c01_scalars.cpp hold of the code as it is during constant evaluation.
#include "c20_constant.h"
#include "c01_scalars.cpp"
