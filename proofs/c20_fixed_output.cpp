// C20: the contracts of c05_fixed_output.cpp hold of the code as it is during constant evaluation.
#include "c20_constant.h"
#include "c05_fixed_output.cpp"
