// C20: the contracts of c04_truncation.cpp hold of the code as it is during constant evaluation.
#include "c20_constant.h"
#include "c04_truncation.cpp"
