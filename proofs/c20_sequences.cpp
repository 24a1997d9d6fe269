// C20: the contracts of c09_sequences.cpp hold of the code as it is during constant evaluation.
#include "c20_constant.h"
#include "c09_sequences.cpp"
