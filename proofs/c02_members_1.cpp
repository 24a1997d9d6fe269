#include "c02_members.inc"
ONE(1)
ONE(9)
ONE(17)
ONE(25)
ONE(33)
ONE(41)
ONE(49)
