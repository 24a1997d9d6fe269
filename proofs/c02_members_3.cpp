#include "c02_members.inc"
ONE(3)
ONE(11)
ONE(19)
ONE(27)
ONE(35)
ONE(43)
