#include "c02_members.inc"
ONE(5)
ONE(13)
ONE(21)
ONE(29)
ONE(37)
ONE(45)
