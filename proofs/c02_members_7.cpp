#include "c02_members.inc"
ONE(7)
ONE(15)
ONE(23)
ONE(31)
ONE(39)
ONE(47)
