#include "c02_members.inc"
ONE(4)
ONE(12)
ONE(20)
ONE(28)
ONE(36)
ONE(44)
