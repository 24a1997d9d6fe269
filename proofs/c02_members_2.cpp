#include "c02_members.inc"
ONE(2)
ONE(10)
ONE(18)
ONE(26)
ONE(34)
ONE(42)
ONE(50)
