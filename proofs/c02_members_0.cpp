#include "c02_members.inc"
ONE(8)
ONE(16)
ONE(24)
ONE(32)
ONE(40)
ONE(48)
