#include "c02_members.inc"
ONE(6)
ONE(14)
ONE(22)
ONE(30)
ONE(38)
ONE(46)
