// P17: squashes in the reorder buffer.
// ENTRY: squash 20
// ENTRY: announce 6
// FLAGS: -I$VERIF/harness/stubcpu
#include "P22.cpp"
