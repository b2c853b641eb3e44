// P10: the walk of the reference model.
// ENTRY: ref_walk 12
#include "P09.cpp"
