// memory safety over the inputs of P17
// ENTRY: life 8
// ENTRY: deliver 2
// ENTRY: queues 6
// ENTRY: pair_br 4
// ENTRY: behind 3
#include "safe.h"
#include "P17.cpp"
