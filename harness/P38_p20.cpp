// memory safety over the inputs of P20
// ENTRY: read_ops 4
// ENTRY: newest
// ENTRY: pcs 4
// ENTRY: flow 4
#include "safe.h"
#include "P20.cpp"
