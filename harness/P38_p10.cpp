// memory safety over the inputs of P10
// ENTRY: walker 14
// ENTRY: block 20
// ENTRY: stale 8
// ENTRY: kernel 10
// ENTRY: visible 10
// ENTRY: glue
#include "safe.h"
#include "P10.cpp"
