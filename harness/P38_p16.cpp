// memory safety over the inputs of P16
// ENTRY: tags 4
// ENTRY: next 4
// ENTRY: announce
// ENTRY: reset
#include "safe.h"
#include "P16.cpp"
