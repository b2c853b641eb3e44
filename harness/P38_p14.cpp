// memory safety over the inputs of P14
// ENTRY: group 20
// ENTRY: update 20
// ENTRY: reset
#include "safe.h"
#include "P14.cpp"
