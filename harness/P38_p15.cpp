// memory safety over the inputs of P15
// ENTRY: recover 20
// ENTRY: retire 20
// ENTRY: checkpoint 20
#include "safe.h"
#include "P15.cpp"
