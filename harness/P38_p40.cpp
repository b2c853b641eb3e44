// memory safety over the inputs of P40
// ENTRY: unit 18
#include "safe.h"
#include "P40.cpp"
