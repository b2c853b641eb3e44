// memory safety over the inputs of P25
// ENTRY: stream 40
// ENTRY: edge 33
#include "safe.h"
#include "P25.cpp"
