// memory safety over the inputs of P18
// ENTRY: pick 32
// ENTRY: others 4
#include "safe.h"
#include "P18.cpp"
