// memory safety over the inputs of P24
// ENTRY: handover 16
// ENTRY: classify 32
#include "safe.h"
#include "P24.cpp"
