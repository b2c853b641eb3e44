// memory safety over the inputs of P40_ref
// ENTRY: interpreter 22
// ENTRY: refused 1
#include "safe.h"
#include "P40_ref.cpp"
