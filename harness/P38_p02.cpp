// memory safety over the inputs of P02
// ENTRY: decode_class 17
#include "safe.h"
#include "P02.cpp"
