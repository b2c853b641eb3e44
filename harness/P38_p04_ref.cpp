// memory safety over the inputs of P04_ref
// ENTRY: ref_mem 16
#include "safe.h"
#include "P04_ref.cpp"
