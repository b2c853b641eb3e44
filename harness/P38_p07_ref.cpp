// memory safety over the inputs of P07_ref
// ENTRY: ref_trap 9
#include "safe.h"
#include "P07_ref.cpp"
