// memory safety over the inputs of P01_ref
// ENTRY: ref_results 8
#include "safe.h"
#include "P01_ref.cpp"
