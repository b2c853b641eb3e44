// memory safety over the inputs of P03_ref
// ENTRY: ref_branch 8
#include "safe.h"
#include "P03_ref.cpp"
