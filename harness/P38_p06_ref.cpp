// memory safety over the inputs of P06_ref
// ENTRY: ref_csr 44
#include "safe.h"
#include "P06_ref.cpp"
