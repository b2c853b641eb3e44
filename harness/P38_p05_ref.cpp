// memory safety over the inputs of P05_ref
// ENTRY: ref_amo 22
#include "safe.h"
#include "P05_ref.cpp"
