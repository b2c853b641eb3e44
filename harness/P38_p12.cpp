// memory safety over the inputs of P12
// ENTRY: ref_data_fault 20
// ENTRY: ref_fetch_fault
// ENTRY: ref_illegal 23
#include "safe.h"
#include "P12.cpp"
