// memory safety over the inputs of P11
// ENTRY: lookup 5
// ENTRY: core_next 12
// ENTRY: top_agree 9
// ENTRY: lsu_ports 4
// ENTRY: object 12
#include "safe.h"
#include "P11.cpp"
