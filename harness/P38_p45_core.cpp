// memory safety over the inputs of P45_core
// ENTRY: report 20
// ENTRY: store 20
// FLAGS: -I$VERIF/harness/stubaxi
#include "safe.h"
#include "P45_core.cpp"
