// memory safety over the inputs of P34
// ENTRY: classify 5
// ENTRY: repair 32
// ENTRY: together 16
// FLAGS: -I$VERIF/harness/stubcpu
#include "safe.h"
#include "P34.cpp"
