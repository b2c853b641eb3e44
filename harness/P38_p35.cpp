// memory safety over the inputs of P35
// ENTRY: addresses 9
// ENTRY: instructions 9
// ENTRY: predictions 9
// ENTRY: groups 9
// FLAGS: -I$VERIF/harness/stubcpu
#include "safe.h"
#include "P35.cpp"
