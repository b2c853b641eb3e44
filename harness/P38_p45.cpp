// memory safety over the inputs of P45
// ENTRY: differ 6
// ENTRY: agree 6
// ENTRY: adopt 2
// FLAGS: -I$VERIF/harness/stubref
#include "safe.h"
#include "P45.cpp"
