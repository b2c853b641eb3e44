// memory safety over the inputs of P46
// ENTRY: first 1
// FLAGS: -I$VERIF/harness/stubaxi
#include "safe.h"
#include "P46.cpp"
