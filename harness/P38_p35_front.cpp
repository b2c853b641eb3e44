// memory safety over the inputs of P35_front
// ENTRY: stream 6
// FLAGS: -I$VERIF/harness/stubcpu
#include "safe.h"
#include "P35_front.cpp"
