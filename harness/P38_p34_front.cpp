// memory safety over the inputs of P34_front
// ENTRY: stream 6
// FLAGS: -I$VERIF/harness/stubcpu
#include "safe.h"
#include "P34_front.cpp"
