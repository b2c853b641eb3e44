// memory safety over the inputs of P36
// ENTRY: carried 2
// ENTRY: controller 6
// ENTRY: group 4
// FLAGS: -I$VERIF/harness/stubic
#include "safe.h"
#include "P36.cpp"
