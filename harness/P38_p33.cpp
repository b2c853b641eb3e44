// memory safety over the inputs of P33
// ENTRY: plain 4
// ENTRY: redirects 3
// ENTRY: invalidations 4
// ENTRY: crowded 2
// ENTRY: timed 4
// ENTRY: packed 2
// FLAGS: -I$VERIF/harness/stubic
#include "safe.h"
#include "P33.cpp"
