// memory safety over the inputs of P21
// ENTRY: pipelined 6
// ENTRY: iterative 6
// ENTRY: ports 6
// ENTRY: single
#include "safe.h"
#include "P21.cpp"
