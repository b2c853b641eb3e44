// memory safety over the inputs of P04
// ENTRY: helpers 14
// ENTRY: io_path 8
// ENTRY: device_words 8
#include "safe.h"
#include "P04.cpp"
