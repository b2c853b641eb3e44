// memory safety over the inputs of P08_ref
// ENTRY: ref_irq 3
#include "safe.h"
#include "P08_ref.cpp"
