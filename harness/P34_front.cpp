// P34: predecode and redirection inside the fetch pipeline.
// ENTRY: stream 12
// FLAGS: -I$VERIF/harness/stubcpu
#include "P35_front.cpp"
