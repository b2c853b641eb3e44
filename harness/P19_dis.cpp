// P19: readiness as seen by the dispatch stage.
// ENTRY: group 48
#include "P23.cpp"
