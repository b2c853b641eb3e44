// P17: squashes in the dispatch stage.
// ENTRY: group 48
#include "P23.cpp"
