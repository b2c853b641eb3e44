// The translation buffers: the packed evaluation against the direct one (stated with the translation checks).
// ENTRY: top_agree 9
// ENTRY: core_next 12
#include "P11.cpp"
