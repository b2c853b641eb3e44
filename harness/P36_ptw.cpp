// The page-table block: the packed evaluations against the direct one (stated with the page-walk checks).
// ENTRY: kernel 10
// ENTRY: visible 10
// ENTRY: glue
#include "P10.cpp"
