// only array bounds, addresses, shift amounts and divisors are checked in the runs of a harness included after this
#pragma once
#include "vh.h"
static struct SafetyOnly { SafetyOnly() { __v_ub(2); } } safety_only;
