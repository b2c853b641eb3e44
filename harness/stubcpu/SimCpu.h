// Stands in for the whole-machine header, whose bus models live outside the repository; only debug dumps reach it.
#pragma once
#include "BackTop.h"
#include "FrontTop.h"
struct SimCpuMemory { void dump_debug_state(FILE *) {} };
class SimCpu {
public:
  SimCpu() : back(&ctx) {}
  SimContext ctx; BackTop back; FrontTop front; SimCpuMemory mem_subsystem;
};
