#pragma once
#include "SimDDR.h"
#include "UART16550_Device.h"
namespace mmio { class MMIO_Bus_AXI4 { public: sim_ddr::SimDDR_IO_t io; void init() {} void comb_inputs() {} void comb_outputs() {} void seq() {} template <class... A> void add_device(A...) {} }; }
