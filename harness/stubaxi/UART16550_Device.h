#pragma once
#include <cstdint>
namespace mmio { class UART16550_Device { public: uint32_t base; UART16550_Device(uint32_t b) : base(b) {} template <class P> void sync_from_backing(P) {} }; }
