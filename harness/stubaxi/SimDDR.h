#pragma once
#include <cstdint>
namespace sim_ddr {
constexpr unsigned SIM_DDR_BEAT_BYTES = 32, SIM_DDR_LATENCY = 50, SIM_DDR_MAX_OUTSTANDING = 8, SIM_DDR_READ_TO_WRITE_TURNAROUND = 0, SIM_DDR_WRITE_ACCEPT_GAP = 0, SIM_DDR_WRITE_DATA_FIFO_DEPTH = 8, SIM_DDR_WRITE_DRAIN_GAP = 0, SIM_DDR_WRITE_DRAIN_HIGH_WATERMARK = 4, SIM_DDR_WRITE_DRAIN_LOW_WATERMARK = 1, SIM_DDR_WRITE_QUEUE_DEPTH = 8, SIM_DDR_WRITE_RESP_LATENCY = 1, SIM_DDR_WRITE_TO_READ_TURNAROUND = 0;
struct SimDDR_IO_t {
  struct { bool arvalid, arready; uint32_t arid, araddr; uint8_t arlen, arsize, arburst; } ar;
  struct { bool rvalid, rready, rlast; uint32_t rid; uint64_t rdata; uint8_t rresp; } r;
  struct { bool awvalid, awready; uint32_t awid, awaddr; uint8_t awlen, awsize, awburst; } aw;
  struct { bool wvalid, wready, wlast; uint64_t wdata; uint32_t wstrb; } w;
  struct { bool bvalid, bready; uint32_t bid; uint8_t bresp; } b;
};
class SimDDR { public: SimDDR_IO_t io; void init() {} void comb_inputs() {} void comb_outputs() {} void seq() {} };
}
