#pragma once
// The read port of the memory interconnect (a submodule that is not part of the tree), as the instruction cache uses it.
#include <cstdint>
namespace axi_interconnect {
constexpr uint32_t MAX_READ_TRANSACTION_BYTES = 256;
struct WideData512_t { uint32_t words[64] = {0}; uint32_t &operator[](int i) { return words[i]; } const uint32_t &operator[](int i) const { return words[i]; } };
struct ReadMasterReq_t { bool valid = false, ready = false, accepted = false; uint8_t accepted_id = 0; uint32_t addr = 0; uint8_t total_size = 0, id = 0; bool bypass = false; };
struct ReadMasterResp_t { bool valid = false, ready = false; WideData512_t data{}; uint8_t id = 0; };
struct ReadMasterPort_t { ReadMasterReq_t req{}; ReadMasterResp_t resp{}; };
}
