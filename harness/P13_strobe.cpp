// P13: byte strobes.
// ENTRY: strobe 16
#include "vh.h"
#include "MemSubSystem/DcacheConfig.cpp"
extern "C" void strobe(int part) {
  uint32_t old = v_any<uint32_t>("old"), data = v_any<uint32_t>("data"), w = old;
  apply_strobe(w, data, (uint8_t)part);
  for (int i = 0; i < 4; i++)
    v_is<uint8_t>((uint8_t)(w >> (8 * i)), (uint8_t)(((part >> i & 1) ? data : old) >> (8 * i)), "a byte changes exactly when its strobe is set");
}
