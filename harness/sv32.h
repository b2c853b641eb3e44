// Sv32 access rules, written from the privileged specification.
#pragma once
#include <cstdint>
namespace sv32 {
enum { V = 1, R = 2, W = 4, X = 8, U = 16, G = 32, A = 64, D = 128 };
inline uint32_t legal_priv(uint32_t p) { p &= 3; return p | (p >> 1 & 1); }   // 0, 1 or 3 without a side condition
inline uint32_t eff(uint32_t type, uint32_t priv, bool mprv, uint32_t mpp) { return type != 0 && mprv ? mpp : priv; }
// type: 0 fetch, 1 load, 2 store
inline bool may(uint32_t pte, uint32_t type, uint32_t priv, bool sum, bool mxr) {
  bool kind = type == 0 ? (pte & X) != 0 : type == 1 ? (pte & R) || (mxr && (pte & X)) : (pte & W) != 0;
  bool who = priv == 0 ? (pte & U) != 0 : !(pte & U) || (type != 0 && sum);
  return kind && who && (pte & A) && (type != 2 || (pte & D));
}
inline bool bad(uint32_t pte) { return !(pte & V) || ((pte & W) && !(pte & R)); }
inline bool leaf(uint32_t pte) { return (pte & (R | X)) != 0; }
inline bool misaligned(uint32_t pte) { return (pte >> 10 & 0x3ff) != 0; }
inline uint32_t l1_addr(uint32_t satp, uint32_t va) { return (satp & 0x3fffff) * 4096u + (va >> 22) * 4u; }
inline uint32_t l2_addr(uint32_t pte, uint32_t va) { return (pte >> 10) * 4096u + (va >> 12 & 0x3ff) * 4u; }
inline uint32_t pa(uint32_t ppn, bool mega, uint32_t va) { return mega ? (ppn >> 10) << 22 | (va & 0x3fffff) : ppn << 12 | (va & 0xfff); }
}
