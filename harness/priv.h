// Independent statement of the privileged architecture parts the repository
// models: CSR writes, trap entry, trap return, interrupt recognition.
#pragma once
#include "vh.h"
#include "Csr.h"
namespace priv {
typedef uint32_t u32;
static const u32 MW = 0x807FF9BB, SW = 0x800DE133, MIEW = 0xbbb, SIEW = 0x333;
struct S { u32 csr[21]; u32 priv; };
// index of a CSR number in the register file, by the architecture's names
static const u32 num[21] = {0x305, 0x341, 0x342, 0x304, 0x344, 0x343, 0x340, 0x300, 0x303, 0x302, 0x141, 0x105, 0x142, 0x140, 0x143, 0x100, 0x104, 0x144, 0x180, 0xf14, 0x301};
enum { mtvec, mepc, mcause, mie, mip, mtval, mscratch, mstatus, mideleg, medeleg, sepc, stvec, scause, sscratch, stval, sstatus, sie, sip, satp, mhartid, misa };
static const char *const name[21] = {"mtvec", "mepc", "mcause", "mie", "mip", "mtval", "mscratch", "mstatus", "mideleg", "medeleg", "sepc", "stvec", "scause", "sscratch", "stval", "sstatus", "sie", "sip", "satp", "mhartid", "misa"};
inline void alias(S &s) { s.csr[sstatus] = s.csr[mstatus] & SW; s.csr[sie] = s.csr[mie] & SIEW; s.csr[sip] = s.csr[mip] & SIEW; }
inline void any(S &s) { v_in(s.csr, "csr"); alias(s); s.priv = v_any<uint32_t>("priv") & 3; s.priv |= (s.priv >> 1); }
// f3: 1 write, 2 set, 3 clear (bit 2: immediate form); src: register value or immediate; src_is_zero: register number or immediate is zero
inline void access(S &s, int k, u32 f3, u32 src, bool src_is_zero) {
  u32 old = s.csr[k];
  if ((f3 & 3) != 1 && src_is_zero) return;
  u32 v = (f3 & 3) == 1 ? src : (f3 & 3) == 2 ? (old | src) : (old & ~src);
  switch (k) {
  case mstatus: s.csr[mstatus] = (s.csr[mstatus] & ~MW) | (v & MW); break;
  case sstatus: s.csr[mstatus] = (s.csr[mstatus] & ~SW) | (v & SW); break;
  case mie: s.csr[mie] = v & MIEW; break;
  case sie: s.csr[mie] = (s.csr[mie] & ~SIEW) | (v & SIEW); break;
  case mip: s.csr[mip] = v & MIEW; break;
  case sip: s.csr[mip] = (s.csr[mip] & ~SIEW) | (v & SIEW); break;
  default: s.csr[k] = v;
  }
  alias(s);
}
// enters the handling level; returns the handler address
inline u32 enter(S &s, bool to_s, bool intr, u32 code, u32 tval, u32 pc) {
  u32 m = s.csr[mstatus], vec;
  u32 cause = code | (intr ? 0x80000000u : 0);
  if (to_s) {
    s.csr[sepc] = pc; s.csr[scause] = cause; s.csr[stval] = tval;
    u32 ie = (m >> 1) & 1;
    m = (m & ~((1u << 1) | (1u << 5) | (1u << 8))) | (ie << 5) | ((s.priv == 1 ? 1u : 0u) << 8);
    s.priv = 1; vec = s.csr[stvec];
  } else {
    s.csr[mepc] = pc; s.csr[mcause] = cause; s.csr[mtval] = tval;
    u32 ie = (m >> 3) & 1;
    m = (m & ~((1u << 3) | (1u << 7) | (3u << 11))) | (ie << 7) | (s.priv << 11);
    s.priv = 3; vec = s.csr[mtvec];
  }
  s.csr[mstatus] = m; alias(s);
  return (vec & ~3u) + ((vec & 1) && intr ? 4 * code : 0);
}
inline u32 exception(S &s, u32 code, u32 tval, u32 pc) { return enter(s, s.priv != 3 && ((s.csr[medeleg] >> code) & 1), false, code, tval, pc); }
inline u32 mret(S &s) {
  u32 m = s.csr[mstatus];
  s.priv = (m >> 11) & 3;
  m = (m & ~((1u << 3) | (3u << 11))) | (((m >> 7) & 1) << 3) | (1u << 7);
  s.csr[mstatus] = m; alias(s);
  return s.csr[mepc];
}
inline u32 sret(S &s) {
  u32 m = s.csr[mstatus];
  s.priv = (m >> 8) & 1;
  m = (m & ~((1u << 1) | (1u << 8))) | (((m >> 5) & 1) << 1) | (1u << 5);
  s.csr[mstatus] = m; alias(s);
  return s.csr[sepc];
}
// interrupt lines recognised at machine level / supervisor level
inline bool m_irq(const S &s, int bit) { return ((s.csr[mip] & s.csr[mie] & ~s.csr[mideleg]) >> bit & 1) && (s.priv < 3 || (s.csr[mstatus] >> 3 & 1)); }
inline bool s_irq(const S &s, int kind) { // kind: 1 software, 5 timer, 9 external; its machine line may be delegated
  u32 p = s.csr[mip] & s.csr[mie];
  bool on = (p >> kind & 1) || ((p & s.csr[mideleg]) >> (kind + 2) & 1);
  return on && (s.priv == 0 || (s.priv == 1 && (s.csr[mstatus] >> 1 & 1)));
}
inline bool any_m(const S &s) { return m_irq(s, 3) || m_irq(s, 7) || m_irq(s, 11); }
inline bool any_s(const S &s) { return s_irq(s, 1) || s_irq(s, 5) || s_irq(s, 9); }
}
