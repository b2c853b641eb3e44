// Independent statement of the instruction set, written from the RISC-V
// manuals: encodings (mask/match) and the meaning of each instruction.
#pragma once
#include <cstdint>
namespace isa {
typedef uint32_t u32; typedef int32_t i32; typedef uint64_t u64; typedef int64_t i64;
enum Op {
  LUI, AUIPC, ADDI, SLTI, SLTIU, XORI, ORI, ANDI, SLLI, SRLI, SRAI, ADD, SUB, SLL, SLT, SLTU, XOR, SRL, SRA, OR, AND,
  MUL, MULH, MULHSU, MULHU, DIV, DIVU, REM, REMU,
  SH1ADD, SH2ADD, SH3ADD, ANDN, ORN, XNOR, CLZ, CTZ, CPOP, MAX, MAXU, MIN, MINU, SEXTB, SEXTH, ZEXTH, ROL, ROR, RORI, ORCB, REV8, PACK, PACKH,
  CLMUL, CLMULH, CLMULR, BCLR, BCLRI, BEXT, BEXTI, BINV, BINVI, BSET, BSETI,
  NCOMP,
  JAL = NCOMP, JALR, BEQ, BNE, BLT, BGE, BLTU, BGEU,
  LB, LH, LW, LBU, LHU, SB, SH, SW,
  NOPS
};
static const char *const name[] = {"lui", "auipc", "addi", "slti", "sltiu", "xori", "ori", "andi", "slli", "srli", "srai", "add", "sub", "sll", "slt", "sltu", "xor", "srl", "sra", "or", "and", "mul", "mulh", "mulhsu", "mulhu", "div", "divu", "rem", "remu", "sh1add", "sh2add", "sh3add", "andn", "orn", "xnor", "clz", "ctz", "cpop", "max", "maxu", "min", "minu", "sextb", "sexth", "zexth", "rol", "ror", "rori", "orcb", "rev8", "pack", "packh", "clmul", "clmulh", "clmulr", "bclr", "bclri", "bext", "bexti", "binv", "binvi", "bset", "bseti", "jal", "jalr", "beq", "bne", "blt", "bge", "bltu", "bgeu", "lb", "lh", "lw", "lbu", "lhu", "sb", "sh", "sw"};
struct Enc { u32 mask, match; };
static const Enc enc[NOPS] = {
  {0x7f, 0x37}, {0x7f, 0x17}, {0x707f, 0x13}, {0x707f, 0x2013}, {0x707f, 0x3013}, {0x707f, 0x4013}, {0x707f, 0x6013}, {0x707f, 0x7013},
  {0xfe00707f, 0x1013}, {0xfe00707f, 0x5013}, {0xfe00707f, 0x40005013},
  {0xfe00707f, 0x33}, {0xfe00707f, 0x40000033}, {0xfe00707f, 0x1033}, {0xfe00707f, 0x2033}, {0xfe00707f, 0x3033}, {0xfe00707f, 0x4033}, {0xfe00707f, 0x5033}, {0xfe00707f, 0x40005033}, {0xfe00707f, 0x6033}, {0xfe00707f, 0x7033},
  {0xfe00707f, 0x02000033}, {0xfe00707f, 0x02001033}, {0xfe00707f, 0x02002033}, {0xfe00707f, 0x02003033}, {0xfe00707f, 0x02004033}, {0xfe00707f, 0x02005033}, {0xfe00707f, 0x02006033}, {0xfe00707f, 0x02007033},
  {0xfe00707f, 0x20002033}, {0xfe00707f, 0x20004033}, {0xfe00707f, 0x20006033}, {0xfe00707f, 0x40007033}, {0xfe00707f, 0x40006033}, {0xfe00707f, 0x40004033},
  {0xfff0707f, 0x60001013}, {0xfff0707f, 0x60101013}, {0xfff0707f, 0x60201013},
  {0xfe00707f, 0x0a006033}, {0xfe00707f, 0x0a007033}, {0xfe00707f, 0x0a004033}, {0xfe00707f, 0x0a005033},
  {0xfff0707f, 0x60401013}, {0xfff0707f, 0x60501013}, {0xfff0707f, 0x08004033},
  {0xfe00707f, 0x60001033}, {0xfe00707f, 0x60005033}, {0xfe00707f, 0x60005013}, {0xfff0707f, 0x28705013}, {0xfff0707f, 0x69805013},
  {0xfe00707f, 0x08004033}, {0xfe00707f, 0x08007033},
  {0xfe00707f, 0x0a001033}, {0xfe00707f, 0x0a003033}, {0xfe00707f, 0x0a002033},
  {0xfe00707f, 0x48001033}, {0xfe00707f, 0x48001013}, {0xfe00707f, 0x48005033}, {0xfe00707f, 0x48005013}, {0xfe00707f, 0x68001033}, {0xfe00707f, 0x68001013}, {0xfe00707f, 0x28001033}, {0xfe00707f, 0x28001013},
  {0x7f, 0x6f}, {0x707f, 0x67}, {0x707f, 0x63}, {0x707f, 0x1063}, {0x707f, 0x4063}, {0x707f, 0x5063}, {0x707f, 0x6063}, {0x707f, 0x7063},
  {0x707f, 0x03}, {0x707f, 0x1003}, {0x707f, 0x2003}, {0x707f, 0x4003}, {0x707f, 0x5003}, {0x707f, 0x23}, {0x707f, 0x1023}, {0x707f, 0x2023},
};
inline u32 rd(u32 i) { return (i >> 7) & 31; }
inline u32 rs1(u32 i) { return (i >> 15) & 31; }
inline u32 rs2(u32 i) { return (i >> 20) & 31; }
inline u32 immI(u32 i) { return (u32)((i32)i >> 20); }
inline u32 immS(u32 i) { return ((u32)((i32)i >> 25) << 5) | ((i >> 7) & 31); }
inline u32 immB(u32 i) { return ((u32)((i32)i >> 31) << 12) | (((i >> 7) & 1) << 11) | (((i >> 25) & 63) << 5) | (((i >> 8) & 15) << 1); }
inline u32 immU(u32 i) { return i & 0xfffff000u; }
inline u32 immJ(u32 i) { return ((u32)((i32)i >> 31) << 20) | (i & 0xff000u) | (((i >> 20) & 1) << 11) | (((i >> 21) & 0x3ff) << 1); }
inline u32 shl(u32 a, u32 n) { return n > 31 ? 0 : a << n; }
inline u32 shr(u32 a, u32 n) { return n > 31 ? 0 : a >> n; }
// result of computational instruction o with encoding i at address pc on operands a, b
inline u32 result(int o, u32 i, u32 pc, u32 a, u32 b) {
  u32 im = immI(i), sh = rs2(i), s = b & 31;
  switch (o) {
  case LUI: return immU(i);
  case AUIPC: return pc + immU(i);
  case ADDI: return a + im;
  case SLTI: return (i32)a < (i32)im;
  case SLTIU: return a < im;
  case XORI: return a ^ im;
  case ORI: return a | im;
  case ANDI: return a & im;
  case SLLI: return a << sh;
  case SRLI: return a >> sh;
  case SRAI: return (u32)((i32)a >> sh);
  case ADD: return a + b;
  case SUB: return a - b;
  case SLL: return a << s;
  case SLT: return (i32)a < (i32)b;
  case SLTU: return a < b;
  case XOR: return a ^ b;
  case SRL: return a >> s;
  case SRA: return (u32)((i32)a >> s);
  case OR: return a | b;
  case AND: return a & b;
  case MUL: return a * b;
  case MULH: return (u32)((u64)((i64)(i32)a * (i64)(i32)b) >> 32);
  case MULHSU: return (u32)((u64)((i64)(i32)a * (i64)(u64)b) >> 32);
  case MULHU: return (u32)(((u64)a * (u64)b) >> 32);
  case DIV: return b == 0 ? 0xffffffffu : (a == 0x80000000u && b == 0xffffffffu) ? a : (u32)((i32)a / (i32)b);
  case DIVU: return b == 0 ? 0xffffffffu : a / b;
  case REM: return b == 0 ? a : (a == 0x80000000u && b == 0xffffffffu) ? 0 : (u32)((i32)a % (i32)b);
  case REMU: return b == 0 ? a : a % b;
  case SH1ADD: return (a << 1) + b;
  case SH2ADD: return (a << 2) + b;
  case SH3ADD: return (a << 3) + b;
  case ANDN: return a & ~b;
  case ORN: return a | ~b;
  case XNOR: return ~(a ^ b);
  case CLZ: { u32 n = 32; for (int k = 0; k < 32; k++) if ((a >> k) & 1) n = 31 - k; return n; }
  case CTZ: { u32 n = 32; for (int k = 31; k >= 0; k--) if ((a >> k) & 1) n = k; return n; }
  case CPOP: { u32 n = 0; for (int k = 0; k < 32; k++) n += (a >> k) & 1; return n; }
  case MAX: return (i32)b < (i32)a ? a : b;
  case MAXU: return b < a ? a : b;
  case MIN: return (i32)a < (i32)b ? a : b;
  case MINU: return a < b ? a : b;
  case SEXTB: return (u32)(i32)(int8_t)a;
  case SEXTH: return (u32)(i32)(int16_t)a;
  case ZEXTH: return a & 0xffff;
  case ROL: return shl(a, s) | shr(a, 32 - s);
  case ROR: return shr(a, s) | shl(a, 32 - s);
  case RORI: return shr(a, sh) | shl(a, 32 - sh);
  case ORCB: { u32 r = 0; for (int k = 0; k < 4; k++) if ((a >> (8 * k)) & 0xff) r |= 0xffu << (8 * k); return r; }
  case REV8: return (a >> 24) | ((a >> 8) & 0xff00) | ((a << 8) & 0xff0000) | (a << 24);
  case PACK: return (a & 0xffff) | (b << 16);
  case PACKH: return (a & 0xff) | ((b & 0xff) << 8);
  case CLMUL: { u32 r = 0; for (int k = 0; k < 32; k++) { if ((b >> k) & 1) r ^= a << k; } return r; }
  case CLMULH: { u32 r = 0; for (int k = 1; k < 32; k++) { if ((b >> k) & 1) r ^= a >> (32 - k); } return r; }
  case CLMULR: { u32 r = 0; for (int k = 0; k < 32; k++) { if ((b >> k) & 1) r ^= a >> (31 - k); } return r; }
  case BCLR: return a & ~(1u << s);
  case BCLRI: return a & ~(1u << sh);
  case BEXT: return (a >> s) & 1;
  case BEXTI: return (a >> sh) & 1;
  case BINV: return a ^ (1u << s);
  case BINVI: return a ^ (1u << sh);
  case BSET: return a | (1u << s);
  case BSETI: return a | (1u << sh);
  }
  return 0;
}
inline bool taken(int o, u32 a, u32 b) {
  switch (o) {
  case BEQ: return a == b;
  case BNE: return a != b;
  case BLT: return (i32)a < (i32)b;
  case BGE: return (i32)a >= (i32)b;
  case BLTU: return a < b;
  case BGEU: return a >= b;
  }
  return true;
}
}
