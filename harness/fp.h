// Single-precision operations: the IEEE arithmetic itself is the library's, so every arithmetic library call is an
// unknown function of its operands and the rounding mode; comparisons and classification are spelled out.
#pragma once
extern "C" {
#include "softfloat.h"
}
uint_fast8_t softfloat_roundingMode, softfloat_exceptionFlags, softfloat_detectTininess;
namespace fp {
inline uint32_t rmode() { return softfloat_roundingMode & 7; }
enum Op { ADD, SUB, MUL, DIV, SQRT, SGNJ, SGNJN, SGNJX, MIN, MAX, FEQ, FLT, FLE, W_S, WU_S, S_W, S_WU, CLASS, MADD, MSUB, NMSUB, NMADD, COUNT };
static const char *const NAME[COUNT] = {"fadd", "fsub", "fmul", "fdiv", "fsqrt", "fsgnj", "fsgnjn", "fsgnjx", "fmin", "fmax", "feq", "flt", "fle", "fcvt.w", "fcvt.wu", "fcvt.s.w", "fcvt.s.wu", "fclass", "fmadd", "fmsub", "fnmsub", "fnmadd"};
// bits that make up the encoding; rm: the rounding mode field is free
struct Enc { uint32_t mask, match; bool rm; };
inline Enc enc(int o) {
  static const struct { uint8_t f7; int8_t f3, rs2; } T[18] = {{0x00, -1, -1}, {0x04, -1, -1}, {0x08, -1, -1}, {0x0c, -1, -1}, {0x2c, -1, 0}, {0x10, 0, -1}, {0x10, 1, -1}, {0x10, 2, -1}, {0x14, 0, -1}, {0x14, 1, -1}, {0x50, 2, -1}, {0x50, 1, -1}, {0x50, 0, -1}, {0x60, -1, 0}, {0x60, -1, 1}, {0x68, -1, 0}, {0x68, -1, 1}, {0x70, 1, 0}};
  if (o >= MADD) return {0x0600007fu, 0x43u + 4u * (uint32_t)(o - MADD), true};
  Enc e = {0xfe00007fu, (uint32_t)T[o].f7 << 25 | 0x53u, T[o].f3 < 0}; if (T[o].f3 >= 0) { e.mask |= 0x7000u; e.match |= (uint32_t)T[o].f3 << 12; } if (T[o].rs2 >= 0) { e.mask |= 0x1f00000u; e.match |= (uint32_t)T[o].rs2 << 20; } return e;
}
inline bool nan(uint32_t x) { return (x >> 23 & 255) == 255 && (x & 0x7fffffu) != 0; }
// the patterns by kind: zero, subnormal, normal, infinite, signalling and quiet not-a-number, both signs; fraction unknown
enum { KINDS = 20 };
inline uint32_t pattern(int k, const char *n) { uint32_t x = v_any<uint32_t>(n), s = k & 1 ? 0x80000000u : 0, f = x & 0x7fffffu; switch (k >> 1) { case 0: return s; case 1: return s | (f & 0x3fffff) | 1; case 2: return s | f | 0x400000; case 3: return s | 0x00800000 | f; case 4: return s | 0x3f800000 | f; case 5: return s | 0x4b000000 | f; case 6: return s | 0x7f000000 | f; case 7: return s | 0x7f800000; case 8: return s | 0x7f800000 | (f & 0x3fffff) | 1; default: return s | 0x7fc00000 | f; } }
inline bool by_kind(int o) { return (o >= SGNJ && o <= FLE) || o == CLASS; }
// strictly below, over all non-NaN patterns: a total order on sign and magnitude in which the zeros are equal
inline bool less(uint32_t a, uint32_t b) { uint32_t ma = a & 0x7fffffffu, mb = b & 0x7fffffffu; bool na = a >> 31, nb = b >> 31; if (nan(a) || nan(b)) return false; if ((ma | mb) == 0) return false; return na && !nb ? true : !na && nb ? false : na ? mb < ma : ma < mb; }
inline bool same(uint32_t a, uint32_t b) { return !nan(a) && !nan(b) && (a == b || ((a | b) & 0x7fffffffu) == 0); }
inline uint32_t smaller(uint32_t a, uint32_t b) { if (nan(a)) return nan(b) ? 0x7fc00000u : b; if (nan(b)) return a; return less(a, b) || (same(a, b) && a >> 31) ? a : b; }
inline uint32_t larger(uint32_t a, uint32_t b) { if (nan(a)) return nan(b) ? 0x7fc00000u : b; if (nan(b)) return a; return less(b, a) || (same(a, b) && !(a >> 31)) ? a : b; }
inline uint32_t sort_of(uint32_t a) { uint32_t e = a >> 23 & 255, m = a & 0x7fffffu; bool n = a >> 31; if (e == 255) return m ? (m & 0x400000u ? 1u << 9 : 1u << 8) : n ? 1u : 1u << 7; if (e) return n ? 2 : 1u << 6; if (m) return n ? 4 : 1u << 5; return n ? 8 : 1u << 4; }
inline uint32_t mul_add(uint32_t a, uint32_t b, uint32_t c, uint32_t rm) { return (uint32_t)__v_uf("f_mul_add", 32, a & 0x7fffffffu, b & 0x7fffffffu, (a ^ b) >> 31, c, rm); }
inline uint32_t result(int o, uint32_t a, uint32_t b, uint32_t c, uint32_t rm) {
  const uint32_t S = 0x80000000u;
  switch (o) {
  case ADD: return (uint32_t)__v_uf("f_add", 32, a, b, rm); case SUB: return (uint32_t)__v_uf("f_sub", 32, a, b, rm); case MUL: return (uint32_t)__v_uf("f_mul", 32, a, b, rm); case DIV: return (uint32_t)__v_uf("f_div", 32, a, b, rm); case SQRT: return (uint32_t)__v_uf("f_sqrt", 32, a, rm);
  case SGNJ: return (a & ~S) | (b & S); case SGNJN: return (a & ~S) | (~b & S); case SGNJX: return a ^ (b & S); case MIN: return smaller(a, b); case MAX: return larger(a, b); case FEQ: return same(a, b); case FLT: return less(a, b); case FLE: return less(a, b) || same(a, b);
  case W_S: return (uint32_t)__v_uf("f_to_int", 32, a, rm); case WU_S: return (uint32_t)__v_uf("f_to_uint", 32, a, rm); case S_W: return (uint32_t)__v_uf("f_from_int", 32, a, rm); case S_WU: return (uint32_t)__v_uf("f_from_uint", 32, a, rm); case CLASS: return sort_of(a);
  case MADD: return mul_add(a, b, c, rm); case MSUB: return mul_add(a, b, c ^ S, rm); case NMSUB: return mul_add(a ^ S, b, c, rm); default: return mul_add(a ^ S, b, c ^ S, rm);
  }
}
}
// the library, as far as the callers can tell
namespace fp { inline float32_t f(uint32_t v) { float32_t r; r.v = v; return r; } }
extern "C" float32_t f32_add(float32_t a, float32_t b) { return fp::f(fp::result(fp::ADD, a.v, b.v, 0, fp::rmode())); }
extern "C" float32_t f32_sub(float32_t a, float32_t b) { return fp::f(fp::result(fp::SUB, a.v, b.v, 0, fp::rmode())); }
extern "C" float32_t f32_mul(float32_t a, float32_t b) { return fp::f(fp::result(fp::MUL, a.v, b.v, 0, fp::rmode())); }
extern "C" float32_t f32_div(float32_t a, float32_t b) { return fp::f(fp::result(fp::DIV, a.v, b.v, 0, fp::rmode())); }
extern "C" float32_t f32_sqrt(float32_t a) { return fp::f(fp::result(fp::SQRT, a.v, 0, 0, fp::rmode())); }
extern "C" float32_t f32_mulAdd(float32_t a, float32_t b, float32_t c) { return fp::f(fp::mul_add(a.v, b.v, c.v, fp::rmode())); }
extern "C" bool f32_eq(float32_t a, float32_t b) { return fp::same(a.v, b.v); }
extern "C" bool f32_lt(float32_t a, float32_t b) { return fp::less(a.v, b.v); }
extern "C" bool f32_le(float32_t a, float32_t b) { return fp::less(a.v, b.v) || fp::same(a.v, b.v); }
extern "C" bool f32_isSignalingNaN(float32_t a) { return fp::nan(a.v) && !(a.v & 0x400000u); }
extern "C" int_fast32_t f32_to_i32(float32_t a, uint_fast8_t rm, bool) { return (int32_t)(uint32_t)__v_uf("f_to_int", 32, a.v, (uint32_t)rm & 7); }
extern "C" uint_fast32_t f32_to_ui32(float32_t a, uint_fast8_t rm, bool) { return (uint32_t)__v_uf("f_to_uint", 32, a.v, (uint32_t)rm & 7); }
extern "C" float32_t i32_to_f32(int32_t a) { return fp::f((uint32_t)__v_uf("f_from_int", 32, (uint32_t)a, fp::rmode())); }
extern "C" float32_t ui32_to_f32(uint32_t a) { return fp::f((uint32_t)__v_uf("f_from_uint", 32, a, fp::rmode())); }
namespace fp {
inline void model() { softfloat_exceptionFlags = v_any<uint8_t>("old_flags") & 31; }
// round-to-nearest-even is selected both directly and, there being no rounding register, by the dynamic mode
inline uint32_t mode_of(uint32_t field) { return field == 7 ? 0 : field; }
}
