// P34: predecode and the check of predictions against it.
// ENTRY: classify 5
// ENTRY: repair 256
// ENTRY: together 16
// FLAGS: -I$VERIF/harness/stubcpu
#include "vh.h"
#include "front-end/predecode.cpp"
#include "front-end/predecode_checker.cpp"
static uint32_t branch_target(uint32_t w, uint32_t pc) { int32_t o = (int32_t)(w & 0x80000000) >> 19 | (w << 4 & 0x800) | (w >> 20 & 0x7e0) | (w >> 7 & 0x1e); return pc + o; }
static uint32_t jump_target(uint32_t w, uint32_t pc) { int32_t o = (int32_t)(w & 0x80000000) >> 11 | (w & 0xff000) | (w >> 9 & 0x800) | (w >> 20 & 0x7fe); return pc + o; }
static const uint32_t opcodes[4] = {0x13, 0x63, 0x67, 0x6f}; static const int kinds[4] = {PREDECODE_NON_BRANCH, PREDECODE_DIRECT_JUMP_NO_JAL, PREDECODE_JALR, PREDECODE_JAL};
static void pre(uint32_t w, uint32_t pc, PredecodeResult &r) { predecode_in in{w, pc}; predecode_read_data rd; v_in(rd, "left_over"); predecode_seq_read(&in, &rd); v_in(r, "left_over_result"); predecode_comb(rd, r); }
extern "C" void classify(int part) {
  __v_noexit(1); uint32_t w = v_any<uint32_t>("word"), pc = v_any<uint32_t>("pc"); PredecodeResult r;
  if (part < 4) {
    w = (w & ~0x7fu) | opcodes[part]; pre(w, pc, r); v_is<uint32_t>(r.type, kinds[part], "an instruction is classified by its opcode");
    if (part == 1) v_is<uint32_t>(r.target_address, branch_target(w, pc), "the target of a branch is its offset from its address"); if (part == 3) v_is<uint32_t>(r.target_address, jump_target(w, pc), "the target of a jump is its offset from its address");
  } else { for (uint32_t op = 0; op < 128; op++) { if (op == 0x63 || op == 0x67 || op == 0x6f) continue; uint32_t x = (w & ~0x7fu) | op; pre(x, pc, r); v_is<uint32_t>(r.type, PREDECODE_NON_BRANCH, "an instruction is classified by its opcode"); } }
}
static void check(const predecode_checker_in &in, int shape) {
  __v_noexit(1); predecode_checker_in x = in; predecode_checker_read_data rd; v_in(rd, "left_over"); predecode_checker_seq_read(&x, &rd); predecode_checker_out o; v_in(o, "left_over_out"); predecode_checker_comb(rd, o);
  bool any = false; uint32_t next = in.seq_next_pc; 
  for (int i = FETCH_WIDTH - 1; i >= 0; i--) { int k = shape >> (2 * i) & 3; bool t = k == 0 ? false : k == 1 ? (bool)in.predict_dir[i] : true; v_is<bool>(o.predict_dir_corrected[i], t, k == 0 ? "no non-branch is treated as taken" : k == 1 ? "a branch keeps its predicted direction" : "every unconditional jump is taken"); any |= t; uint32_t to = k == 2 ? in.predict_next_fetch_address : in.predecode_target_address[i]; if (t) next = to; }
  v_is<uint32_t>(o.predict_next_fetch_address_corrected, next, "the next address is that of the first taken instruction, or sequential"); v_is<bool>(o.predecode_flush_enable, next != in.predict_next_fetch_address, "a redirect is requested exactly when the address differs");
}
extern "C" void repair(int part) { predecode_checker_in in; v_in(in, "group"); for (int i = 0; i < FETCH_WIDTH; i++) in.predecode_type[i] = kinds[part >> (2 * i) & 3]; check(in, part); }
// classification and repair of the same words
extern "C" void together(int part) {
  predecode_checker_in in; v_in(in, "group"); int shape = 0; for (int n = 0; n < 16; n++) { shape = 0; for (int i = 0; i < FETCH_WIDTH; i++) { int k = ((part * 16 + n) >> (2 * i)) & 3; shape |= k << (2 * i); uint32_t w = (v_any<uint32_t>(v_name("word", i)) & ~0x7fu) | opcodes[k]; PredecodeResult r; pre(w, in.seq_next_pc + i * 4, r); in.predecode_type[i] = r.type; in.predecode_target_address[i] = k == 1 ? branch_target(w, in.seq_next_pc + i * 4) : k == 3 ? jump_target(w, in.seq_next_pc + i * 4) : 0; if (k == 1 || k == 3) v_is<uint32_t>(r.target_address, in.predecode_target_address[i], "the target is that of the instruction's own encoding"); } check(in, shape); }
}
