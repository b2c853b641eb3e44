// What each fetch-side queue must hand over, and its public steps.
#pragma once
#define COPY_RULE "an entry leaves as it entered"
template <class A, class B, int N> static void lane(const A (&a)[N], const B (&b)[N]) { for (int i = 0; i < N; i++) v_is<uint64_t>((uint64_t)a[i], (uint64_t)b[i], COPY_RULE); }
template <class A, class B, int N, int M> static void lane(const A (&a)[N][M], const B (&b)[N][M]) { for (int i = 0; i < N; i++) for (int j = 0; j < M; j++) v_is<uint64_t>((uint64_t)a[i][j], (uint64_t)b[i][j], COPY_RULE); }
constexpr uint32_t ones(int b) { return b >= 32 ? ~0u : (1u << b) - 1; }
template <class T> static void tidy_tage(T &x) { for (int i = 0; i < FETCH_WIDTH; i++) { x.altpcpn[i] = x.altpcpn[i] & ones(pcpn_t_BITS); x.pcpn[i] = x.pcpn[i] & ones(pcpn_t_BITS); for (int j = 0; j < 4; j++) { x.tage_idx[i][j] = x.tage_idx[i][j] & ones(tage_idx_t_BITS); x.tage_tag[i][j] = x.tage_tag[i][j] & ones(tage_tag_t_BITS); } } }
template <class O, class I> static void same_tage(const O &o, const I &i) { lane(o.alt_pred, i.alt_pred); lane(o.altpcpn, i.altpcpn); lane(o.pcpn, i.pcpn); lane(o.tage_idx, i.tage_idx); lane(o.tage_tag, i.tage_tag); lane(o.sc_used, i.sc_used); lane(o.sc_pred, i.sc_pred); lane(o.sc_sum, i.sc_sum); lane(o.sc_idx, i.sc_idx); lane(o.loop_used, i.loop_used); lane(o.loop_hit, i.loop_hit); lane(o.loop_pred, i.loop_pred); lane(o.loop_idx, i.loop_idx); lane(o.loop_tag, i.loop_tag); }
struct qa { using In = fetch_address_FIFO_in; using Out = fetch_address_FIFO_out; using Rd = fetch_address_FIFO_read_data; using Req = FetchAddrCombOut; enum { size = FETCH_ADDR_FIFO_SIZE, full = FETCH_ADDR_FIFO_SIZE - 1, twins = 0 };
  static void read(In *i, Rd *r) { fetch_address_FIFO_seq_read(i, r); } static void comb(In *i, const Rd *r, Out *o, Rd *n, Req *q) { fetch_address_FIFO_comb_calc(i, r, o, n, q); } static void write(const Req *q) { fetch_address_FIFO_seq_write(q); }
  static void tidy(In &) {} static void twin(In &, bool) {} static bool got(const Out &o) { return o.read_valid; }
  static void same(const Out &o, const In &i, bool) { v_is<uint32_t>(o.fetch_address, i.fetch_address, COPY_RULE); } };
struct qi { using In = instruction_FIFO_in; using Out = instruction_FIFO_out; using Rd = instruction_FIFO_read_data; using Req = InstructionCombOut; enum { size = INSTRUCTION_FIFO_SIZE, full = INSTRUCTION_FIFO_SIZE, twins = 0 };
  static void read(In *i, Rd *r) { instruction_FIFO_seq_read(i, r); } static void comb(In *i, const Rd *r, Out *o, Rd *n, Req *q) { instruction_FIFO_comb_calc(i, r, o, n, q); } static void write(const Req *q) { instruction_FIFO_seq_write(q); }
  static void tidy(In &) {} static void twin(In &, bool) {} static bool got(const Out &o) { return o.FIFO_valid; }
  static void same(const Out &o, const In &i, bool) { lane(o.instructions, i.fetch_group); lane(o.pc, i.pc); lane(o.page_fault_inst, i.page_fault_inst); lane(o.inst_valid, i.inst_valid); lane(o.predecode_type, i.predecode_type); lane(o.predecode_target_address, i.predecode_target_address); v_is<uint32_t>(o.seq_next_pc, i.seq_next_pc, COPY_RULE); } };
struct qp { using In = PTAB_in; using Out = PTAB_out; using Rd = PTAB_read_data; using Req = PtabCombOut; enum { size = PTAB_SIZE, full = PTAB_SIZE - 1, twins = 1 };
  static void read(In *i, Rd *r) { PTAB_seq_read(i, r); } static void comb(In *i, const Rd *r, Out *o, Rd *n, Req *q) { PTAB_comb_calc(i, r, o, n, q); } static void write(const Req *q) { PTAB_seq_write(q); }
  static void tidy(In &i) { tidy_tage(i); } static void twin(In &i, bool b) { i.need_mini_flush = b; } static bool got(const Out &o) { return false; }
  static void same(const Out &o, const In &i, bool dummy) { v_is<bool>(o.dummy_entry, dummy, "a placeholder follows exactly the entry that asked for one"); if (dummy) return; lane(o.predict_dir, i.predict_dir); v_is<uint32_t>(o.predict_next_fetch_address, i.predict_next_fetch_address, COPY_RULE); lane(o.predict_base_pc, i.predict_base_pc); same_tage(o, i); } };
struct qg { using In = front2back_FIFO_in; using Out = front2back_FIFO_out; using Rd = front2back_FIFO_read_data; using Req = Front2BackCombOut; enum { size = FRONT2BACK_FIFO_SIZE, full = FRONT2BACK_FIFO_SIZE, twins = 0 };
  static void read(In *i, Rd *r) { front2back_FIFO_seq_read(i, r); } static void comb(In *i, const Rd *r, Out *o, Rd *n, Req *q) { front2back_FIFO_comb_calc(i, r, o, n, q); } static void write(const Req *q) { front2back_FIFO_seq_write(q); }
  static void tidy(In &i) { tidy_tage(i); } static void twin(In &, bool) {} static bool got(const Out &o) { return o.front2back_FIFO_valid; }
  static void same(const Out &o, const In &i, bool) { lane(o.fetch_group, i.fetch_group); lane(o.page_fault_inst, i.page_fault_inst); lane(o.inst_valid, i.inst_valid); lane(o.predict_dir_corrected, i.predict_dir_corrected); v_is<uint32_t>(o.predict_next_fetch_address_corrected, i.predict_next_fetch_address_corrected, COPY_RULE); lane(o.predict_base_pc, i.predict_base_pc); same_tage(o, i); } };
