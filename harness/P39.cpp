// P39: images and checkpoints are checked before they are used, and give exactly the recorded state.
// FLAGS: -I$VERIF/harness/stubio -I$VERIF/harness/stubaxi -DCONFIG_ICACHE_USE_AXI_MEM_PORT=0
// ENTRY: image 8
// ENTRY: header 12
// ENTRY: cut_short 16
// ENTRY: ranges 12
// ENTRY: whole 2
// ENTRY: from_reference
#include "vh.h"
#include "config.h"
#define PLIC_MMIO_SIZE 0x1000u // a shorter interrupt-controller range; nothing depends on its length
#include "back-end/BackTop.cpp"
// ---- memory
alignas(64) static uint32_t ram[16]; static bool cleared; static int n_io; struct Io { uint32_t at, word; }; static Io io[16], want[16]; static int n_want; static const char *STRAY = "only words of the file are put into memory";
uint32_t *pmem_ram_ptr() { return ram; }
void pmem_clear_all() { cleared = true; }
static bool booting;
void pmem_write(uint32_t at, uint32_t word) {
  V_REQUIRE(at < PMEM_RAM_BASE || at - PMEM_RAM_BASE >= RAM_SIZE, "device words never land in main memory"); if (booting) return;
  int k = 0; while (k < n_io && io[k].at != at) k++; V_REQUIRE(k < n_io, STRAY); if (k < n_io) io[k].word = word;
}
uint32_t pmem_read(uint32_t) { return 0; }
// ---- the rest of the machine
CPU_state dut_cpu; static CPU_state told; static uint8_t told_priv; static int n_told;
void init_difftest(int) {} void init_oracle(int) {} void init_oracle_ckpt(CPU_state, uint8_t) {}
void init_diff_ckpt(CPU_state s, uint8_t p) { told = s; told_priv = p; n_told++; }
static CPU_state ref_state; static uint8_t ref_priv;
void get_state(CPU_state &s, uint8_t &p) { s = ref_state; p = ref_priv; }
alignas(64) static char top[sizeof(BackTop)], prf_[sizeof(Prf)], csr_[sizeof(Csr)], lsu_[sizeof(RealLsu)]; static BackTop *bt;
static void boot() { __v_ub(1); bt = (BackTop *)top; bt->prf = (Prf *)prf_; bt->csr = (Csr *)csr_; bt->lsu = (RealLsu *)lsu_; n_io = n_want = n_told = 0; cleared = booting = false; }
// ---- image
static std::streamsize img_size; static bool img_open, img_ok, img_read;
namespace std {
ifstream::basic_ifstream(const std::string &, ios_base::openmode) {} bool ifstream::is_open() { return img_open; } ifstream &ifstream::seekg(long, ios_base::seekdir) { return *this; } std::streamsize ifstream::tellg() { return img_open ? img_size : -1; }
ifstream &ifstream::read(char *to, std::streamsize n) { V_REQUIRE(to == (char *)ram, "an image is put at the start of main memory"); V_REQUIRE(n >= 0 && (uint64_t)n <= RAM_SIZE, "no more than main memory holds is read"); V_REQUIRE(n == img_size, "the whole image is read"); img_read = true; return *this; }
bool ifstream::operator!() const { return !img_ok; } void ifstream::close() {}
}
static const char *REFUSED = "a file that does not fit is refused";
extern "C" void image(int part) {
  boot(); booting = true; img_read = false; img_open = v_any<bool>("open"); img_ok = v_any<bool>("ok"); const std::streamsize S[] = {0, 4, 1 << 20, (std::streamsize)RAM_SIZE, (std::streamsize)RAM_SIZE + 1, (std::streamsize)RAM_SIZE * 4, -1};
  img_size = part == 7 ? v_any<int64_t>("size") : S[part]; if (part < 4 || part == 7) { img_open = true; if (part < 4) img_ok = part & 1 ? true : v_any<bool>("ok"); }
  bt->load_image("image"); V_REQUIRE(img_open && img_ok && img_size >= 0 && (uint64_t)img_size <= RAM_SIZE, REFUSED); V_REQUIRE(img_read, "an accepted image is read");
}
// ---- checkpoint: header, state, count, main memory, device ranges
struct Header { uint32_t magic; uint16_t version, mode; uint32_t ram_size, ranges; };
struct State { uint32_t gpr[32], csr[21], pc, store_addr, store_data, store_strb; bool store, reserve_valid; uint32_t reserve_addr; };
struct Range { uint32_t base, size; };
static Header head; static State st; static uint64_t count; static Range rng_[8]; static const Range LAYOUT[4] = {{BOOT_IO_BASE, BOOT_IO_SIZE}, {UART_ADDR_BASE, UART_MMIO_SIZE}, {PLIC_ADDR_BASE, PLIC_MMIO_SIZE}, {OPENSBI_TIMER_BASE, OPENSBI_TIMER_MMIO_SIZE}};
static int stage, n_reads, fails, cut, cut_to, openings; static uint64_t got; static bool chunks, closed; static const char *BOUNDS = "a read stays inside its buffer";
extern "C" gzFile gzopen(const char *, const char *) { return openings > 0 ? (gzFile)top : nullptr; }
extern "C" int gzclose(gzFile) { closed = true; return 0; }
extern "C" int gzwrite(gzFile, const void *, unsigned) { return 0; } extern "C" int gzeof(gzFile) { return 0; } extern "C" const char *gzerror(gzFile, int *) { return ""; }
template <class T> static int give(void *to, unsigned n, const T &x) { V_REQUIRE(n == sizeof(T), "the parts of a checkpoint are read in their order"); if (n == sizeof(T)) std::memcpy(to, &x, sizeof(T)); stage++; return n; }
extern "C" int gzread(gzFile f, void *to, unsigned n) {
  V_REQUIRE(f != nullptr, "nothing is read from a file that is not there"); if (n_reads++ >= cut) { V_REQUIRE(fails++ < 3, "reading stops where the file ends"); if (fails > 4) exit(1); return cut_to; }
  if (stage == 0) return give(to, n, head); if (stage == 1) return give(to, n, st); if (stage == 2) return give(to, n, count);
  if (stage == 3) { V_REQUIRE(cleared, "old device words are cleared before a restore"); V_REQUIRE((char *)to == (char *)ram + got && got + n <= RAM_SIZE, "main memory is filled from its start to its end"); uint64_t m = chunks && n > 5 ? n / 2 : n; got += m; if (got == RAM_SIZE) { stage = 4; got = 0; } return (int)m; }
  int k = (stage - 4) / 2; if (stage % 2 == 0) { int r = give(to, n, rng_[k & 7]); got = 0; if (rng_[k & 7].size == 0) stage++; return r; }
  uint32_t size = rng_[k].size; V_REQUIRE(got + n <= size, BOUNDS); uint64_t m = chunks && n > 5 ? n / 2 : n;
  for (int i = 0; i < n_want; i++) { uint32_t o = want[i].at - rng_[k].base; for (int b = 0; b < 4; b++) if (want[i].at >= rng_[k].base && o + b >= got && o + b < got + m) ((uint8_t *)to)[o + b - got] = (uint8_t)(want[i].word >> 8 * b); }
  got += m; if (got == size) { stage++; got = 0; } return (int)m;
}
static void file() {
  boot(); head = {0x006d6552u, 2, v_any<uint16_t>("mode"), (uint32_t)RAM_SIZE, 4}; v_in(st, "state"); count = v_any<uint64_t>("count"); for (int i = 0; i < 8; i++) rng_[i] = LAYOUT[i & 3]; stage = n_reads = fails = 0; got = 0; cut = 1 << 30; cut_to = 0; openings = 1; chunks = closed = false;
  v_in(dut_cpu, "was"); bt->out.flush = false;
}
static void word(uint32_t at) { want[n_want] = {at, v_any<uint32_t>(v_name("word", n_want))}; io[n_io++] = {at, 0}; n_want++; }
static void same_state(const char *R, const uint32_t *gpr, const uint32_t *csr, uint32_t pc, uint8_t priv, bool rv, uint32_t ra) {
  for (int i = 0; i < ARF_NUM; i++) { v_is<uint32_t>(bt->prf->reg_file[i], gpr[i], R); v_is<uint32_t>(bt->prf->reg_file_1[i], gpr[i], R); v_is<uint32_t>(dut_cpu.gpr[i], gpr[i], R); }
  for (int i = 0; i < CSR_NUM; i++) { v_is<uint32_t>(bt->csr->CSR_RegFile[i], csr[i], R); v_is<uint32_t>(bt->csr->CSR_RegFile_1[i], csr[i], R); v_is<uint32_t>(dut_cpu.csr[i], csr[i], R); }
  v_is<uint8_t>(bt->csr->privilege, priv, R); v_is<uint8_t>(bt->csr->privilege_1, priv, R); v_is<uint32_t>(bt->number_PC, pc, R); v_is<uint32_t>(dut_cpu.pc, pc, R); v_is<bool>(bt->out.flush, true, "fetch restarts at the restored address"); v_is<uint32_t>(bt->out.redirect_pc, pc, "fetch restarts at the restored address");
  v_is<bool>(bt->lsu->cur.lrsc_unit.reserve_valid, rv, R); v_is<bool>(bt->lsu->nxt.lrsc_unit.reserve_valid, rv, R); v_is<uint32_t>(bt->lsu->cur.lrsc_unit.reserve_addr, ra, R); v_is<uint32_t>(bt->lsu->nxt.lrsc_unit.reserve_addr, ra, R); v_is<bool>(dut_cpu.reserve_valid, rv, R); v_is<uint32_t>(dut_cpu.reserve_addr, ra, R);
}
static void restored(bool fits) {
  V_REQUIRE(fits, REFUSED); if (!fits) return; const char *R = "the recorded state is restored"; uint8_t p = head.mode & 3;
  same_state(R, st.gpr, st.csr, st.pc, p, st.reserve_valid, st.reserve_addr); v_is<uint64_t>(bt->ckpt_interval_inst_count, count, R); V_REQUIRE(closed, "the file is closed");
  V_REQUIRE(n_told == 1, "the reference starts from the same state"); const char *T = "the reference starts from the same state"; for (int i = 0; i < ARF_NUM; i++) v_is<uint32_t>(told.gpr[i], st.gpr[i], T); for (int i = 0; i < CSR_NUM; i++) v_is<uint32_t>(told.csr[i], st.csr[i], T); v_is<uint32_t>(told.pc, st.pc, T); v_is<uint8_t>(told_priv, p, T); v_is<bool>(told.reserve_valid, st.reserve_valid, T); v_is<uint32_t>(told.reserve_addr, st.reserve_addr, T);
  for (int i = 0; i < n_want; i++) v_is<uint32_t>(io[i].word, want[i].word, "device words are restored");
}
// one header field is wrong in some way
extern "C" void header(int part) {
  file(); rng_[2].size = 0; cut = 5; // stops at the first device range at the latest
  switch (part) { case 0: head.magic = v_any<uint32_t>("magic"); break; case 1: head.version = v_any<uint16_t>("version"); break; case 2: head.ram_size = v_any<uint32_t>("ram"); break;
    case 3: head.ranges = 0; break; case 4: head.ranges = 1; break; case 5: head.ranges = 3; break; case 6: head.ranges = 5; break; case 7: head.ranges = 0xffffffffu; break; case 8: head.magic ^= 1u << 31; break; case 9: head.ranges = 8; break; case 10: head.version = 0; break; default: cut = 1 << 30; head.ranges = 0x80000004u; break; }
  bt->restore_checkpoint("point"); restored(false);
}
// the file ends early, or reading fails
extern "C" void cut_short(int part) { file(); cut = part / 2 % 4 + (part >= 8 ? 4 : 0); chunks = part >= 8; cut_to = part & 1 ? -1 : cut < 3 && !chunks ? (int)sizeof(uint32_t) : 0; bt->restore_checkpoint("point"); restored(false); }
// a device range is not the expected one
extern "C" void ranges(int part) {
  file(); cut = 1 << 30;
  switch (part) { case 0: rng_[0].base = v_any<uint32_t>("base"); cut = 5; break; case 1: rng_[0].size = BOOT_IO_SIZE + 4; break; case 2: rng_[0].size = 0xffffffffu; cut = 5; break; case 3: rng_[1].base += 4; break; case 4: rng_[1].size = 0x40000000; cut = 7; break; case 5: rng_[0].size = BOOT_IO_SIZE - 4; break; case 6: rng_[0].base = PMEM_RAM_BASE; break; case 7: rng_[1].size = 0; break; case 8: rng_[2].base = 0; break; case 9: rng_[2].size = 0xfffffffcu; cut = 9; break; case 10: rng_[0].size = 0; break; default: rng_[1].base = v_any<uint32_t>("base"); cut = 7; break; }
  bt->restore_checkpoint("point"); restored(false);
}
extern "C" void whole(int part) {
  file(); chunks = part; uint32_t last = rng_[3].size = part ? 0x40 : OPENSBI_TIMER_MMIO_SIZE; word(BOOT_IO_BASE); word(BOOT_IO_BASE + BOOT_IO_SIZE - 4); word(UART_ADDR_BASE + 4); word(UART_ADDR_BASE + UART_MMIO_SIZE - 4); word(PLIC_ADDR_BASE); word(PLIC_ADDR_BASE + 0x804); word(PLIC_ADDR_BASE + PLIC_MMIO_SIZE - 4); word(OPENSBI_TIMER_BASE + 8); word(OPENSBI_TIMER_BASE + last - 4);
  bt->restore_checkpoint("point"); restored(true);
}
extern "C" void from_reference() { file(); v_in(ref_state, "ref"); ref_priv = v_any<uint8_t>("refpriv"); V_ASSUME(ref_priv <= 3); bt->restore_from_ref(); same_state("the state of the reference is taken over", ref_state.gpr, ref_state.csr, ref_state.pc, ref_priv, ref_state.reserve_valid, ref_state.reserve_addr); }
