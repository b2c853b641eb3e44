// Deciding obligations over the value graph: refutation needs an explicit
// valuation of the leaves; proof is by normal form.
#pragma once
#include "term.h"
#include <chrono>
#include <chrono>

static inline double wallNow() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Rng { uint64_t s; Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); } uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; } uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; } };

struct Eval {
  Terms &t;
  std::vector<N> cone;            // ascending ids
  std::vector<uint32_t> pos;      // id -> dense + 1
  std::vector<u128> val;          // dense
  std::vector<uint32_t> leafIds;  // leaf indices in the cone
  std::vector<u128> leafVal;      // by leaf index
  std::unordered_map<uint32_t, std::vector<u128>> pools;
  std::unordered_map<unsigned, std::vector<u128>> wpool;
  Eval(Terms &tt) : t(tt), pos(tt.nodes.size(), 0), leafVal(tt.leaves.size(), 0) {}
  void addRoots(const std::vector<N> &roots) {
    if (pos.size() < t.nodes.size()) pos.resize(t.nodes.size(), 0);
    if (leafVal.size() < t.leaves.size()) leafVal.resize(t.leaves.size(), 0);
    std::vector<N> st(roots);
    while (!st.empty()) { N n = st.back(); st.pop_back(); if (pos[n]) continue; pos[n] = 1; cone.push_back(n); for (unsigned i = 0; i < t[n].na; i++) if (!pos[t.arg(n, i)]) st.push_back(t.arg(n, i)); }
    std::sort(cone.begin(), cone.end());
    leafIds.clear();
    for (unsigned i = 0; i < cone.size(); i++) { pos[cone[i]] = i + 1; if (t[cone[i]].op == LEAF) leafIds.push_back((uint32_t)t[cone[i]].val); }
    val.resize(cone.size());
    harvest();
  }
  void addPool(N x, u128 c, int d = 0) {
    const Node &n = t[x]; if (d > 6) return;
    switch (n.op) {
    case LEAF: { auto &p = pools[(uint32_t)n.val]; if (p.size() < 64) p.push_back(c & maskOf(n.w)); break; }
    case BDD: if (t.bHi(x) == t.T && t.bLo(x) == t.F) addPool(t.bAtom(x), c, d + 1); break;
    case EXTRACT: { auto &nn = t[t.arg(x, 0)]; if (nn.op == LEAF) { auto &p = pools[(uint32_t)nn.val]; if (p.size() < 64) p.push_back((c << (unsigned)n.val) & maskOf(nn.w)); } break; }
    case CONCAT: { unsigned p = 0; for (unsigned i = 0; i < n.na; i++) { N a = t.arg(x, i); addPool(a, (c >> p) & maskOf(t.W(a)), d + 1); p += t.W(a); } break; }
    case ITE: addPool(t.arg(x, 1), c, d + 1); addPool(t.arg(x, 2), c, d + 1); break;
    case SUM: { u128 k = t.cv(t.arg(x, n.na - 1)); for (unsigned i = 0; i + 1 < n.na; i += 2) { u128 cf = t.cv(t.arg(x, i + 1)); if (cf == 1) addPool(t.arg(x, i), (c - k) & maskOf(n.w), d + 1); else if (cf == maskOf(n.w)) addPool(t.arg(x, i), (k - c) & maskOf(n.w), d + 1); } break; }
    default: break;
    }
  }
  void harvest() {
    for (N n : cone) {
      const Node &x = t[n];
      if ((x.op == EQ || x.op == ULT || x.op == SLT) && t.isC(t.arg(n, 1))) { u128 c = t.cv(t.arg(n, 1)); addPool(t.arg(n, 0), c); if (x.op != EQ) { addPool(t.arg(n, 0), c - 1); } }
      if (x.op == CONST && x.w > 4) { auto &p = wpool[x.w]; if (p.size() < 200) p.push_back(x.val); }
    }
  }
  static u128 hashUF(u128 name, const u128 *a, unsigned n) {
    uint64_t h = (uint64_t)name * 0x9E3779B97F4A7C15ull + 77;
    for (unsigned i = 0; i < n; i++) { h ^= (uint64_t)a[i] * 0xBF58476D1CE4E5B9ull; h = (h << 27) | (h >> 37); h ^= (uint64_t)(a[i] >> 64) * 0x94D049BB133111EBull; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    uint64_t g = h * 0xD6E8FEB86659FD93ull; g ^= g >> 32;
    return ((u128)g << 64) | h;
  }
  void run() {
    u128 buf[64];
    for (unsigned i = 0; i < cone.size(); i++) {
      N n = cone[i]; const Node &x = t.nodes[n]; u128 M = maskOf(x.w); u128 r = 0;
      const N *a = x.na ? &t.arena[x.off] : nullptr;
#define V(k) val[pos[a[k]] - 1]
      switch (x.op) {
      case CONST: r = x.val; break;
      case LEAF: r = leafVal[(uint32_t)x.val] & M; break;
      case PTR: r = ((u128)(x.val + 1) << 33) & (M >> 1); break;
      case BDD: r = V(0) ? V(1) : V(2); break;
      case ITE: case RAWITE: r = V(0) ? V(1) : V(2); break;
      case SUM: { r = V(x.na - 1); for (unsigned k = 0; k + 1 < x.na; k += 2) r += V(k) * V(k + 1); break; }
      case MUL: r = V(0) * V(1); break;
      case UDIV: case SDIV: case UREM: case SREM: r = Terms::evalDiv(x.op, x.w, V(0), V(1)); break;
      case AND: r = V(0) & V(1); break;
      case OR: r = V(0) | V(1); break;
      case XOR: r = V(0) ^ V(1); break;
      case SHL: r = V(1) >= x.w ? 0 : V(0) << (unsigned)V(1); break;
      case LSHR: r = V(1) >= x.w ? 0 : V(0) >> (unsigned)V(1); break;
      case ASHR: { unsigned k = V(1) >= x.w ? x.w - 1 : (unsigned)V(1); r = (u128)(((__int128)Terms::sx(V(0), x.w)) >> k); break; }
      case EXTRACT: r = V(0) >> (unsigned)x.val; break;
      case CONCAT: { unsigned p = 0; for (unsigned k = 0; k < x.na; k++) { r |= V(k) << p; p += t.nodes[a[k]].w; } break; }
      case UF: { unsigned k = 0; for (; k < x.na && k < 64; k++) buf[k] = V(k); r = hashUF(x.val, buf, k); break; }
      case EQ: r = V(0) == V(1); break;
      case ULT: r = V(0) < V(1); break;
      case SLT: { u128 S = (u128)1 << (t.nodes[a[0]].w - 1); r = (V(0) ^ S) < (V(1) ^ S); break; }
      }
#undef V
      val[i] = r & M;
    }
  }
  u128 get(N n) const { return val[pos[n] - 1]; }
  u128 pick(Rng &r, uint32_t lf) {
    const LeafInfo &L = t.leaves[lf]; u128 M = maskOf(L.w);
    unsigned k = r.below(100);
    if (L.w == 1) return r.next() & 1;
    auto ip = pools.find(lf);
    if (k < 25 && ip != pools.end() && !ip->second.empty()) { u128 v = ip->second[r.below(ip->second.size())]; if (r.below(6) == 0) v += r.below(3) - 1; return v & M; }
    if (k < 40 && !L.pool.empty()) return L.pool[r.below(L.pool.size())];
    if (k < 55) { // copy another leaf of the same width
      uint32_t o = leafIds[r.below(leafIds.size())]; if (t.leaves[o].w == L.w) return leafVal[o]; }
    if (k < 65) { static const int sp[] = {0, 1, 2, 3, -1, -2}; return (u128)(__int128)sp[r.below(6)] & M; }
    if (k < 70) return ((u128)1 << (L.w - 1)) & M;
    if (k < 74) return M >> 1;
    if (k < 80) { auto iw = wpool.find(L.w); if (iw != wpool.end()) return iw->second[r.below(iw->second.size())]; }
    if (k < 85) return ((u128)1 << r.below(L.w)) & M;
    if (k < 90) return r.below(4) & M;
    return (((u128)r.next() << 64) | r.next()) & M;
  }
  void randomise(Rng &r, bool keepSome) { for (uint32_t l : leafIds) if (!keepSome || r.below(3) == 0) leafVal[l] = pick(r, l); }
  // -------------------------------------------------- directed valuation
  struct Pinned { std::unordered_map<uint32_t, u128> m; } pin; // leaf -> pinned bit mask
  int fuel = 0;
  bool setLeafBits(uint32_t l, u128 mask, u128 v) {
    u128 &pm = pin.m[l]; u128 conf = pm & mask & (leafVal[l] ^ v);
    if (conf) return false;
    leafVal[l] = (leafVal[l] & ~mask) | (v & mask); pm |= mask; return true;
  }
  u128 evalNow(N n, int d = 0) { // evaluates with current leaves, recursively (memo per call batch)
    auto it = memo.find(n); if (it != memo.end()) return it->second;
    const Node &x = t.nodes[n]; u128 M = maskOf(x.w), r = 0; const N *a = x.na ? &t.arena[x.off] : nullptr;
    switch (x.op) {
    case CONST: return x.val;
    case LEAF: return leafVal[(uint32_t)x.val] & M;
    case PTR: return ((u128)(x.val + 1) << 33) & (M >> 1);
    case BDD: case ITE: case RAWITE: r = evalNow(a[0]) ? evalNow(t.arena[x.off + 1]) : evalNow(t.arena[x.off + 2]); break;
    default: {
      std::vector<u128> v(x.na); for (unsigned i = 0; i < x.na; i++) v[i] = evalNow(t.arena[x.off + i]);
      switch (x.op) {
      case SUM: r = v[x.na - 1]; for (unsigned k = 0; k + 1 < x.na; k += 2) r += v[k] * v[k + 1]; break;
      case MUL: r = v[0] * v[1]; break;
      case UDIV: case SDIV: case UREM: case SREM: r = Terms::evalDiv(x.op, x.w, v[0], v[1]); break;
      case AND: r = v[0] & v[1]; break;
      case OR: r = v[0] | v[1]; break;
      case XOR: r = v[0] ^ v[1]; break;
      case SHL: r = v[1] >= x.w ? 0 : v[0] << (unsigned)v[1]; break;
      case LSHR: r = v[1] >= x.w ? 0 : v[0] >> (unsigned)v[1]; break;
      case ASHR: r = (u128)(((__int128)Terms::sx(v[0], x.w)) >> (v[1] >= x.w ? x.w - 1 : (unsigned)v[1])); break;
      case EXTRACT: r = v[0] >> (unsigned)x.val; break;
      case CONCAT: { unsigned p = 0; for (unsigned k = 0; k < x.na; k++) { r |= v[k] << p; p += t.nodes[t.arena[x.off + k]].w; } break; }
      case UF: r = hashUF(x.val, v.data(), x.na); break;
      case EQ: r = v[0] == v[1]; break;
      case ULT: r = v[0] < v[1]; break;
      case SLT: { u128 S = (u128)1 << (t.nodes[t.arena[x.off]].w - 1); r = (v[0] ^ S) < (v[1] ^ S); break; }
      default: break;
      } }
    }
    r &= M; memo[n] = r; return r;
  }
  std::unordered_map<N, u128> memo;
  void dirty() { memo.clear(); }
  bool force(Rng &r, N n, u128 mask, u128 v) { // make (n & mask) == (v & mask)
    const Node x = t.nodes[n]; mask &= maskOf(x.w); v &= mask; if (!mask) return true;
    if (--fuel < 0) return false;
    switch (x.op) {
    case CONST: return (x.val & mask) == v;
    case LEAF: { bool ok = setLeafBits((uint32_t)x.val, mask, v); dirty(); return ok; }
    case BDD: return justify(r, n, v & 1);
    case EXTRACT: return force(r, t.arg(n, 0), mask << (unsigned)x.val, v << (unsigned)x.val);
    case CONCAT: { unsigned p = 0; bool ok = true; for (unsigned i = 0; i < x.na; i++) { N a = t.arg(n, i); ok &= force(r, a, (mask >> p) & maskOf(t.W(a)), (v >> p)); p += t.W(a); } return ok; }
    case ITE: { bool cur = evalNow(t.arg(n, 0)) & 1; bool side = r.below(4) ? cur : !cur; if (t.isC(t.arg(n, side ? 1 : 2)) && (t.cv(t.arg(n, side ? 1 : 2)) & mask) != v) side = !side; if (!justify(r, t.arg(n, 0), side)) return false; return force(r, t.arg(n, side ? 1 : 2), mask, v); }
    case SUM: {
      unsigned nt = (x.na - 1) / 2; unsigned k = r.below(nt); u128 cf = t.cv(t.arg(n, 2 * k + 1)); if (!(cf & 1)) { for (k = 0; k < nt; k++) { cf = t.cv(t.arg(n, 2 * k + 1)); if (cf & 1) break; } if (k == nt) return false; }
      u128 rest = (evalNow(n) - evalNow(t.arg(n, 2 * k)) * cf); u128 want = (evalNow(n) & ~mask) | v; u128 inv = 1; for (int i = 0; i < 7; i++) inv *= 2 - cf * inv; u128 tv = ((want - rest) * inv) & maskOf(x.w);
      return force(r, t.arg(n, 2 * k), mask == maskOf(x.w) ? maskOf(x.w) : maskOf(bitlen(mask)), tv); }
    case XOR: { unsigned k = r.below(2); u128 o = evalNow(t.arg(n, 1 - k)); return force(r, t.arg(n, k), mask, v ^ o); }
    case AND: { u128 ones = v & mask, zeros = ~v & mask; if (!force(r, t.arg(n, 0), ones, ones) || !force(r, t.arg(n, 1), ones, ones)) return false; unsigned k = r.below(2); u128 o = evalNow(t.arg(n, 1 - k)); return force(r, t.arg(n, k), zeros & o, 0); }
    case OR: { u128 ones = v & mask, zeros = ~v & mask; if (!force(r, t.arg(n, 0), zeros, 0) || !force(r, t.arg(n, 1), zeros, 0)) return false; unsigned k = r.below(2); u128 o = evalNow(t.arg(n, 1 - k)); return force(r, t.arg(n, k), ones & ~o, ones); }
    case SHL: { unsigned s = (unsigned)std::min<u128>(evalNow(t.arg(n, 1)), 127); return force(r, t.arg(n, 0), mask >> s, v >> s); }
    case LSHR: { unsigned s = (unsigned)std::min<u128>(evalNow(t.arg(n, 1)), 127); return force(r, t.arg(n, 0), (mask << s) & maskOf(x.w), v << s); }
    default: return (evalNow(n) & mask) == v;
    }
  }
  bool setAtom(Rng &r, N a, bool v) {
    const Node x = t.nodes[a];
    if (--fuel < 0) return false;
    if (evalNow(a) == (u128)v && r.below(8)) { // already so; pin cheaply for simple atoms
      if (x.op == LEAF) { setLeafBits((uint32_t)x.val, 1, v); return true; }
      if (x.op == EXTRACT) return force(r, a, 1, v);
      if (x.op == EQ && v && t.isC(t.arg(a, 1))) return force(r, t.arg(a, 0), maskOf(t.W(t.arg(a, 0))), t.cv(t.arg(a, 1)));
      return true;
    }
    switch (x.op) {
    case LEAF: case EXTRACT: return force(r, a, 1, v);
    case RAWITE: case ITE: { bool cur = evalNow(t.arg(a, 0)) & 1; bool side = r.below(2) ? cur : !cur; if (!justify(r, t.arg(a, 0), side)) return false; return justify(r, t.arg(a, side ? 1 : 2), v); }
    case EQ: {
      N p = t.arg(a, 0), q = t.arg(a, 1); u128 M = maskOf(t.W(p));
      if (v) { if (r.below(2) || t.isC(q)) { if (force(r, p, M, evalNow(q))) return true; return !t.isC(q) && force(r, q, M, evalNow(p)); } if (force(r, q, M, evalNow(p))) return true; return force(r, p, M, evalNow(q)); }
      u128 nv = evalNow(q) ^ ((u128)1 << r.below(t.W(p))); if (force(r, p, M, nv)) return true; return !t.isC(q) && force(r, q, M, evalNow(p) + 1 + r.below(3)); }
    case ULT: case SLT: {
      N p = t.arg(a, 0), q = t.arg(a, 1); unsigned w = t.W(p); u128 M = maskOf(w), S = x.op == SLT ? (u128)1 << (w - 1) : 0;
      for (int tr = 0; tr < 4; tr++) {
        bool first = r.below(2) || t.isC(q);
        if (first) { u128 qv = evalNow(q) ^ S; u128 nv; if (v) { if (qv == 0) continue; nv = r.below(2) ? qv - 1 : (((u128)r.next() << 64) | r.next()) % qv; } else { u128 sp = M - qv; nv = r.below(2) || sp == M ? qv : qv + (((u128)r.next() << 64) | r.next()) % (sp + 1); } if (force(r, p, M, nv ^ S)) return true; }
        else { u128 pv = evalNow(p) ^ S; u128 nv; if (v) { if (pv == M) continue; nv = r.below(2) ? pv + 1 : pv + 1 + (((u128)r.next() << 64) | r.next()) % (M - pv); } else { nv = r.below(2) ? pv : (((u128)r.next() << 64) | r.next()) % (pv + 1); } if (force(r, q, M, nv ^ S)) return true; }
      }
      return false; }
    default: return evalNow(a) == (u128)v;
    }
  }
  // choose a path through the diagram to the wanted terminal and make its atoms so
  bool justify(Rng &r, N b, bool v) {
    int guardn = 0;
    while (!t.isC(b)) {
      if (t.nodes[b].op != BDD) return setAtom(r, b, v);
      if (--fuel < 0 || ++guardn > 3000) return false;
      N h = t.bHi(b), l = t.bLo(b), bad = v ? t.F : t.T;
      bool cur = evalNow(t.bAtom(b)) & 1; bool side;
      if (h == bad) side = false; else if (l == bad) side = true; else side = r.below(10) < 8 ? cur : !cur;
      bool ok = setAtom(r, t.bAtom(b), side);
      if (!ok) { if ((side ? l : h) == bad) return false; side = !side; ok = setAtom(r, t.bAtom(b), side); if (!ok) return false; }
      b = side ? h : l;
    }
    return (t.cv(b) & 1) == (u128)v;
  }
  bool directed(Rng &r, N goal) { pin.m.clear(); dirty(); fuel = 4000; bool ok = justify(r, goal, true); dirty(); return ok; }
};

// Full decision-diagram normal form of word-level terms: selects are hoisted to
// the top in atom order, terminals contain no select.
struct Diagram {
  Terms &t; long budget; double stop = 1e18;
  void tick() { if (--budget < 0 || ((budget & 1023) == 0 && wallNow() > stop)) throw TermLimit("diagram"); }
  std::unordered_map<N, N> memo;
  std::map<std::tuple<int, std::vector<N>>, N> apMemo;
  Diagram(Terms &tt, long b) : t(tt), budget(b) {}
  // diagram node = RAWITE(atomBDD, hi, lo) with val 2, or a select-free term
  bool isD(N x) const { return t[x].op == RAWITE && t[x].val == 2; }
  N mk(N a, N hi, N lo) { // drop implied
    if (hi == lo) return hi; N ar[3] = {a, hi, lo}; tick(); return t.intern(RAWITE, t.W(hi), 2, ar, 3); }
  N top(N x) const { if (isD(x)) return t.arg(x, 0); if (t[x].op == BDD) return t.bAtom(x); return NONE; }
  N cof(N x, N a, bool v) const { if (isD(x)) return t.arg(x, 0) == a ? t.arg(x, v ? 1 : 2) : x; if (t[x].op == BDD) return t.bAtom(x) == a ? (v ? t.bHi(x) : t.bLo(x)) : x; return x; }
  N dropI(N a, bool v, N ch) {
    while (true) { N b = top(ch); if (b == NONE) return ch; if (t.atomKey[b].group != t.atomKey[a].group) return ch; int r = t.implied(a, v, b); if (r < 0) return ch; ch = cof(ch, b, r); }
  }
  template <class F> N apply(int id, std::vector<N> as, F f) {
    if (id == -1 && t.isC(as[0])) return as[0] == t.T ? as[1] : as[2];
    N a = NONE; for (N x : as) { N b = top(x); if (b != NONE && (a == NONE || t.atomLess(b, a))) a = b; }
    if (a == NONE) return f(as);
    auto key = std::make_tuple(id, as); auto it = apMemo.find(key); if (it != apMemo.end()) return it->second;
    tick();
    std::vector<N> h, l; for (N x : as) { h.push_back(cof(x, a, true)); l.push_back(cof(x, a, false)); }
    N rh = apply(id, h, f), rl = apply(id, l, f);
    rh = dropI(a, true, rh); rl = dropI(a, false, rl);
    N r = (t.W(rh) == 1 && !isD(rh) && !isD(rl)) ? t.mkBdd(a, rh, rl) : mk(a, rh, rl);
    apMemo[key] = r; return r;
  }
  int nextId = 1; std::unordered_map<N, int> opId;
  N norm(N x) {
    const Node nx = t[x];
    if (nx.op == CONST || nx.op == LEAF || nx.op == PTR) return x;
    auto it = memo.find(x); if (it != memo.end()) return it->second;
    tick();
    N r;
    if (nx.op == BDD) {
      // atoms may contain selects: rebuild
      N h = norm(t.bHi(x)), l = norm(t.bLo(x)), a = normAtom(t.bAtom(x));
      r = t.bIte(a, h, l);
    } else if (nx.op == ITE) {
      N c = norm(t.arg(x, 0)), a = norm(t.arg(x, 1)), b = norm(t.arg(x, 2));
      r = apply(-1, {c, a, b}, [&](std::vector<N> &v) { return v[0] == t.T ? v[1] : v[2]; });
      // apply() only reaches terminals when c is constant; cut early when possible is left to memo
    } else {
      std::vector<N> as; bool any = false; for (unsigned i = 0; i < nx.na; i++) { N y = norm(t.arg(x, i)); any |= y != t.arg(x, i) || top(y) != NONE; as.push_back(y); }
      if (!any) r = x;
      else { N key = x; r = apply(1000 + (int)key, as, [&](std::vector<N> &v) { return t.rebuild(nx, v); }); }
    }
    memo[x] = r; return r;
  }
  N normAtom(N a) {
    const Node na = t[a];
    if (na.op == LEAF || na.op == UF) { return t.atom(a); }
    if (na.op == RAWITE) return t.bIte(norm(t.arg(a, 0)), norm(t.arg(a, 1)), norm(t.arg(a, 2)));
    std::vector<N> as; bool any = false; for (unsigned i = 0; i < na.na; i++) { N y = norm(t.arg(a, i)); any |= y != t.arg(a, i) || top(y) != NONE; as.push_back(y); }
    if (!any) return t.atom(a);
    if (na.op == EXTRACT) return apply(1000 + (int)a, as, [&](std::vector<N> &v) { return t.mkExtract(v[0], (unsigned)na.val, 1); });
    return apply(1000 + (int)a, as, [&](std::vector<N> &v) { return t.rebuild(na, v); });
  }
};
