// Hash-consed value graph with normalisation (value numbering) and ordered
// decision diagrams for one-bit values.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>

typedef uint32_t N;
typedef unsigned __int128 u128;
static const N NONE = 0xffffffffu;

enum Op : uint8_t {
  CONST, LEAF, BDD, SUM, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR,
  SHL, LSHR, ASHR, EXTRACT, CONCAT, ITE, UF, PTR,
  // one-bit atoms (wrapped in BDD nodes)
  EQ, ULT, SLT, RAWITE
};
static inline const char *opName(Op o) {
  static const char *n[] = {"const", "leaf", "bdd", "sum", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "extract", "concat", "ite", "uf", "ptr", "eq", "ult", "slt", "rawite"};
  return n[o];
}
static inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline unsigned bitlen(u128 v) {
  uint64_t h = (uint64_t)(v >> 64), l = (uint64_t)v;
  if (h) return 128 - __builtin_clzll(h);
  if (l) return 64 - __builtin_clzll(l);
  return 0;
}
static inline unsigned ctz128(u128 v) {
  uint64_t l = (uint64_t)v;
  if (l) return __builtin_ctzll(l);
  uint64_t h = (uint64_t)(v >> 64);
  return h ? 64 + __builtin_ctzll(h) : 128;
}
static inline std::string hex(u128 v) {
  char b[64];
  if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v);
  else snprintf(b, sizeof b, "0x%llx", (unsigned long long)v);
  return b;
}

struct Node {
  Op op;
  uint16_t w;
  uint32_t na;
  uint32_t off;   // into arg arena
  u128 val;       // CONST value / LEAF index / UF name index / EXTRACT lo / PTR object
  u128 k0, k1;    // known zero / known one bits
  u128 lo, hi;    // unsigned range
};

struct TermLimit : std::runtime_error { TermLimit(const char *s) : std::runtime_error(s) {} };

struct LeafInfo {
  std::string name;
  unsigned w;
  int kind; // 0 input, 1 uninitialised, 2 havoc (external)
  std::vector<u128> pool; // preferred values
};

struct Terms {
  std::vector<Node> nodes;
  std::vector<N> arena;
  std::vector<LeafInfo> leaves;
  std::vector<N> leafNode;
  std::vector<std::string> ufNames;
  std::unordered_map<std::string, uint32_t> ufIdx, leafIdx;
  std::unordered_multimap<uint64_t, N> table;
  struct K3 { N a, b, c; bool operator==(const K3 &o) const { return a == o.a && b == o.b && c == o.c; } };
  struct K3H { size_t operator()(const K3 &k) const { uint64_t h = k.a * 0x9E3779B97F4A7C15ull; h ^= (h >> 29) + k.b * 0xBF58476D1CE4E5B9ull; h ^= (h >> 31) + k.c * 0x94D049BB133111EBull; return h ^ (h >> 32); } };
  std::unordered_map<K3, N, K3H> iteCache, restrictCache, extractCache;
  std::unordered_map<K3, N, K3H> opCache; // EQ / ULT / SLT
  std::unordered_map<N, N> notCache;
  struct AtomKey { uint64_t group, sub; };
  std::unordered_map<N, AtomKey> atomKey;
  std::unordered_map<N, uint64_t> groupOf;
  uint64_t nextGroup = 1;
  std::unordered_map<N, int> treeFail;
  N T, F;
  long bddSteps = 0, bddLimit = 60000;
  long limitHits = 0;
  uint64_t cap = 40000000;

  Terms() { nodes.reserve(1 << 20); F = mkC(1, 0); T = mkC(1, 1); }

  const Node &operator[](N n) const { return nodes[n]; }
  unsigned W(N n) const { return nodes[n].w; }
  N arg(N n, unsigned i) const { return arena[nodes[n].off + i]; }
  bool isC(N n) const { return nodes[n].op == CONST; }
  u128 cv(N n) const { return nodes[n].val; }
  bool isC(N n, u128 v) const { return nodes[n].op == CONST && nodes[n].val == v; }

  uint64_t hashOf(Op op, unsigned w, u128 val, const N *a, unsigned n) {
    uint64_t h = op * 1000003ull + w * 7919ull;
    h ^= (uint64_t)val * 0x9E3779B97F4A7C15ull; h = (h << 17) | (h >> 47);
    h ^= (uint64_t)(val >> 64) * 0xBF58476D1CE4E5B9ull;
    for (unsigned i = 0; i < n; i++) { h = (h << 13) | (h >> 51); h = (h ^ a[i]) * 0x94D049BB133111EBull; }
    return h ^ (h >> 31);
  }
  N intern(Op op, unsigned w, u128 val, const N *a, unsigned n) {
    uint64_t h = hashOf(op, w, val, a, n);
    auto r = table.equal_range(h);
    for (auto i = r.first; i != r.second; ++i) {
      const Node &x = nodes[i->second];
      if (x.op == op && x.w == w && x.val == val && x.na == n && (n == 0 || memcmp(&arena[x.off], a, n * sizeof(N)) == 0)) return i->second;
    }
    if (nodes.size() > cap) throw TermLimit("term table full");
    Node x; x.op = op; x.w = w; x.val = val; x.na = n; x.off = arena.size();
    for (unsigned i = 0; i < n; i++) arena.push_back(a[i]);
    x.k0 = x.k1 = 0; x.lo = 0; x.hi = maskOf(w);
    N id = nodes.size(); nodes.push_back(x);
    computeInfo(id);
    table.emplace(h, id);
    return id;
  }
  N mk(Op op, unsigned w, std::initializer_list<N> a, u128 val = 0) { return intern(op, w, val, a.begin(), a.size()); }
  N mkC(unsigned w, u128 v) { v &= maskOf(w); return intern(CONST, w, v, nullptr, 0); }
  N leaf(const std::string &name, unsigned w, int kind = 0) {
    auto it = leafIdx.find(name);
    if (it != leafIdx.end()) { assert(leaves[it->second].w == w); return leafNode[it->second]; }
    uint32_t i = leaves.size(); leaves.push_back({name, w, kind, {}}); leafIdx[name] = i;
    N n = intern(LEAF, w, i, nullptr, 0);
    if (w == 1) n = atom(n);
    leafNode.push_back(n);
    return n;
  }
  N uf(const std::string &name, unsigned w, const std::vector<N> &args) {
    auto it = ufIdx.find(name); uint32_t i;
    if (it == ufIdx.end()) { i = ufNames.size(); ufNames.push_back(name); ufIdx[name] = i; } else i = it->second;
    N n = intern(UF, w, i, args.data(), args.size());
    if (w == 1) n = atom(n);
    return n;
  }
  N ptrObj(uint32_t obj) { return intern(PTR, 64, obj, nullptr, 0); }

  void computeInfo(N id) {
    Node &x = nodes[id]; u128 M = maskOf(x.w);
    switch (x.op) {
    case CONST: x.k1 = x.val; x.k0 = ~x.val & M; x.lo = x.hi = x.val; return;
    case CONCAT: {
      unsigned p = 0; u128 lo = 0, hi = 0;
      for (unsigned i = 0; i < x.na; i++) { const Node &a = nodes[arena[x.off + i]]; x.k0 |= (a.k0 & maskOf(a.w)) << p; x.k1 |= a.k1 << p; lo |= a.lo << p; hi |= a.hi << p; p += a.w; }
      x.lo = lo; x.hi = hi; break; }
    case ITE: case RAWITE: {
      if (x.w == 1) break;
      const Node &a = nodes[arena[x.off + 1]], &b = nodes[arena[x.off + 2]];
      x.k0 = a.k0 & b.k0; x.k1 = a.k1 & b.k1; x.lo = std::min(a.lo, b.lo); x.hi = std::max(a.hi, b.hi); break; }
    case AND: { const Node &a = nodes[arena[x.off]], &b = nodes[arena[x.off + 1]]; x.k0 = a.k0 | b.k0; x.k1 = a.k1 & b.k1; x.hi = std::min(a.hi, b.hi); break; }
    case OR: { const Node &a = nodes[arena[x.off]], &b = nodes[arena[x.off + 1]]; x.k0 = a.k0 & b.k0; x.k1 = a.k1 | b.k1; x.lo = std::max(a.lo, b.lo); break; }
    case XOR: { const Node &a = nodes[arena[x.off]], &b = nodes[arena[x.off + 1]]; u128 kn = (a.k0 | a.k1) & (b.k0 | b.k1); u128 v = a.k1 ^ b.k1; x.k1 = kn & v; x.k0 = kn & ~v; break; }
    case EXTRACT: { const Node &a = nodes[arena[x.off]]; unsigned l = (unsigned)x.val; x.k0 = (a.k0 >> l) & M; x.k1 = (a.k1 >> l) & M; if (l + x.w == a.w || (a.hi >> l) <= M) { x.lo = a.lo >> l; x.hi = a.hi >> l; if ((a.hi >> l) > M) { x.lo = 0; x.hi = M; } } break; }
    case SUM: {
      // args: t1,c1,t2,c2,...,const
      u128 c0 = nodes[arena[x.off + x.na - 1]].val; bool ok = true; u128 lo = c0, hi = c0; unsigned tz = 128;
      // treat a constant near the top of the range as negative
      bool negc = x.w >= 2 && (c0 >> (x.w - 1)); u128 neg = negc ? ((~c0 + 1) & M) : 0; if (negc) lo = hi = 0;
      for (unsigned i = 0; i + 1 < x.na; i += 2) {
        const Node &t = nodes[arena[x.off + i]]; u128 c = nodes[arena[x.off + i + 1]].val;
        u128 tzt = std::min<unsigned>(128, ctz128(~t.k0 & maskOf(t.w)) + ctz128(c)); tz = std::min<unsigned>(tz, tzt);
        if (bitlen(t.hi) + bitlen(c) > 120) { ok = false; continue; }
        hi += t.hi * c; lo += t.lo * c;
        if (hi > M) ok = false;
      }
      if (ok && negc) { if (lo >= neg) { lo -= neg; hi -= neg; } else ok = false; }
      if (ok && hi <= M) { x.lo = lo; x.hi = hi; }
      unsigned kt = std::min<unsigned>(tz, x.w);
      if (kt) { u128 m = maskOf(kt); x.k1 |= c0 & m; x.k0 |= ~c0 & m; }
      break; }
    case MUL: { const Node &a = nodes[arena[x.off]], &b = nodes[arena[x.off + 1]]; if (bitlen(a.hi) + bitlen(b.hi) <= x.w) { x.hi = a.hi * b.hi; x.lo = a.lo * b.lo; } break; }
    case UDIV: { const Node &a = nodes[arena[x.off]], &b = nodes[arena[x.off + 1]]; if (b.lo) { x.hi = a.hi / b.lo; x.lo = b.hi ? a.lo / b.hi : 0; } break; }
    case UREM: { const Node &a = nodes[arena[x.off]], &b = nodes[arena[x.off + 1]]; if (b.lo) { x.hi = std::min(a.hi, b.hi - 1); } break; }
    case LSHR: { const Node &a = nodes[arena[x.off]], &b = nodes[arena[x.off + 1]]; x.hi = b.lo >= 128 ? 0 : a.hi >> (unsigned)b.lo; break; }
    case PTR: x.lo = 4096; x.hi = M >> 8; break;
    default: break;
    }
    // reconcile
    if (x.w > 1) {
      unsigned bl = bitlen(x.hi); x.k0 |= M & ~maskOf(bl);
      u128 minv = x.k1, maxv = M & ~x.k0; if (x.lo < minv) x.lo = minv; if (x.hi > maxv) x.hi = maxv;
    }
  }

  // ------------------------------------------------------------ BDD
  N atom(N a) { // wraps a one-bit non-BDD node
    if (isC(a) || nodes[a].op == BDD) return a;
    if (!atomKey.count(a)) {
      const Node &x = nodes[a]; N g = a; uint64_t sub = 0;
      if ((x.op == EQ || x.op == ULT || x.op == SLT) && isC(arg(a, 1))) { g = arg(a, 0); sub = 1; }
      else if (x.op == EXTRACT) { g = arg(a, 0); sub = 1; }
      auto it = groupOf.find(g); uint64_t grp;
      if (it == groupOf.end()) { grp = nextGroup++; groupOf[g] = grp; } else grp = it->second;
      atomKey[a] = {grp, sub ? (uint64_t)a : 0};
    }
    N ar[3] = {a, T, F};
    return intern(BDD, 1, 0, ar, 3);
  }
  bool atomLess(N a, N b) const {
    if (a == b) return false;
    auto &x = atomKey.at(a); auto &y = atomKey.at(b);
    if (x.group != y.group) return x.group < y.group;
    return x.sub < y.sub;
  }
  // value of same-group atom b implied by atom a having value v: 0/1 or -1
  int implied(N a, bool v, N b) const {
    const Node &x = nodes[a], &y = nodes[b];
    if (x.op == EXTRACT || y.op == EXTRACT) {
      if (x.op == EQ && v && isC(arg(a, 1)) && y.op == EXTRACT && arg(a, 0) == arg(b, 0)) return (int)((cv(arg(a, 1)) >> (unsigned)y.val) & 1);
      return -1;
    }
    if (x.na != 2 || y.na != 2 || arg(a, 0) != arg(b, 0) || !isC(arg(a, 1)) || !isC(arg(b, 1))) return -1;
    u128 ca = cv(arg(a, 1)), cb = cv(arg(b, 1));
    unsigned w = W(arg(a, 0)); u128 sgn = (u128)1 << (w - 1);
    if (x.op == EQ && v) {
      if (y.op == EQ) return ca == cb;
      if (y.op == ULT) return ca < cb;
      if (y.op == SLT) return (ca ^ sgn) < (cb ^ sgn);
    }
    if (x.op == ULT && y.op == ULT) { if (v && ca <= cb) return 1; if (!v && ca >= cb) return 0; }
    if (x.op == SLT && y.op == SLT) { if (v && (ca ^ sgn) <= (cb ^ sgn)) return 1; if (!v && (ca ^ sgn) >= (cb ^ sgn)) return 0; }
    if (x.op == ULT && y.op == EQ) { if (v && cb >= ca) return 0; if (!v && cb < ca) return 0; }
    if (x.op == SLT && y.op == EQ) { if (v && (cb ^ sgn) >= (ca ^ sgn)) return 0; if (!v && (cb ^ sgn) < (ca ^ sgn)) return 0; }
    return -1;
  }
  N bAtom(N b) const { return arg(b, 0); }
  N bHi(N b) const { return arg(b, 1); }
  N bLo(N b) const { return arg(b, 2); }
  N dropImplied(N a, bool v, N ch) {
    while (nodes[ch].op == BDD) {
      N b = bAtom(ch);
      if (atomKey[b].group != atomKey[a].group) break;
      int r = implied(a, v, b);
      if (r < 0) break;
      ch = r ? bHi(ch) : bLo(ch);
    }
    return ch;
  }
  N mkBdd(N a, N hi, N lo) {
    hi = dropImplied(a, true, hi); lo = dropImplied(a, false, lo);
    if (hi == lo) return hi;
    N ar[3] = {a, hi, lo};
    return intern(BDD, 1, 0, ar, 3);
  }
  N iteRec(N f, N g, N h) {
    if (f == T) return g;
    if (f == F) return h;
    if (g == h) return g;
    if (g == T && h == F) return f;
    if (g == f) g = T;
    if (h == f) h = F;
    if (g == T && h == F) return f;
    if (g == h) return g;
    K3 k{f, g, h};
    auto it = iteCache.find(k);
    if (it != iteCache.end()) return it->second;
    if (++bddSteps > bddLimit) throw TermLimit("bdd");
    N a = bAtom(f);
    if (nodes[g].op == BDD && atomLess(bAtom(g), a)) a = bAtom(g);
    if (nodes[h].op == BDD && atomLess(bAtom(h), a)) a = bAtom(h);
    auto hiOf = [&](N x) { return nodes[x].op == BDD && bAtom(x) == a ? bHi(x) : x; };
    auto loOf = [&](N x) { return nodes[x].op == BDD && bAtom(x) == a ? bLo(x) : x; };
    N r1 = iteRec(hiOf(f), hiOf(g), hiOf(h));
    N r0 = iteRec(loOf(f), loOf(g), loOf(h));
    N r = mkBdd(a, r1, r0);
    iteCache[k] = r;
    return r;
  }
  bool depthOK = true;
  N bIte(N f, N g, N h) {
    if (f == T) return g;
    if (f == F) return h;
    if (g == h) return g;
    bddSteps = 0;
    try { return iteRec(f, g, h); } catch (TermLimit &e) {
      if (nodes.size() > cap) throw;
      limitHits++;
      N ar[3] = {f, g, h};
      N raw = intern(RAWITE, 1, 0, ar, 3);
      N r = atom(raw);
      iteCache[K3{f, g, h}] = r;
      return r;
    }
  }
  N bNot(N f) {
    if (f == T) return F;
    if (f == F) return T;
    auto it = notCache.find(f); if (it != notCache.end()) return it->second;
    N r = bNotRec(f); notCache[r] = f; return r;
  }
  N bNotRec(N f) {
    if (f == T) return F;
    if (f == F) return T;
    auto it = notCache.find(f); if (it != notCache.end()) return it->second;
    N a = bAtom(f), h = bHi(f), l = bLo(f);
    N nh = bNotRec(h), nl = bNotRec(l);
    N r = mkBdd(a, nh, nl);
    notCache[f] = r; return r;
  }
  N bAnd(N a, N b) { if (a > b) std::swap(a, b); return bIte(a, b, F); }
  N bOr(N a, N b) { if (a > b) std::swap(a, b); return bIte(a, T, b); }
  N bXor(N a, N b) { if (a > b) std::swap(a, b); return bIte(a, bNot(b), b); }
  N bImplies(N a, N b) { return bIte(a, b, T); }
  // Coudert-Madre restrict: any function equal to f on care set c
  N restrictRec(N f, N c) {
    if (isC(f) || c == T) return f;
    if (c == F) return f;
    if (f == c) return T;
    K3 k{f, c, 0};
    auto it = restrictCache.find(k); if (it != restrictCache.end()) return it->second;
    if (++bddSteps > bddLimit) throw TermLimit("restrict");
    N r; N af = bAtom(f), ac = bAtom(c);
    if (atomLess(ac, af)) { N h = bHi(c), l = bLo(c); if (h == F) r = restrictRec(f, dropC(ac, false, l)); else if (l == F) r = restrictRec(f, h); else r = restrictRec(f, iteRec(h, T, l)); }
    else {
      N fh = bHi(f), fl = bLo(f);
      N ch = c, cl = c; if (ac == af) { ch = bHi(c); cl = bLo(c); }
      if (ch == F) r = restrictRec(fl, cl);
      else if (cl == F) r = restrictRec(fh, ch);
      else { N a = restrictRec(fh, ch), b = restrictRec(fl, cl); r = mkBdd(af, a, b); }
    }
    restrictCache[k] = r; return r;
  }
  N dropC(N, bool, N l) { return l; }
  N restrict(N f, N c) {
    if (isC(f) || c == T || c == F) return f;
    bddSteps = 0;
    try { return restrictRec(f, c); } catch (TermLimit &e) { if (nodes.size() > cap) throw; limitHits++; restrictCache[K3{f, c, 0}] = f; return f; }
  }
  // decide f under care c: 1, 0 or -1
  int decide(N f, N c) {
    if (f == T) return 1;
    if (f == F) return 0;
    N r = restrict(f, c);
    if (r == T) return 1;
    if (r == F) return 0;
    if (bAnd(f, c) == F) return 0;
    if (bAnd(bNot(f), c) == F) return 1;
    return -1;
  }

  // ------------------------------------------------------------ words
  N zero(unsigned w) { return mkC(w, 0); }
  N mkExtract(N x, unsigned lo, unsigned w) {
    const Node nx = nodes[x];
    assert(lo + w <= nx.w);
    if (lo == 0 && w == nx.w) return x;
    if (nx.op == CONST) return mkC(w, nx.val >> lo);
    u128 m = maskOf(w);
    u128 kn = ((nx.k0 | nx.k1) >> lo) & m;
    if (kn == m) return mkC(w, nx.k1 >> lo);
    K3 key{x, lo, w};
    auto it = extractCache.find(key); if (it != extractCache.end()) return it->second;
    N r = NONE;
    switch (nx.op) {
    case EXTRACT: r = mkExtract(arg(x, 0), (unsigned)nx.val + lo, w); break;
    case CONCAT: {
      std::vector<N> parts; unsigned p = 0;
      for (unsigned i = 0; i < nx.na; i++) { N a = arg(x, i); unsigned aw = W(a); unsigned s = std::max(lo, p), e = std::min(lo + w, p + aw); if (s < e) parts.push_back(mkExtract(a, s - p, e - s)); p += aw; }
      r = mkConcat(parts); break; }
    case ITE: { N c = arg(x, 0), a = arg(x, 1), b = arg(x, 2); r = mkIte(c, mkExtract(a, lo, w), mkExtract(b, lo, w)); break; }
    case AND: { N a = arg(x, 0), b = arg(x, 1); r = mkAnd(mkExtract(a, lo, w), mkExtract(b, lo, w)); break; }
    case OR: { N a = arg(x, 0), b = arg(x, 1); r = mkOr(mkExtract(a, lo, w), mkExtract(b, lo, w)); break; }
    case XOR: { N a = arg(x, 0), b = arg(x, 1); r = mkXor(mkExtract(a, lo, w), mkExtract(b, lo, w)); break; }
    case SUM: if (lo == 0) {
        std::vector<std::pair<N, u128>> t; std::vector<N> as(arena.begin() + nx.off, arena.begin() + nx.off + nx.na);
        for (unsigned i = 0; i + 1 < nx.na; i += 2) t.push_back({mkExtract(as[i], 0, w), cv(as[i + 1])});
        r = mkSum(w, t, cv(as[nx.na - 1]));
      } else {
        // low bits below lo cannot carry if they are all zero except in one term
        unsigned hiw = lo + w; if (hiw < nx.w) { r = mkExtract(mkExtract(x, 0, hiw), lo, w); }
        else {
          std::vector<N> as(arena.begin() + nx.off, arena.begin() + nx.off + nx.na);
          int nz = 0; bool coefs1 = true; u128 lm = maskOf(lo);
          if (cv(as[nx.na - 1]) & lm) nz++;
          for (unsigned i = 0; i + 1 < nx.na; i += 2) { if (cv(as[i + 1]) != 1) { coefs1 = false; break; } if ((nodes[as[i]].k0 & lm) != lm) nz++; }
          if (coefs1 && nz <= 1) {
            std::vector<std::pair<N, u128>> t;
            for (unsigned i = 0; i + 1 < nx.na; i += 2) t.push_back({mkExtract(as[i], lo, w), 1});
            r = mkSum(w, t, cv(as[nx.na - 1]) >> lo);
          }
        }
      }
      break;
    case MUL: if (lo == 0) { N a = arg(x, 0), b = arg(x, 1); r = mkMul(mkExtract(a, 0, w), mkExtract(b, 0, w)); } else if (lo + w < nx.w) r = mkExtract(mkExtract(x, 0, lo + w), lo, w); break;
    case SHL: if (lo == 0 && isPow2(nx.w)) { N a = arg(x, 0), b = arg(x, 1); if (nodes[b].hi < w) r = mkShl(mkExtract(a, 0, w), mkExtract(b, 0, w)); } break;
    default: break;
    }
    if (r == NONE) { N ar[1] = {x}; r = intern(EXTRACT, w, lo, ar, 1); if (w == 1) r = atom(r); }
    extractCache[key] = r;
    return r;
  }
  static bool isPow2(u128 v) { return v && !(v & (v - 1)); }
  // single-bit BDD that is exactly an EXTRACT atom (positive)
  bool plainBit(N b, N &base, unsigned &pos) const {
    const Node &x = nodes[b]; if (x.op != BDD || bHi(b) != T || bLo(b) != F) return false;
    N a = bAtom(b); if (nodes[a].op != EXTRACT) return false;
    base = arg(a, 0); pos = (unsigned)nodes[a].val; return true;
  }
  N mkConcat(const std::vector<N> &in) { // LSB first
    std::vector<N> p;
    for (N x : in) { if (nodes[x].op == CONCAT) for (unsigned i = 0; i < nodes[x].na; i++) p.push_back(arg(x, i)); else p.push_back(x); }
    std::vector<N> q;
    for (N x : p) {
      while (true) {
        if (q.empty()) { q.push_back(x); break; }
        N y = q.back();
        if (isC(x) && isC(y)) { q.pop_back(); unsigned wy = W(y); x = mkC(W(x) + wy, cv(y) | (cv(x) << wy)); continue; }
        N bx, by; unsigned lx, ly; bool ex = false, ey = false;
        if (nodes[x].op == EXTRACT) { bx = arg(x, 0); lx = (unsigned)nodes[x].val; ex = true; } else if (W(x) == 1) ex = plainBit(x, bx, lx);
        if (nodes[y].op == EXTRACT) { by = arg(y, 0); ly = (unsigned)nodes[y].val; ey = true; } else if (W(y) == 1) ey = plainBit(y, by, ly);
        if (ex && ey && bx == by && lx == ly + W(y)) { q.pop_back(); unsigned nw = W(x) + W(y); x = nodes[bx].w == nw && ly == 0 ? bx : rawExtract(bx, ly, nw); if (nodes[x].op == CONCAT) { /*cannot happen*/ } continue; }
        q.push_back(x); break;
      }
    }
    if (q.size() == 1) return q[0];
    unsigned w = 0; for (N x : q) w += W(x);
    if (w > 128) throw TermLimit("concat width");
    return intern(CONCAT, w, 0, q.data(), q.size());
  }
  N rawExtract(N x, unsigned lo, unsigned w) { N ar[1] = {x}; return intern(EXTRACT, w, lo, ar, 1); }
  N mkZext(N x, unsigned w) { if (W(x) == w) return x; if (W(x) > w) return mkExtract(x, 0, w); return mkConcat({x, zero(w - W(x))}); }
  N mkSext(N x, unsigned w) {
    unsigned xw = W(x); if (xw == w) return x;
    if (isC(x)) { u128 v = cv(x); if ((v >> (xw - 1)) & 1) v |= maskOf(w) & ~maskOf(xw); return mkC(w, v); }
    N s = mkExtract(x, xw - 1, 1);
    if (s == F) return mkZext(x, w);
    // keep the sign bit inside the replicated part so that equal values normalise equally
    N rep = mkIte(s, mkC(w - xw, ~(u128)0), zero(w - xw));
    return mkConcat({x, rep});
  }
  // cut points of a node (bit positions where its parts end)
  void cuts(N x, std::vector<unsigned> &c) const { if (nodes[x].op == CONCAT) { unsigned p = 0; for (unsigned i = 0; i < nodes[x].na; i++) { p += W(arg(x, i)); c.push_back(p); } } }
  void constCuts(N x, std::vector<unsigned> &c) const { // run boundaries of a constant
    u128 v = cv(x); unsigned w = W(x); for (unsigned i = 1; i < w; i++) if (((v >> i) & 1) != ((v >> (i - 1)) & 1)) c.push_back(i);
  }
  template <class Fn> N bySlices(N a, N b, std::vector<unsigned> c, Fn f) {
    c.push_back(W(a)); std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
    std::vector<N> parts; unsigned p = 0;
    for (unsigned e : c) { if (e <= p) continue; parts.push_back(f(mkExtract(a, p, e - p), mkExtract(b, p, e - p))); p = e; }
    return mkConcat(parts);
  }
  bool constTree(N x, int depth = 6) const { // ITE tree with constant leaves
    if (isC(x)) return true;
    if (nodes[x].op != ITE || depth == 0) return false;
    return constTree(arg(x, 1), depth - 1) && constTree(arg(x, 2), depth - 1);
  }
  template <class Fn> bool distribute(N a, N b, N &r, Fn f) {
    if (nodes[a].op == ITE && nodes[b].op == ITE && arg(a, 0) == arg(b, 0)) { N c = arg(a, 0), a1 = arg(a, 1), a2 = arg(a, 2), b1 = arg(b, 1), b2 = arg(b, 2); r = mkIte(c, f(a1, b1), f(a2, b2)); return true; }
    if (nodes[a].op == ITE && isC(b) && constTree(a)) { N c = arg(a, 0), a1 = arg(a, 1), a2 = arg(a, 2); r = mkIte(c, f(a1, b), f(a2, b)); return true; }
    if (nodes[b].op == ITE && isC(a) && constTree(b)) { N c = arg(b, 0), b1 = arg(b, 1), b2 = arg(b, 2); r = mkIte(c, f(a, b1), f(a, b2)); return true; }
    return false;
  }
  N bitop(Op op, N a, N b) {
    unsigned w = W(a); assert(w == W(b));
    if (w == 1) return op == AND ? bAnd(a, b) : op == OR ? bOr(a, b) : bXor(a, b);
    u128 M = maskOf(w);
    if (isC(a)) std::swap(a, b);
    if (isC(a) && isC(b)) { u128 x = cv(a), y = cv(b); return mkC(w, op == AND ? x & y : op == OR ? x | y : x ^ y); }
    if (a == b) return op == XOR ? zero(w) : a;
    if (isC(b)) {
      u128 v = cv(b);
      if (op == AND && v == M) return a;
      if (op == AND && v == 0) return b;
      if (op == OR && v == 0) return a;
      if (op == OR && v == M) return b;
      if (op == XOR && v == 0) return a;
    }
    // same-condition select pieces that are all-ones/zero masks
    for (int s = 0; s < 2; s++) {
      N x = s ? b : a, y = s ? a : b;
      if (nodes[x].op == ITE) { N c = arg(x, 0), t = arg(x, 1), e = arg(x, 2); bool tm = isC(t) && (cv(t) == 0 || cv(t) == M), em = isC(e) && (cv(e) == 0 || cv(e) == M); if (tm && em) return mkIte(c, bitop(op, t, y), bitop(op, e, y)); }
    }
    N r; if (distribute(a, b, r, [&](N x, N y) { return bitop(op, x, y); })) return r;
    std::vector<unsigned> c; cuts(a, c); cuts(b, c);
    if (isC(b)) constCuts(b, c);
    // known-constant runs
    bool split = nodes[a].op == CONCAT || nodes[b].op == CONCAT || isC(b);
    if (split) {
      if (c.size() || true) {
        std::sort(c.begin(), c.end());
        bool any = false; for (unsigned e : c) if (e && e < w) any = true;
        if (any) return bySlices(a, b, c, [&](N x, N y) { return bitop(op, x, y); });
      }
    }
    if (op == XOR && isC(b) && cv(b) == M && nodes[a].op == XOR && isC(arg(a, 1), M)) return arg(a, 0);
    if (op == XOR) { // cancel
      if (nodes[a].op == XOR && (arg(a, 0) == b)) return arg(a, 1);
      if (nodes[a].op == XOR && (arg(a, 1) == b)) return arg(a, 0);
      if (nodes[b].op == XOR && (arg(b, 0) == a)) return arg(b, 1);
      if (nodes[b].op == XOR && (arg(b, 1) == a)) return arg(b, 0);
    }
    if (!isC(b) && a > b) std::swap(a, b);
    N ar[2] = {a, b};
    return intern(op, w, 0, ar, 2);
  }
  N mkAnd(N a, N b) { return bitop(AND, a, b); }
  N mkOr(N a, N b) { return bitop(OR, a, b); }
  N mkXor(N a, N b) { return bitop(XOR, a, b); }
  N mkNot(N a) { return W(a) == 1 ? bNot(a) : mkXor(a, mkC(W(a), ~(u128)0)); }

  N mkSum(unsigned w, std::vector<std::pair<N, u128>> t, u128 c) {
    u128 M = maskOf(w); c &= M;
    if (w == 1) { N r = mkC(1, c); for (auto &p : t) if (p.second & 1) r = bXor(r, p.first); return r; }
    std::vector<std::pair<N, u128>> q;
    std::vector<std::pair<N, u128>> work(t.rbegin(), t.rend());
    while (!work.empty()) {
      auto p = work.back(); work.pop_back(); p.second &= M; if (!p.second) continue;
      const Node x = nodes[p.first]; assert(x.w == w);
      if (x.op == CONST) { c = (c + x.val * p.second) & M; continue; }
      if (x.op == SUM) { c = (c + cv(arg(p.first, x.na - 1)) * p.second) & M; for (int i = (int)x.na - 3; i >= 0; i -= 2) work.push_back({arg(p.first, i), cv(arg(p.first, i + 1)) * p.second}); continue; }
      if (x.op == CONCAT && x.na == 2 && isC(arg(p.first, 0), 0) && false) {}
      // ~x = -x-1
      if (x.op == XOR && isC(arg(p.first, 1), M)) { work.push_back({arg(p.first, 0), ~p.second + 1}); c = (c - p.second) & M; continue; }
      q.push_back(p);
    }
    std::sort(q.begin(), q.end());
    std::vector<std::pair<N, u128>> r;
    for (auto &p : q) { if (!r.empty() && r.back().first == p.first) { r.back().second = (r.back().second + p.second) & M; if (!r.back().second) r.pop_back(); } else r.push_back(p); }
    if (r.empty()) return mkC(w, c);
    if (r.size() == 1 && r[0].second == 1 && c == 0) return r[0].first;
    if (r.size() == 1 && constTree(r[0].first)) { N x = r[0].first; u128 k = r[0].second; return mapTree(x, [&](u128 v) { return mkC(w, v * k + c); }); }
    if (r.size() == 2 && c == 0 && r[0].second == 1 && r[1].second == 1) {
      // select pieces under the same condition
      N a = r[0].first, b = r[1].first;
      if (nodes[a].op == ITE && nodes[b].op == ITE && arg(a, 0) == arg(b, 0)) { N cc = arg(a, 0), a1 = arg(a, 1), a2 = arg(a, 2), b1 = arg(b, 1), b2 = arg(b, 2); return mkIte(cc, mkAdd(a1, b1), mkAdd(a2, b2)); }
    }
    // disjoint bits: no carries -> bitwise or
    bool coef1 = true; for (auto &p : r) if (p.second != 1) coef1 = false;
    if (coef1) {
      u128 used = c; bool dis = true;
      for (auto &p : r) { u128 mb = ~nodes[p.first].k0 & M; if (used & mb) { dis = false; break; } used |= mb; }
      if (dis) { N x = mkC(w, c); for (auto &p : r) x = mkOr(x, p.first); return x; }
    }
    if (r.size() == 1 && isPow2(r[0].second) && c == 0) return mkShlC(r[0].first, ctz128(r[0].second));
    std::vector<N> a; for (auto &p : r) { a.push_back(p.first); a.push_back(mkC(w, p.second)); }
    a.push_back(mkC(w, c));
    return intern(SUM, w, 0, a.data(), a.size());
  }
  template <class Fn> N mapTree(N x, Fn f) { if (isC(x)) return f(cv(x)); N c = arg(x, 0), a = arg(x, 1), b = arg(x, 2); N ra = mapTree(a, f), rb = mapTree(b, f); return mkIte(c, ra, rb); }
  N mkAdd(N a, N b) { return mkSum(W(a), {{a, 1}, {b, 1}}, 0); }
  N mkSub(N a, N b) { return mkSum(W(a), {{a, 1}, {b, ~(u128)0}}, 0); }
  N mkNeg(N a) { return mkSum(W(a), {{a, ~(u128)0}}, 0); }
  N mkMul(N a, N b) {
    unsigned w = W(a);
    if (w == 1) return bAnd(a, b);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) return mkSum(w, {{a, cv(b)}}, 0);
    if (a > b) std::swap(a, b);
    N ar[2] = {a, b}; return intern(MUL, w, 0, ar, 2);
  }
  N mkShlC(N a, unsigned k) { unsigned w = W(a); if (k == 0) return a; if (k >= w) return zero(w); return mkConcat({zero(k), mkExtract(a, 0, w - k)}); }
  N mkLshrC(N a, unsigned k) { unsigned w = W(a); if (k == 0) return a; if (k >= w) return zero(w); return mkConcat({mkExtract(a, k, w - k), zero(k)}); }
  N mkAshrC(N a, unsigned k) { unsigned w = W(a); if (k == 0) return a; if (k >= w) k = w - 1; return mkSext(mkExtract(a, k, w - k), w); }
  N shiftV(Op op, N a, N b) {
    unsigned w = W(a);
    if (isC(b)) { u128 k = cv(b); unsigned kk = k >= w ? w : (unsigned)k; return op == SHL ? mkShlC(a, kk) : op == LSHR ? mkLshrC(a, kk) : mkAshrC(a, kk); }
    if (w == 1) { // shift by nonzero is UB anyway
      return op == ASHR ? a : mkIte(b, F, a);
    }
    if (isC(a, 0)) return a;
    if (nodes[b].op == ITE && constTree(b)) { N c = arg(b, 0), b1 = arg(b, 1), b2 = arg(b, 2); return mkIte(c, shiftV(op, a, b1), shiftV(op, a, b2)); }
    // 1 << k, ... with narrow amounts: expand to a table when the shifted value is a constant
    if (isC(a) && nodes[b].hi <= 63) {
      unsigned n = (unsigned)std::min<u128>(nodes[b].hi, w - 1); N r = shiftV(op, a, mkC(W(b), n));
      for (int k = (int)n - 1; k >= (int)(unsigned)nodes[b].lo; k--) r = mkIte(mkEq(b, mkC(W(b), k)), shiftV(op, a, mkC(W(b), k)), r);
      return r;
    }
    if (nodes[b].hi - nodes[b].lo <= 4 && nodes[b].hi < w) {
      unsigned n = (unsigned)nodes[b].hi; N r = shiftV(op, a, mkC(W(b), n));
      for (int k = (int)n - 1; k >= (int)(unsigned)nodes[b].lo; k--) r = mkIte(mkEq(b, mkC(W(b), k)), shiftV(op, a, mkC(W(b), k)), r);
      return r;
    }
    if (nodes[b].op == CONCAT && nodes[b].hi < w) {
      // shift amount with few unknown bits at high position (e.g. 8*offset): enumerate
      u128 unk = ~(nodes[b].k0 | nodes[b].k1) & maskOf(W(b)); int nb = 0; for (u128 m = unk; m; m &= m - 1) nb++;
      if (nb <= 2) {
        N r = NONE;
        for (u128 s = unk;; s = (s - 1) & unk) { u128 v = s | nodes[b].k1; N x = shiftV(op, a, mkC(W(b), v)); r = r == NONE ? x : mkIte(mkEq(b, mkC(W(b), v)), x, r); if (!s) break; }
        return r;
      }
    }
    N ar[2] = {a, b}; return intern(op, w, 0, ar, 2);
  }
  N mkShl(N a, N b) { return shiftV(SHL, a, b); }
  N mkLshr(N a, N b) { return shiftV(LSHR, a, b); }
  N mkAshr(N a, N b) { unsigned w = W(a); if ((nodes[a].k0 >> (w - 1)) & 1) return shiftV(LSHR, a, b); return shiftV(ASHR, a, b); }
  bool nonneg(N a) const { return (nodes[a].k0 >> (nodes[a].w - 1)) & 1; }
  static u128 sx(u128 v, unsigned w) { if (w < 128 && ((v >> (w - 1)) & 1)) v |= ~maskOf(w); return v; }
  static u128 evalDiv(Op op, unsigned w, u128 a, u128 b) {
    u128 M = maskOf(w);
    const u128 junk = (u128)0x6b6b6b6b6b6b6b6bull & M; // undefined results: a value nobody can rely on
    if (b == 0) return op == UDIV || op == SDIV ? junk : 0;
    if (op == UDIV) return a / b;
    if (op == UREM) return a % b;
    __int128 x = (__int128)sx(a, w), y = (__int128)sx(b, w);
    if (y == -1 && a == ((u128)1 << (w - 1))) return op == SDIV ? junk : 1;
    if (y == -1) return op == SDIV ? ((u128)0 - (u128)x) & M : 0;
    return (op == SDIV ? (u128)(x / y) : (u128)(x % y)) & M;
  }
  N mkDiv(Op op, N a, N b) {
    unsigned w = W(a);
    if (isC(a) && isC(b) && cv(b)) return mkC(w, evalDiv(op, w, cv(a), cv(b)));
    if ((op == SDIV || op == SREM) && nonneg(a) && nonneg(b)) op = op == SDIV ? UDIV : UREM;
    if (isC(b) && (op == UDIV || op == UREM)) {
      u128 k = cv(b);
      if (k == 1) return op == UDIV ? a : zero(w);
      if (isPow2(k)) { unsigned s = ctz128(k); return op == UDIV ? mkLshrC(a, s) : mkZext(mkExtract(a, 0, s), w); }
      if (k && nodes[a].hi < k) return op == UREM ? a : zero(w);
      if (k && nodes[a].op == ITE && constTree(a)) return mapTree(a, [&](u128 v) { return mkC(w, evalDiv(op, w, v, k)); });
      if (k && nodes[a].hi < 2 * k) { N c = mkUlt(a, b); return op == UREM ? mkIte(c, a, mkSub(a, b)) : mkIte(c, zero(w), mkC(w, 1)); }
    }
    if (isC(b) && (op == SREM || op == SDIV) && isPow2(cv(b)) && nonneg(b)) {
      // sign-dependent forms stay opaque
    }
    if (nodes[a].op == ITE && isC(b) && cv(b) && (isC(arg(a, 1)) || isC(arg(a, 2)))) { N c = arg(a, 0), t = arg(a, 1), e = arg(a, 2); return mkIte(c, mkDiv(op, t, b), mkDiv(op, e, b)); }
    N ar[2] = {a, b}; return intern(op, w, 0, ar, 2);
  }

  N mkIte(N c, N a, N b) {
    if (c == T) return a;
    if (c == F) return b;
    if (a == b) return a;
    unsigned w = W(a); assert(w == W(b));
    if (w == 1) return bIte(c, a, b);
    K3 key{c, a, b}; auto it = iteCache.find(key); if (it != iteCache.end()) return it->second;
    N r = mkIte2(c, a, b); iteCache[key] = r; return r;
  }
  N mkIte2(N c, N a, N b) {
    unsigned w = W(a);
    N nc = bNot(c); if (nc < c) { std::swap(a, b); N t = c; c = nc; nc = t; }
    // prune nested selects decided by c
    for (int i = 0; i < 64 && nodes[a].op == ITE; i++) { N d = arg(a, 0); if (d == c) { a = arg(a, 1); continue; } N q = restrict(d, c); if (q == T) a = arg(a, 1); else if (q == F) a = arg(a, 2); else break; }
    for (int i = 0; i < 64 && nodes[b].op == ITE; i++) { N d = arg(b, 0); if (d == c) { b = arg(b, 2); continue; } N q = restrict(d, nc); if (q == T) b = arg(b, 1); else if (q == F) b = arg(b, 2); else break; }
    if (a == b) return a;
    // a guarded over-shift is the plain shift (shifts beyond the width give zero here)
    for (int k = 0; k < 2; k++) {
      N cc = k ? nc : c, z = k ? b : a, x = k ? a : b;
      if (isC(z, 0) && (nodes[x].op == SHL || nodes[x].op == LSHR) && cc == mkUlt(mkC(W(arg(x, 1)), w - 1), arg(x, 1))) return x;
    }
    // minimum and maximum: equal operands make both orders of the comparison agree
    for (int k = 0; k < 2; k++) {
      N cc = k ? nc : c, x = k ? b : a, y = k ? a : b;
      if (nodes[cc].op != BDD || bHi(cc) != T || bLo(cc) != F) continue;
      N at = bAtom(cc); if (nodes[at].op != ULT && nodes[at].op != SLT) continue;
      N p = arg(at, 0), q = arg(at, 1);
      if (!((x == p && y == q) || (x == q && y == p)) || p < q) continue;
      return mkIte(nodes[at].op == ULT ? mkUlt(q, p) : mkSlt(q, p), y, x);
    }
    // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if (nodes[b].op == ITE) { if (arg(b, 1) == a) return mkIte(bOr(c, arg(b, 0)), a, arg(b, 2)); if (arg(b, 2) == a) { N d = arg(b, 0), y = arg(b, 1); return mkIte(bOr(c, bNot(d)), a, y); } }
    if (nodes[a].op == ITE) { if (arg(a, 2) == b) return mkIte(bAnd(c, arg(a, 0)), arg(a, 1), b); if (arg(a, 1) == b) { N d = arg(a, 0), y = arg(a, 2); return mkIte(bAnd(c, bNot(d)), y, b); } }
    if (isC(a) && isC(b)) {
      u128 d = cv(a) ^ cv(b); unsigned lo = ctz128(d), hi = bitlen(d);
      if (lo > 0 || hi < w) {
        std::vector<N> p; if (lo) p.push_back(mkExtract(a, 0, lo));
        p.push_back(mkIte(c, mkExtract(a, lo, hi - lo), mkExtract(b, lo, hi - lo)));
        if (hi < w) p.push_back(mkExtract(a, hi, w - hi));
        return mkConcat(p);
      }
    } else {
      bool ca = nodes[a].op == CONCAT, cb = nodes[b].op == CONCAT;
      if (ca || cb) {
        auto simple = [&](N x) { Op o = nodes[x].op; return o == CONCAT || o == CONST || o == LEAF || o == EXTRACT; };
        std::vector<unsigned> cs; cuts(a, cs); cuts(b, cs);
        bool split = ca && cb;
        if (!split && (isC(a) || isC(b))) split = true;
        if (!split && simple(a) && simple(b)) {
          std::vector<unsigned> c2 = cs; std::sort(c2.begin(), c2.end()); unsigned p = 0;
          for (unsigned e : c2) { if (e <= p) continue; if (mkExtract(a, p, e - p) == mkExtract(b, p, e - p)) { split = true; break; } p = e; }
        }
        bool inner = false; for (unsigned e : cs) if (e && e < w) inner = true;
        if (split && inner) return bySlices(a, b, cs, [&](N x, N y) { return mkIte(c, x, y); });
      }
    }
    N ar[3] = {c, a, b};
    return intern(ITE, w, 0, ar, 3);
  }

  // try to rewrite x as an ITE tree with constant leaves
  N toTree(N x, int &budget) {
    if (isC(x)) return x;
    if (budget-- <= 0) return NONE;
    const Node nx = nodes[x];
    if (treeFail.count(x)) return NONE;
    switch (nx.op) {
    case BDD: return x;
    case ITE: { N c = arg(x, 0), a = arg(x, 1), b = arg(x, 2); if (constTree(x)) return x; N ta = toTree(a, budget); if (ta == NONE) return NONE; N tb = toTree(b, budget); if (tb == NONE) return NONE; return rawTree(c, ta, tb); }
    case CONCAT: { std::vector<N> as; for (unsigned i = 0; i < nx.na; i++) as.push_back(arg(x, i)); N acc = mkC(nx.w, 0); unsigned p = 0;
      for (N a : as) { unsigned aw = W(a); N t = toTree(a, budget); if (t == NONE) return NONE; acc = comb2(acc, t, [&](u128 u, u128 v) { return u | (v << p); }, nx.w, budget); if (acc == NONE) return NONE; p += aw; }
      return acc; }
    case SUM: { std::vector<N> as; for (unsigned i = 0; i < nx.na; i++) as.push_back(arg(x, i)); N acc = as.back();
      for (unsigned i = 0; i + 1 < as.size(); i += 2) { N t = toTree(as[i], budget); if (t == NONE) return NONE; u128 k = cv(as[i + 1]); acc = comb2(acc, t, [&](u128 u, u128 v) { return u + v * k; }, nx.w, budget); if (acc == NONE) return NONE; }
      return acc; }
    default: treeFail[x] = 1; return NONE;
    }
  }
  // tree nodes: RAWITE words (never mixed with the normal form) so that they are not re-split
  N rawTree(N c, N a, N b) { if (a == b) return a; if (c == T) return a; if (c == F) return b; N ar[3] = {c, a, b}; return intern(RAWITE, W(a), 1, ar, 3); }
  bool tIsLeaf(N t) const { return isC(t); }
  void tSplit(N t, N &c, N &a, N &b) {
    if (nodes[t].op == BDD) { c = t; a = T; b = F; } else { c = arg(t, 0); a = arg(t, 1); b = arg(t, 2); }
  }
  template <class Fn> N comb2(N s, N t, Fn f, unsigned w, int &budget) {
    if (budget-- <= 0) return NONE;
    if (isC(s) && isC(t)) return mkC(w, f(cv(s), cv(t)));
    N c, a, b;
    if (!isC(s)) {
      tSplit(s, c, a, b); N t1 = tRestrict(t, c), t2 = tRestrict(t, bNot(c));
      N r1 = comb2(a, t1, f, w, budget); if (r1 == NONE) return NONE; N r2 = comb2(b, t2, f, w, budget); if (r2 == NONE) return NONE; return rawTree(c, r1, r2);
    }
    tSplit(t, c, a, b);
    N r1 = comb2(s, a, f, w, budget); if (r1 == NONE) return NONE; N r2 = comb2(s, b, f, w, budget); if (r2 == NONE) return NONE; return rawTree(c, r1, r2);
  }
  N tRestrict(N t, N c) {
    if (isC(t)) return t;
    if (nodes[t].op == BDD) return restrict(t, c);
    N d = restrict(arg(t, 0), c), a = arg(t, 1), b = arg(t, 2);
    if (d == T) return tRestrict(a, c);
    if (d == F) return tRestrict(b, c);
    return t;
  }
  template <class Fn> N treePred(N t, Fn f) { // predicate over tree leaves
    if (isC(t)) return f(cv(t)) ? T : F;
    if (nodes[t].op == BDD) return bIte(t, f((u128)1) ? T : F, f((u128)0) ? T : F);
    N c = arg(t, 0), a = arg(t, 1), b = arg(t, 2); N x = treePred(a, f), y = treePred(b, f); return bIte(c, x, y);
  }

  N mkEq(N a, N b) {
    unsigned w = W(a); assert(w == W(b));
    if (a == b) return T;
    if (isC(a)) std::swap(a, b);
    if (isC(a) && isC(b)) return F;
    const Node na = nodes[a], nb = nodes[b];
    if ((na.k0 & nb.k1) || (na.k1 & nb.k0)) return F;
    if (na.hi < nb.lo || nb.hi < na.lo) return F;
    if (w == 1) return bNot(bXor(a, b));
    if (!isC(b) && a > b) std::swap(a, b);
    K3 key{a, b, EQ}; auto it = opCache.find(key); if (it != opCache.end()) return it->second;
    N r = mkEq2(a, b); opCache[key] = r; return r;
  }
  int eqDepth = 0;
  N mkEq2(N a, N b) {
    unsigned w = W(a);
    if (nodes[a].op == CONCAT || nodes[b].op == CONCAT) {
      std::vector<unsigned> cs; cuts(a, cs); cuts(b, cs); cs.push_back(w); std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
      if (cs.size() > 1 && cs[0] < w) {
        // check for a plainly false slice first
        std::vector<std::pair<N, N>> sl; unsigned p = 0;
        for (unsigned e : cs) { N x = mkExtract(a, p, e - p), y = mkExtract(b, p, e - p); p = e; if (isC(x) && isC(y) && x != y) return F; sl.push_back({x, y}); }
        N r = T; for (auto &s : sl) { r = bAnd(r, mkEq(s.first, s.second)); if (r == F) return F; }
        return r;
      }
    }
    if (isC(b)) {
      if (nodes[a].op == ITE) { N c = arg(a, 0), t = arg(a, 1), e = arg(a, 2); return bIte(c, mkEq(t, b), mkEq(e, b)); }
      if (nodes[a].op == OR && cv(b) == 0) { N x = arg(a, 0), y = arg(a, 1); return bAnd(mkEq(x, b), mkEq(y, b)); }
      if (nodes[a].op == XOR) { N x = arg(a, 0), y = arg(a, 1); return mkEq(x, mkXor(y, b)); }
      if ((nodes[a].op == LEAF || nodes[a].op == EXTRACT || nodes[a].op == UF) && w <= 16) {
        N r = T; for (unsigned i = w; i-- > 0;) { N bit = mkExtract(a, i, 1); r = bAnd(r, ((cv(b) >> i) & 1) ? bit : bNot(bit)); }
        return r;
      }
    }
    if (eqDepth < 12) {
      eqDepth++;
      N res = NONE;
      if (nodes[a].op == ITE && nodes[b].op == ITE && arg(a, 0) == arg(b, 0)) { N c = arg(a, 0), a1 = arg(a, 1), a2 = arg(a, 2), b1 = arg(b, 1), b2 = arg(b, 2); res = bIte(c, mkEq(a1, b1), mkEq(a2, b2)); }
      else if (nodes[a].op == ITE && (arg(a, 1) == b || arg(a, 2) == b || isC(arg(a, 1)) || isC(arg(a, 2)) || eqDepth < 6)) { N c = arg(a, 0), a1 = arg(a, 1), a2 = arg(a, 2); res = bIte(c, mkEq(a1, b), mkEq(a2, b)); }
      else if (nodes[b].op == ITE && (arg(b, 1) == a || arg(b, 2) == a || isC(arg(b, 1)) || isC(arg(b, 2)) || eqDepth < 6)) { N c = arg(b, 0), b1 = arg(b, 1), b2 = arg(b, 2); res = bIte(c, mkEq(a, b1), mkEq(a, b2)); }
      eqDepth--;
      if (res != NONE) return res;
    }
    if (nodes[a].op == SUM || nodes[b].op == SUM) {
      int bud = 300; N d = mkSub(a, b);
      if (nodes[d].op != SUM) return mkEq(d, zero(w));
      const Node nd = nodes[d];
      std::vector<N> as; for (unsigned i = 0; i < nd.na; i++) as.push_back(arg(d, i));
      u128 c = cv(as.back()), M = maskOf(w);
      if (nd.na == 3 && cv(as[1]) == 1) return mkEq(as[0], mkC(w, ~c + 1));
      if (nd.na == 3 && cv(as[1]) == M) return mkEq(as[0], mkC(w, c));
      N t = toTree(d, bud); if (t != NONE) return treePred(t, [&](u128 v) { return v == 0; });
      // zero-extended terms: compare in the narrowest width that cannot wrap (both sides nonneg)
      if (nd.na == 5 && c == 0 && ((cv(as[1]) == 1 && cv(as[3]) == M) || (cv(as[1]) == M && cv(as[3]) == 1))) { N x = as[0], y = as[2]; if (!(nodes[a].op != SUM && nodes[b].op != SUM)) return mkEq(x, y); }
      else {
        u128 k = cv(as[1]); if ((k >> (w - 1)) & 1) d = mkNeg(d);
        N ar[2] = {d, zero(w)};
        if (nodes[d].op != SUM) return mkEq(d, zero(w));
        return atom(intern(EQ, 1, 0, ar, 2));
      }
    }
    if (nodes[a].op == XOR && nodes[b].op == XOR) {
      for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (arg(a, i) == arg(b, j)) return mkEq(arg(a, 1 - i), arg(b, 1 - j));
    }
    N ar[2] = {a, b};
    return atom(intern(EQ, 1, 0, ar, 2));
  }
  N mkUlt(N a, N b) {
    unsigned w = W(a); assert(w == W(b));
    if (a == b) return F;
    const Node na = nodes[a], nb = nodes[b];
    if (na.hi < nb.lo) return T;
    if (na.lo >= nb.hi) return F;
    if (w == 1) return bAnd(bNot(a), b);
    K3 key{a, b, ULT}; auto it = opCache.find(key); if (it != opCache.end()) return it->second;
    N r = mkUlt2(a, b); opCache[key] = r; return r;
  }
  N mkUlt2(N a, N b) {
    unsigned w = W(a);
    unsigned sig = std::max(bitlen(nodes[a].hi), bitlen(nodes[b].hi)); if (sig == 0) sig = 1;
    if (sig < w) return mkUlt(mkExtract(a, 0, sig), mkExtract(b, 0, sig));
    if (isC(a)) { // c < b  <=>  !(b < c+1)
      u128 c = cv(a); if (c == maskOf(w)) return F; return bNot(mkUlt(b, mkC(w, c + 1)));
    }
    if (isC(b)) {
      u128 c = cv(b); if (c == 0) return F; if (c == 1) return mkEq(a, zero(w));
      if (isPow2(c)) { unsigned k = ctz128(c); return mkEq(mkExtract(a, k, w - k), zero(w - k)); }
      if (c == maskOf(w)) return bNot(mkEq(a, b));
      if (nodes[a].op == ITE) { N cc = arg(a, 0), t = arg(a, 1), e = arg(a, 2); return bIte(cc, mkUlt(t, b), mkUlt(e, b)); }
      if (nodes[a].op == SUM) {
        const Node nd = nodes[a];
        if (nd.na >= 3) {
          u128 k = cv(arg(a, nd.na - 1)); bool negc = (k >> (w - 1)) & 1;
          if (k && !negc && nodes[a].hi < maskOf(w) && c >= k) { N t = mkSub(a, mkC(w, k)); if (nodes[t].hi <= nodes[a].hi) { return mkUlt(t, mkC(w, c - k)); } }
        }
        int bud = 300; N t = toTree(a, bud); if (t != NONE) return treePred(t, [&](u128 v) { return v < c; });
      }
      if (nodes[a].op == CONCAT || ((nodes[a].op == LEAF || nodes[a].op == EXTRACT) && w <= 10)) {
        // most significant part first
        std::vector<N> parts; if (nodes[a].op == CONCAT) for (unsigned i = 0; i < nodes[a].na; i++) parts.push_back(arg(a, i)); else for (unsigned i = 0; i < w; i++) parts.push_back(mkExtract(a, i, 1));
        N r = F; unsigned p = 0; // LSB up
        for (N x : parts) { unsigned xw = W(x); N kx = mkC(xw, c >> p); p += xw; N lt = mkUlt(x, kx), eq = mkEq(x, kx); r = bOr(lt, bAnd(eq, r)); }
        return r;
      }
    } else {
      if (nodes[a].op == ITE && nodes[b].op == ITE && arg(a, 0) == arg(b, 0)) { N c = arg(a, 0), a1 = arg(a, 1), a2 = arg(a, 2), b1 = arg(b, 1), b2 = arg(b, 2); return bIte(c, mkUlt(a1, b1), mkUlt(a2, b2)); }
      if (eqDepth < 6) {
        eqDepth++; N res = NONE;
        if (nodes[a].op == ITE) { N c = arg(a, 0), a1 = arg(a, 1), a2 = arg(a, 2); res = bIte(c, mkUlt(a1, b), mkUlt(a2, b)); }
        else if (nodes[b].op == ITE) { N c = arg(b, 0), b1 = arg(b, 1), b2 = arg(b, 2); res = bIte(c, mkUlt(a, b1), mkUlt(a, b2)); }
        eqDepth--; if (res != NONE) return res;
      }
      int bud = 300; N ta = toTree(a, bud); if (ta != NONE) { N tb = toTree(b, bud); if (tb != NONE) { N d = comb2(ta, tb, [&](u128 u, u128 v) { return (u128)(u < v); }, 1, bud); if (d != NONE) return treePred(d, [&](u128 v) { return v != 0; }); } }
      // common low/high slices: strip equal top parts
      if (nodes[a].op == CONCAT && nodes[b].op == CONCAT) {
        N ta2 = arg(a, nodes[a].na - 1), tb2 = arg(b, nodes[b].na - 1);
        if (ta2 == tb2) { unsigned k = w - W(ta2); return mkUlt(mkExtract(a, 0, k), mkExtract(b, 0, k)); }
      }
    }
    N ar[2] = {a, b}; return atom(intern(ULT, 1, 0, ar, 2));
  }
  N mkSlt(N a, N b) {
    unsigned w = W(a);
    if (a == b) return F;
    if (w == 1) return bAnd(a, bNot(b));
    u128 S = (u128)1 << (w - 1);
    if (nonneg(a) && nonneg(b)) return mkUlt(a, b);
    bool an = (nodes[a].k1 & S) != 0, bn = (nodes[b].k1 & S) != 0;
    if (an && bn) return mkUlt(a, b);
    if (an && nonneg(b)) return T;
    if (bn && nonneg(a)) return F;
    K3 key{a, b, SLT}; auto it = opCache.find(key); if (it != opCache.end()) return it->second;
    N r = mkSlt2(a, b); opCache[key] = r; return r;
  }
  N mkSlt2(N a, N b) {
    unsigned w = W(a); u128 S = (u128)1 << (w - 1);
    if (isC(a) && isC(b)) return (cv(a) ^ S) < (cv(b) ^ S) ? T : F;
    if (isC(b, 0)) return mkExtract(a, w - 1, 1);
    if (isC(a)) { u128 c = cv(a); if (c == S - 1) return F; return bNot(mkSlt(b, mkC(w, c + 1))); }
    // sign-extended operands: narrow
    auto sigw = [&](N x) -> unsigned { // minimal signed width
      if (isC(x)) { u128 v = cv(x); u128 s = sx(v, w); if (s >> 127) return bitlen(~s) + 1; return bitlen(s) + 1; }
      if (nonneg(x)) return std::min(w, bitlen(nodes[x].hi) + 1);
      if (nodes[x].op == CONCAT && nodes[x].na >= 2) { N top = arg(x, nodes[x].na - 1); if (nodes[top].op == ITE && isC(arg(top, 1)) && isC(arg(top, 2))) { unsigned k = w - W(top); u128 tm = maskOf(W(top)); if ((cv(arg(top, 1)) == tm && cv(arg(top, 2)) == 0)) { if (arg(top, 0) == mkExtract(x, k - 1, 1)) return k; } if ((cv(arg(top, 2)) == tm && cv(arg(top, 1)) == 0)) { if (bNot(arg(top, 0)) == mkExtract(x, k - 1, 1)) return k; } } }
      return w; };
    unsigned s = std::max(sigw(a), sigw(b)); if (s < w) return mkSlt(mkExtract(a, 0, s), mkExtract(b, 0, s));
    if (isC(b)) {
      if (nodes[a].op == ITE) { N c = arg(a, 0), t = arg(a, 1), e = arg(a, 2); return bIte(c, mkSlt(t, b), mkSlt(e, b)); }
      if (nodes[a].op == SUM) { int bud = 300; N t = toTree(a, bud); u128 c = cv(b); if (t != NONE) return treePred(t, [&](u128 v) { return (v ^ S) < (c ^ S); }); }
    } else {
      if (nodes[a].op == ITE && nodes[b].op == ITE && arg(a, 0) == arg(b, 0)) { N c = arg(a, 0), a1 = arg(a, 1), a2 = arg(a, 2), b1 = arg(b, 1), b2 = arg(b, 2); return bIte(c, mkSlt(a1, b1), mkSlt(a2, b2)); }
      if (eqDepth < 6) {
        eqDepth++; N res = NONE;
        if (nodes[a].op == ITE) { N c = arg(a, 0), a1 = arg(a, 1), a2 = arg(a, 2); res = bIte(c, mkSlt(a1, b), mkSlt(a2, b)); }
        else if (nodes[b].op == ITE) { N c = arg(b, 0), b1 = arg(b, 1), b2 = arg(b, 2); res = bIte(c, mkSlt(a, b1), mkSlt(a, b2)); }
        eqDepth--; if (res != NONE) return res;
      }
      int bud = 300; N ta = toTree(a, bud); if (ta != NONE) { N tb = toTree(b, bud); if (tb != NONE) { N d = comb2(ta, tb, [&](u128 u, u128 v) { return (u128)((u ^ S) < (v ^ S)); }, 1, bud); if (d != NONE) return treePred(d, [&](u128 v) { return v != 0; }); } }
    }
    N ar[2] = {a, b}; return atom(intern(SLT, 1, 0, ar, 2));
  }

  // ------------------------------------------------------------ rewriting under a guard
  // replaces select conditions decided by guard g
  std::unordered_map<N, N> simpMemo; N simpGuard = NONE;
  N simp(N x, N g) {
    if (g == T) return x;
    if (g != simpGuard) { simpMemo.clear(); simpGuard = g; }
    return simpRec(x, g, 0);
  }
  N simpRec(N x, N g, int depth) {
    const Node nx = nodes[x];
    if (nx.op == CONST || nx.op == LEAF || nx.op == PTR) return x;
    if (nx.w == 1) return restrict(x, g);
    if (depth > 400) return x;
    auto it = simpMemo.find(x); if (it != simpMemo.end()) return it->second;
    std::vector<N> as; for (unsigned i = 0; i < nx.na; i++) as.push_back(arg(x, i));
    N r = x; bool ch = false;
    if (nx.op == ITE) {
      N c = restrict(as[0], g);
      if (c == T) r = simpRec(as[1], g, depth + 1);
      else if (c == F) r = simpRec(as[2], g, depth + 1);
      else { N a = simpRec(as[1], g, depth + 1), b = simpRec(as[2], g, depth + 1); if (c != as[0] || a != as[1] || b != as[2]) r = mkIte(c, a, b); }
    } else {
      for (auto &a : as) { N b = simpRec(a, g, depth + 1); if (b != a) { a = b; ch = true; } }
      if (ch) r = rebuild(nx, as);
    }
    simpMemo[x] = r; return r;
  }
  N rebuild(const Node &nx, const std::vector<N> &as) {
    switch (nx.op) {
    case SUM: { std::vector<std::pair<N, u128>> t; for (unsigned i = 0; i + 1 < as.size(); i += 2) t.push_back({as[i], cv(as[i + 1])}); return mkSum(nx.w, t, cv(as.back())); }
    case MUL: return mkMul(as[0], as[1]);
    case UDIV: case SDIV: case UREM: case SREM: return mkDiv(nx.op, as[0], as[1]);
    case AND: case OR: case XOR: return bitop(nx.op, as[0], as[1]);
    case SHL: return mkShl(as[0], as[1]);
    case LSHR: return mkLshr(as[0], as[1]);
    case ASHR: return mkAshr(as[0], as[1]);
    case EXTRACT: return mkExtract(as[0], (unsigned)nx.val, nx.w);
    case CONCAT: return mkConcat(as);
    case ITE: return mkIte(as[0], as[1], as[2]);
    case UF: return uf(ufNames[(unsigned)nx.val], nx.w, as);
    case EQ: return mkEq(as[0], as[1]);
    case ULT: return mkUlt(as[0], as[1]);
    case SLT: return mkSlt(as[0], as[1]);
    default: throw TermLimit("rebuild");
    }
  }

  std::string str(N n, int depth = 4) const {
    const Node &x = nodes[n];
    if (x.op == CONST) return hex(x.val);
    if (x.op == LEAF) return leaves[(unsigned)x.val].name;
    if (x.op == PTR) return "&obj" + std::to_string((unsigned)x.val);
    if (depth <= 0) return "#" + std::to_string(n);
    if (x.op == BDD) { if (bHi(n) == T && bLo(n) == F) return str(bAtom(n), depth); if (bHi(n) == F && bLo(n) == T) return "!" + str(bAtom(n), depth); return "(" + str(bAtom(n), depth - 1) + "?" + str(bHi(n), depth - 1) + ":" + str(bLo(n), depth - 1) + ")"; }
    if (x.op == EXTRACT) return str(arg(n, 0), depth - 1) + "[" + std::to_string((unsigned)x.val + x.w - 1) + ":" + std::to_string((unsigned)x.val) + "]";
    std::string s = x.op == UF ? ufNames[(unsigned)x.val] : opName(x.op); s += "(";
    for (unsigned i = 0; i < x.na; i++) { if (i) s += ","; if (i > 8) { s += "..."; break; } s += str(arg(n, i), depth - 1); }
    return s + ")";
  }
};
