// Persistent byte memory: radix tree of reference-counted pages, so that states
// of the two sides of a branch share everything they did not change.
#pragma once
#include "term.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"

struct ByteRef { N n; uint32_t prov; uint8_t idx; };
static const unsigned PGB = 64;
struct Page { uint32_t rc; ByteRef b[PGB]; };
static const unsigned FAN = 32, LEVELS = 5;
struct TN { uint32_t rc; void *ch[FAN]; };

struct Mem {
  TN *root = nullptr;
  static void relP(Page *p) { if (p && --p->rc == 0) delete p; }
  static void relT(TN *t, unsigned lv) {
    if (!t || --t->rc) return;
    for (unsigned i = 0; i < FAN; i++) if (t->ch[i]) { if (lv == 1) relP((Page *)t->ch[i]); else relT((TN *)t->ch[i], lv - 1); }
    delete t;
  }
  Mem() {}
  Mem(const Mem &o) : root(o.root) { if (root) root->rc++; }
  Mem(Mem &&o) : root(o.root) { o.root = nullptr; }
  Mem &operator=(const Mem &o) { if (o.root) o.root->rc++; relT(root, LEVELS); root = o.root; return *this; }
  Mem &operator=(Mem &&o) { if (this != &o) { relT(root, LEVELS); root = o.root; o.root = nullptr; } return *this; }
  ~Mem() { relT(root, LEVELS); }
  const Page *get(uint64_t pg) const {
    TN *t = root;
    for (unsigned lv = LEVELS; lv >= 1; lv--) { if (!t) return nullptr; unsigned i = (pg >> (5 * (lv - 1))) & (FAN - 1); if (lv == 1) return (Page *)t->ch[i]; t = (TN *)t->ch[i]; }
    return nullptr;
  }
  void **slot(uint64_t pg) { // path-copying
    void **p = (void **)&root;
    for (unsigned lv = LEVELS; lv >= 1; lv--) {
      TN *t = (TN *)*p;
      if (!t) { t = new TN; t->rc = 1; memset(t->ch, 0, sizeof t->ch); *p = t; }
      else if (t->rc > 1) { TN *c = new TN(*t); c->rc = 1; for (unsigned i = 0; i < FAN; i++) if (c->ch[i]) { if (lv == 1) ((Page *)c->ch[i])->rc++; else ((TN *)c->ch[i])->rc++; } t->rc--; *p = c; t = c; }
      unsigned i = (pg >> (5 * (lv - 1))) & (FAN - 1); p = &t->ch[i];
    }
    return p;
  }
  void clear(uint64_t pg) { if (!get(pg)) return; void **s = slot(pg); relP((Page *)*s); *s = nullptr; }
};

struct Obj {
  std::string name;
  uint64_t size = 0, basePage = 0, npages = 0;
  int def = 0; // 0 uninit, 1 zero, 2 image
  bool dead = false;
  bool heap = false;
  const llvm::Function *fn = nullptr;
  const llvm::GlobalVariable *gv = nullptr;
  bool imgBuilt = false;
  std::vector<ByteRef> image;
};
