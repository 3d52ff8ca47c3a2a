// Copy-on-write object memory for symbolic states.
#pragma once
#include "expr.h"
#include <cstring>
#include <cstdlib>

enum ObjKind : uint8_t { OK_GLOBAL, OK_STACK, OK_NEW, OK_NEWA, OK_MALLOC, OK_EXC };
struct Obj {
  int rc; uint32_t size; ObjKind kind; bool ro;
  uint8_t* d;              // concrete bytes
  uint8_t* st;             // nullptr: all bytes concrete; else 0 concrete, 1 symbolic, 2 uninitialised
  const Expr** sx;         // per byte symbolic value where st==1
  static Obj* make(uint32_t size, ObjKind k, bool uninit) {
    Obj* o = (Obj*)malloc(sizeof(Obj)); o->rc = 1; o->size = size; o->kind = k; o->ro = false;
    o->d = (uint8_t*)calloc(size ? size : 1, 1); o->st = nullptr; o->sx = nullptr;
    if (uninit && size) { o->st = (uint8_t*)malloc(size); memset(o->st, 2, size); }
    return o;
  }
  Obj* clone() const {
    Obj* o = (Obj*)malloc(sizeof(Obj)); *o = *this; o->rc = 1;
    o->d = (uint8_t*)malloc(size ? size : 1); memcpy(o->d, d, size);
    if (st) { o->st = (uint8_t*)malloc(size); memcpy(o->st, st, size); }
    if (sx) { o->sx = (const Expr**)malloc(size * sizeof(void*)); memcpy(o->sx, sx, size * sizeof(void*)); }
    return o;
  }
  void unref() { if (--rc == 0) { ::free(d); ::free(st); ::free(sx); ::free(this); } }
  bool concrete(uint32_t off, uint32_t n) const { if (!st) return true; for (uint32_t i = 0; i < n; i++) if (st[off + i]) return false; return true; }
  void putC(uint32_t off, const void* p, uint32_t n) { memcpy(d + off, p, n); if (st) memset(st + off, 0, n); }
  void putByte(uint32_t off, const Expr* e) {     // 8-bit expression
    if (isConst(e)) { d[off] = (uint8_t)e->c; if (st) st[off] = 0; return; }
    if (!st) st = (uint8_t*)calloc(size, 1);
    if (!sx) sx = (const Expr**)calloc(size, sizeof(void*));
    st[off] = 1; sx[off] = e;
  }
  void putUninit(uint32_t off, uint32_t n) { if (!n) return; if (!st) st = (uint8_t*)calloc(size, 1); memset(st + off, 2, n); }
};

struct RNode { int rc; void* ch[32]; };
struct RTree {            // persistent map id -> Obj*, 25-bit ids
  static const int D = 5;
  RNode* root = nullptr;
  static void unrefNode(RNode* n, int lvl) {
    if (!n || --n->rc) return;
    for (int i = 0; i < 32; i++) if (n->ch[i]) { if (lvl == D - 1) ((Obj*)n->ch[i])->unref(); else unrefNode((RNode*)n->ch[i], lvl + 1); }
    ::free(n);
  }
  RTree() {}
  RTree(const RTree& o): root(o.root) { if (root) root->rc++; }
  RTree& operator=(const RTree& o) { if (o.root) o.root->rc++; unrefNode(root, 0); root = o.root; return *this; }
  ~RTree() { unrefNode(root, 0); }
  Obj* get(uint32_t id) const {
    RNode* n = root;
    for (int l = 0; l < D; l++) { if (!n) return nullptr; n = (RNode*)n->ch[(id >> (5 * (D - 1 - l))) & 31]; }
    return (Obj*)n;
  }
  static RNode* own(RNode* n, int lvl) {
    if (!n) { n = (RNode*)calloc(1, sizeof(RNode)); n->rc = 1; return n; }
    if (n->rc == 1) return n;
    RNode* m = (RNode*)malloc(sizeof(RNode)); *m = *n; m->rc = 1; n->rc--;
    for (int i = 0; i < 32; i++) if (m->ch[i]) { if (lvl == D - 1) ((Obj*)m->ch[i])->rc++; else ((RNode*)m->ch[i])->rc++; }
    return m;
  }
  void** slot(uint32_t id) {      // exclusive slot
    root = own(root, 0); RNode* n = root;
    for (int l = 0; l < D - 1; l++) { void*& c = n->ch[(id >> (5 * (D - 1 - l))) & 31]; c = own((RNode*)c, l + 1); n = (RNode*)c; }
    return &n->ch[id & 31];
  }
  void set(uint32_t id, Obj* o) { void** s = slot(id); if (*s) ((Obj*)*s)->unref(); *s = o; }
  Obj* getW(uint32_t id) {        // writable
    void** s = slot(id); Obj* o = (Obj*)*s; if (!o) return nullptr;
    if (o->rc > 1) { Obj* n = o->clone(); o->rc--; *s = n; return n; }
    return o;
  }
};
