#include "symx.hh"
#include <llvm/IR/DerivedTypes.h>
using namespace llvm;

Val Val::sr(A a, unsigned w, bool log) {
  double d;
  if (!log && realIsNum(a, &d)) {
    // exact when the rational is representable
    A back = realOfDouble(d);
    if (back == a) {
      if (w == 64 || (double)(float)d == d)
        return cf(d, w);
    }
  }
  Val r;
  r.k = K_SR; r.log = log; r.w = w; r.a = a;
  return r;
}
Val mkagg(std::vector<Val> v, unsigned w) {
  Agg *g = new Agg;
  g->v = std::move(v);
  Val r;
  r.k = K_AGG; r.log = 0; r.w = w; r.agg = g;
  return r;
}
static Val mkraw(const std::vector<Cell> &c, unsigned w) {
  Cell *p = new Cell[c.size()];
  for (size_t i = 0; i < c.size(); i++) p[i] = c[i];
  Val r;
  r.k = K_RAW; r.log = 0; r.w = w; r.raw = p;
  return r;
}

Obj *Engine::obj(State &s, uint64_t addr) const {
  uint64_t id = addr >> SLOT;
  if (id >= STK)
    return s.stk.get(id - STK);
  return s.heap.get(id);
}
Obj *Engine::wobj(State &s, uint64_t addr) {
  uint64_t id = addr >> SLOT;
  if (id >= STK)
    return s.stk.wr(id - STK);
  return s.heap.wr(id);
}
uint64_t Engine::newObj(State &s, uint64_t size, int kind, uint8_t how) {
  if (size > (1ull << 28))
    incomplete(s, "allocation of " + std::to_string(size) + " bytes");
  Obj *o = new Obj;
  o->kind = kind;
  o->how = how;
  o->data.assign(size, kind >= 2 ? 0xA5 : 0);
  Table &t = kind == 3 ? s.stk : s.heap;
  size_t i = t.add(o);
  o->base = (kind == 3 ? STK + i : i) << SLOT;
  if (kind == 2) {
    s.heapBytes += size;
    if (s.heapBytes > (1ull << 30))
      incomplete(s, "more than 1 GB allocated on a path");
  }
  return o->base;
}
Obj *Engine::access(State &s, uint64_t addr, uint64_t n, bool write, const char *what) {
  Obj *o = obj(s, addr);
  char buf[200];
  if (!o || o->kind == 4) {
    snprintf(buf, sizeof buf, "%s of %lu byte(s) through %s pointer (%#lx)", what, (unsigned long)n,
             (addr >> SLOT) == 0 ? "a null or invalid" : o ? "a code" : "a dangling or invalid", (unsigned long)addr);
    fatal(s, "memory", buf);
  }
  uint64_t off = addr - o->base;
  if (off > o->data.size() || n > o->data.size() - off) {
    snprintf(buf, sizeof buf, "%s of %lu byte(s) at offset %ld of an object of %lu bytes", what,
             (unsigned long)n, (long)off, (unsigned long)o->data.size());
    fatal(s, "memory", buf);
  }
  if (write) {
    if (o->kind == 1)
      fatal(s, "memory", "write to constant memory");
    o = wobj(s, addr);
  }
  return o;
}
Cell Engine::cellAt(Obj *o, uint64_t off) const {
  if (!o->sym.empty() && o->sym[off].kind)
    return o->sym[off];
  Cell c;
  c.kind = 0; c.idx = 0; c.byte = o->data[off]; c.n = 0; c.log = 0; c.a = nullptr;
  return c;
}
void Engine::putCell(Obj *o, uint64_t off, const Cell &c) {
  if (!c.kind) {
    o->data[off] = c.byte;
    if (!o->sym.empty()) o->sym[off].kind = 0;
    return;
  }
  if (o->sym.empty()) {
    Cell z;
    memset((void *)&z, 0, sizeof z);
    o->sym.assign(o->data.size(), z);
  }
  o->sym[off] = c;
}
static A cellBV(const Cell &c) {
  if (c.kind == 0) return bvnum(c.byte, 8);
  return mkExtract(c.a, c.idx * 8 + 7, c.idx * 8);
}

Val Engine::loadObj(Obj *o, uint64_t off, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *l = DL->getStructLayout(st);
    std::vector<Val> v;
    for (unsigned i = 0; i < st->getNumElements(); i++)
      v.push_back(loadObj(o, off + l->getElementOffset(i), st->getElementType(i)));
    return mkagg(v);
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    std::vector<Val> v;
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++)
      v.push_back(loadObj(o, off + es * i, at->getElementType()));
    return mkagg(v);
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    std::vector<Val> v;
    uint64_t es = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++)
      v.push_back(loadObj(o, off + es * i, vt->getElementType()));
    return mkagg(v);
  }
  bool fp = t->isFloatingPointTy();
  unsigned w = fp ? (t->isFloatTy() ? 32 : 64) : DL->getTypeSizeInBits(t);
  unsigned n = (w + 7) / 8;
  bool sym = false;
  if (!o->sym.empty())
    for (unsigned i = 0; i < n; i++)
      if (o->sym[off + i].kind) { sym = true; break; }
  if (!sym && w <= 64) {
    uint64_t x = 0;
    memcpy(&x, &o->data[off], n);
    return fp ? Val::cfbits(x, w) : Val::ci(x, w);
  }
  std::vector<Cell> cs(n);
  bool real = false, whole = true;
  for (unsigned i = 0; i < n; i++) {
    cs[i] = cellAt(o, off + i);
    if (cs[i].kind == 2) real = true;
    if (cs[i].kind == 0 || cs[i].a != cs[0].a || cs[i].idx != i || cs[i].kind != cs[0].kind) whole = false;
  }
  if (fp) {
    if (whole && cs[0].kind == 2 && cs[0].n == n)
      return Val::sr(cs[0].a, w, cs[0].log);
    return mkraw(cs, w);
  }
  if (real || w > 64)
    return mkraw(cs, w);
  if (whole && bvw(cs[0].a) == n * 8) {
    A a = cs[0].a;
    if (w < n * 8) a = mkTrunc(a, w);
    return Val::si(w == 1 ? bv2bool(a) : a, w);
  }
  A a = cellBV(cs[0]);
  for (unsigned i = 1; i < n; i++) a = mkConcat(cellBV(cs[i]), a);
  if (w == 1) return Val::si(bv2bool(a), 1);
  if (w < n * 8) a = mkTrunc(a, w);
  return Val::si(a, w);
}

void Engine::storeObj(Obj *o, uint64_t off, const Val &v, Type *t) {
  if (v.k == K_AGG) {
    if (auto *st = dyn_cast<StructType>(t)) {
      const StructLayout *l = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++)
        storeObj(o, off + l->getElementOffset(i), v.agg->v[i], st->getElementType(i));
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL->getTypeAllocSize(at->getElementType());
      for (unsigned i = 0; i < at->getNumElements(); i++)
        storeObj(o, off + es * i, v.agg->v[i], at->getElementType());
    } else {
      auto *vt = cast<FixedVectorType>(t);
      uint64_t es = DL->getTypeStoreSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); i++)
        storeObj(o, off + es * i, v.agg->v[i], vt->getElementType());
    }
    return;
  }
  unsigned n = (v.w + 7) / 8;
  if (v.conc()) {
    memcpy(&o->data[off], &v.c, n);
    if (!o->sym.empty())
      for (unsigned i = 0; i < n; i++) o->sym[off + i].kind = 0;
    return;
  }
  if (v.k == K_RAW) {
    for (unsigned i = 0; i < n; i++) putCell(o, off + i, v.raw[i]);
    return;
  }
  Cell c;
  memset((void *)&c, 0, sizeof c);
  if (v.k == K_SI) {
    A a = v.a;
    if (v.w == 1) a = bool2bv(a, 8);
    else if (v.w % 8) a = mkZext(a, n * 8);
    c.kind = 1;
    for (unsigned i = 0; i < n; i++) {
      A b = mkExtract(a, i * 8 + 7, i * 8);
      uint64_t x;
      if (isNum(b, &x)) {
        Cell z = c;
        z.kind = 0;
        z.byte = x;
        putCell(o, off + i, z);
        continue;
      }
      c.a = a;
      c.idx = i;
      putCell(o, off + i, c);
    }
    return;
  }
  c.kind = 2;
  c.a = v.a;
  c.n = n;
  c.log = v.log;
  for (unsigned i = 0; i < n; i++) {
    c.idx = i;
    putCell(o, off + i, c);
  }
}
Val Engine::loadAt(State &s, uint64_t a, Type *t) {
  Obj *o = access(s, a, DL->getTypeStoreSize(t), false, "read");
  return loadObj(o, a - o->base, t);
}
void Engine::storeAt(State &s, uint64_t a, const Val &v, Type *t) {
  Obj *o = access(s, a, DL->getTypeStoreSize(t), true, "write");
  storeObj(o, a - o->base, v, t);
}

// A symbolic address: check it stays within one object, list its values.
// Returns false when the address became concrete.
bool Engine::symAddr(State &s, Val &a, uint64_t n, std::vector<uint64_t> &vals) {
  if (a.k == K_RAW) a = rawToInt(s, a);
  if (a.k == K_CI) return false;
  A r = evalA(s, a.a);
  uint64_t v;
  if (!isNum(r, &v)) incomplete(s, "no numeral for an address");
  Obj *o = obj(s, v);
  uint64_t size = o ? o->data.size() : 0;
  bool inb = o && v - o->base <= size && n <= size - (v - o->base);
  if (!inb) {
    // on this path the address equals v (others continue elsewhere)
    decide(s, mkCmp(EQ, a.a, bvnum(v, 64)));
    a = Val::ci(v, 64);
    return false; // the access itself reports the error
  }
  A in = mkCmp(ULE, mkBV(SUB, a.a, bvnum(o->base, 64)), bvnum(size - n, 64));
  decide(s, in); // true here: the model satisfies it
  if (!enumVals(s, a.a, vals, maxEnum)) {
    a = Val::ci(concBV(s, a.a), 64);
    return false;
  }
  if (vals.size() == 1) {
    a = Val::ci(vals[0], 64);
    return false;
  }
  return true;
}

bool Engine::iteVals(A c, const Val &x, const Val &y, Val &r) {
  if (x.k == K_AGG || y.k == K_AGG) {
    if (x.k != y.k || x.agg->v.size() != y.agg->v.size()) return false;
    std::vector<Val> v(x.agg->v.size());
    for (size_t i = 0; i < v.size(); i++)
      if (!iteVals(c, x.agg->v[i], y.agg->v[i], v[i])) return false;
    r = mkagg(v, x.w);
    return true;
  }
  if (x.k == y.k && x.k != K_RAW && x.c == y.c && x.log == y.log) { r = x; return true; }
  auto isf = [](const Val &v) { return v.k == K_CF || v.k == K_SR; };
  if (isf(x) && isf(y)) {
    auto lin = [](const Val &v, A &a, bool &log) {
      log = false;
      if (v.k == K_SR) { a = v.a; log = v.log; return true; }
      if (!std::isfinite(v.d())) return false;
      a = realOfDouble(v.d());
      return true;
    };
    A a, b;
    bool la, lb;
    if (!lin(x, a, la) || !lin(y, b, lb)) return false;
    if (la != lb) {
      const Val &cv = la ? y : x;
      if (cv.k != K_CF) return false;
      double d = cv.d();
      if (d < -300 || d > 300) return false;
      A p = realOfDouble(pow(10, d));
      if (la) b = p; else a = p;
      la = true;
    }
    r = Val::sr(mkIte(c, a, b), x.w, la);
    return true;
  }
  auto isi = [](const Val &v) { return v.k == K_CI || v.k == K_SI; };
  if (isi(x) && isi(y)) {
    if (x.w == 1) r = Val::si(mkIte(c, toBool(x), toBool(y)), 1);
    else if (x.w > 64) return false;
    else r = Val::si(mkIte(c, toBV(x), toBV(y)), x.w);
    return true;
  }
  return false;
}

Val Engine::load(State &s, Val a, Type *t) {
  uint64_t n = DL->getTypeStoreSize(t);
  std::vector<uint64_t> vals;
  if (a.k != K_CI && symAddr(s, a, n, vals)) {
    Val r = loadAt(s, vals[0], t);
    for (size_t i = 1; i < vals.size(); i++) {
      Val x = loadAt(s, vals[i], t), y;
      if (!iteVals(mkCmp(EQ, a.a, bvnum(vals[i], 64)), x, r, y)) {
        uint64_t v = concBV(s, a.a);
        return loadAt(s, v, t);
      }
      r = y;
    }
    return r;
  }
  return loadAt(s, a.c, t);
}
void Engine::store(State &s, Val a, Val v, Type *t) {
  uint64_t n = DL->getTypeStoreSize(t);
  std::vector<uint64_t> vals;
  if (a.k != K_CI && symAddr(s, a, n, vals)) {
    std::vector<Val> nv;
    bool ok = true;
    for (auto x : vals) {
      Val y;
      if (v.k == K_RAW || !iteVals(mkCmp(EQ, a.a, bvnum(x, 64)), v, loadAt(s, x, t), y)) { ok = false; break; }
      nv.push_back(y);
    }
    // overlapping candidates would need byte-wise merging
    for (size_t i = 1; ok && i < vals.size(); i++)
      if (vals[i] - vals[i - 1] < n) ok = false;
    if (!ok) {
      uint64_t x = concBV(s, a.a);
      storeAt(s, x, v, t);
      return;
    }
    for (size_t i = 0; i < vals.size(); i++) storeAt(s, vals[i], nv[i], t);
    return;
  }
  storeAt(s, a.c, v, t);
}

std::string Engine::cstr(State &s, uint64_t a) {
  std::string r;
  while (true) {
    Obj *o = access(s, a, 1, false, "read");
    Cell c = cellAt(o, a - o->base);
    uint8_t b = c.byte;
    if (c.kind == 1) b = concBV(s, cellBV(c));
    else if (c.kind == 2) incomplete(s, "text of a symbolic real");
    if (!b) return r;
    r.push_back(b);
    a++;
  }
}

void Engine::copyMem(State &s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return;
  Obj *a = access(s, src, n, false, "read");
  std::vector<uint8_t> bytes(a->data.begin() + (src - a->base), a->data.begin() + (src - a->base) + n);
  std::vector<Cell> cells;
  if (!a->sym.empty()) cells.assign(a->sym.begin() + (src - a->base), a->sym.begin() + (src - a->base) + n);
  Obj *b = access(s, d, n, true, "write");
  uint64_t off = d - b->base;
  memcpy(&b->data[off], bytes.data(), n);
  if (!cells.empty() || !b->sym.empty()) {
    for (uint64_t i = 0; i < n; i++) {
      if (!cells.empty() && cells[i].kind) putCell(b, off + i, cells[i]);
      else if (!b->sym.empty()) b->sym[off + i].kind = 0;
    }
  }
}

Val Engine::memcmpv(State &s, uint64_t pa, uint64_t pb, uint64_t n) {
  if (!n) return Val::ci(0, 32);
  Obj *x = access(s, pa, n, false, "read"), *y = access(s, pb, n, false, "read");
  uint64_t ox = pa - x->base, oy = pb - y->base;
  if (x->sym.empty() && y->sym.empty()) {
    int r = memcmp(&x->data[ox], &y->data[oy], n);
    return Val::ci((uint32_t)(r < 0 ? -1 : r > 0 ? 1 : 0), 32);
  }
  // chunks: reals whole, everything else bytewise
  A eq = mkbool(true), lt = mkbool(false);
  struct Part { A eq, lt; };
  std::vector<Part> parts;
  for (uint64_t i = 0; i < n;) {
    Cell a = cellAt(x, ox + i), b = cellAt(y, oy + i);
    if (a.kind == 2 || b.kind == 2) {
      unsigned m = a.kind == 2 ? a.n : b.n;
      if (i + m > n) incomplete(s, "memcmp cuts a symbolic real");
      auto whole = [&](Obj *o, uint64_t off, A &r, bool &log) -> bool {
        Cell c = cellAt(o, off);
        if (c.kind == 2) {
          if (c.idx || c.n != m) return false;
          for (unsigned k = 1; k < m; k++) {
            Cell q = cellAt(o, off + k);
            if (q.kind != 2 || q.a != c.a || q.idx != k) return false;
          }
          r = c.a; log = c.log;
          return true;
        }
        uint64_t bits = 0;
        for (unsigned k = 0; k < m; k++) {
          Cell q = cellAt(o, off + k);
          if (q.kind) return false;
          bits |= (uint64_t)q.byte << (8 * k);
        }
        double d = Val::cfbits(bits, m * 8).d();
        if (!std::isfinite(d)) return false;
        log = false;
        r = realOfDouble(d);
        return true;
      };
      A ra, rb;
      bool la, lb;
      if (!whole(x, ox + i, ra, la) || !whole(y, oy + i, rb, lb)) incomplete(s, "memcmp of mixed real bytes");
      if (la != lb) {
        double d;
        A &o = la ? rb : ra;
        if (!realIsNum(o, &d) || fabs(d) > 300) incomplete(s, "memcmp of log and linear reals");
        o = realOfDouble(pow(10, d));
      }
      parts.push_back({mkEq(ra, rb), nullptr});
      i += m;
      continue;
    }
    A ba = cellBV(a), bb = cellBV(b);
    // widen over one whole value when both sides allow it (equality only)
    parts.push_back({mkCmp(EQ, ba, bb), mkCmp(ULT, ba, bb)});
    i++;
  }
  for (size_t i = parts.size(); i-- > 0;) {
    A l = parts[i].lt ? parts[i].lt : mkbool(false);
    lt = mkIte(parts[i].eq, lt, l);
    eq = mkAnd(parts[i].eq, eq);
  }
  // equality of whole integers is cheaper to solve than bytewise equality
  if (n == 2 || n == 4 || n == 8) {
    Type *t = Type::getIntNTy(M->getContext(), n * 8);
    Val a = loadObj(x, ox, t), b = loadObj(y, oy, t);
    if ((a.k == K_CI || a.k == K_SI) && (b.k == K_CI || b.k == K_SI)) eq = mkCmp(EQ, toBV(a), toBV(b));
  } else if (n % 4 == 0) {
    Type *t = Type::getInt32Ty(M->getContext());
    A e = mkbool(true);
    bool ok = true;
    for (uint64_t i = 0; i < n && ok; i += 4) {
      Val a = loadObj(x, ox + i, t), b = loadObj(y, oy + i, t);
      if ((a.k == K_CI || a.k == K_SI) && (b.k == K_CI || b.k == K_SI)) e = mkAnd(e, mkCmp(EQ, toBV(a), toBV(b)));
      else ok = false;
    }
    if (ok) eq = e;
  }
  return Val::si(mkIte(eq, bvnum(0, 32), mkIte(lt, bvnum(-1, 32), bvnum(1, 32))), 32);
}
void Engine::freeObj(State &s, Val p, uint8_t how, const char *what) {
  if (p.k != K_CI) p = conc(s, p);
  if (p.c == 0) return;
  Obj *o = obj(s, p.c);
  if (!o || o->kind != 2 || o->base != p.c)
    fatal(s, "memory", std::string(what) + " of a pointer that is not a live heap block");
  if (o->how != how)
    fatal(s, "memory", std::string(what) + " does not match the allocation function");
  s.heapBytes -= o->data.size();
  s.heap.clear(p.c >> SLOT);
}
