// Values, memory and execution state.
#pragma once
#include "expr.hh"
#include <llvm/IR/Instructions.h>
#include <memory>

enum VK : uint8_t { K_CI, K_SI, K_CF, K_SR, K_RAW, K_AGG };

struct Cell { // one byte
  uint8_t kind; // 0 concrete, 1 byte idx of a BV, 2 byte idx of a real
  uint8_t idx;
  uint8_t byte;
  uint8_t n;   // reals: size of the stored float (4 / 8)
  uint8_t log; // reals: the float is log10(a)
  A a;
};
struct Agg;
struct Val {
  VK k;
  uint8_t log;
  uint16_t w;
  union {
    uint64_t c;
    A a;
    const Cell *raw; // w/8 cells
    const Agg *agg;
  };
  static Val ci(uint64_t v, unsigned w) { Val r; r.k = K_CI; r.log = 0; r.w = w; r.c = v & maskw(w); return r; }
  static Val si(A a, unsigned w) {
    uint64_t v;
    if (w == 1) {
      if (isTrue(a)) return ci(1, 1);
      if (isFalse(a)) return ci(0, 1);
    } else if (w <= 64 && isNum(a, &v)) return ci(v, w);
    Val r; r.k = K_SI; r.log = 0; r.w = w; r.a = a; return r;
  }
  static Val cf(double d, unsigned w) {
    Val r; r.k = K_CF; r.log = 0; r.w = w; r.c = 0;
    if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); r.c = u; }
    else memcpy(&r.c, &d, 8);
    return r;
  }
  static Val cfbits(uint64_t b, unsigned w) { Val r; r.k = K_CF; r.log = 0; r.w = w; r.c = b; return r; }
  static Val sr(A a, unsigned w, bool log = false);
  double d() const {
    if (w == 32) { float f; uint32_t u = (uint32_t)c; memcpy(&f, &u, 4); return f; }
    double x; memcpy(&x, &c, 8); return x;
  }
  bool conc() const { return k == K_CI || k == K_CF; }
};
struct Agg { std::vector<Val> v; };
Val mkagg(std::vector<Val> v, unsigned w = 0);

struct Obj {
  int rc = 1;
  uint8_t kind; // 0 global, 1 constant, 2 heap, 3 stack, 4 function
  uint8_t how;  // 'm' malloc, 'n' new, 'a' new[]
  uint64_t base;
  std::vector<uint8_t> data;
  std::vector<Cell> sym; // empty or same size as data
  Obj *clone() const {
    Obj *o = new Obj(*this);
    o->rc = 1;
    return o;
  }
};
const int CH = 64;
struct Chunk {
  int rc = 1;
  Obj *o[CH];
};
struct Table { // copy-on-write vector of objects
  std::vector<Chunk *> ch;
  size_t n = 0;
  Table() {}
  Table(const Table &t) : ch(t.ch), n(t.n) { for (auto c : ch) c->rc++; }
  Table &operator=(const Table &) = delete;
  ~Table() {
    for (auto c : ch)
      drop(c);
  }
  static void drop(Chunk *c) {
    if (--c->rc) return;
    for (int i = 0; i < CH; i++)
      if (c->o[i] && !--c->o[i]->rc) delete c->o[i];
    delete c;
  }
  Obj *get(size_t i) const { return i < n ? ch[i / CH]->o[i % CH] : nullptr; }
  Chunk *own(size_t k) {
    Chunk *c = ch[k];
    if (c->rc > 1) {
      Chunk *d = new Chunk;
      for (int i = 0; i < CH; i++) {
        d->o[i] = c->o[i];
        if (d->o[i]) d->o[i]->rc++;
      }
      c->rc--;
      ch[k] = d;
      c = d;
    }
    return c;
  }
  Obj *wr(size_t i) {
    Chunk *c = own(i / CH);
    Obj *&o = c->o[i % CH];
    if (o->rc > 1) {
      Obj *p = o->clone();
      o->rc--;
      o = p;
    }
    return o;
  }
  size_t add(Obj *o) {
    if (n % CH == 0) {
      Chunk *c = new Chunk;
      memset(c->o, 0, sizeof c->o);
      ch.push_back(c);
    }
    own(n / CH)->o[n % CH] = o;
    return n++;
  }
  void clear(size_t i) {
    Chunk *c = own(i / CH);
    Obj *&o = c->o[i % CH];
    if (o && !--o->rc) delete o;
    o = nullptr;
  }
  void popTo(size_t m) { // shrink (stack objects)
    while (n > m) {
      n--;
      clear(n);
      if (n % CH == 0) {
        drop(ch.back());
        ch.pop_back();
      }
    }
  }
};
const uint64_t STK = 0x40000000ull; // id space of stack objects
const unsigned SLOT = 32;

struct PCNode {
  A c;
  std::shared_ptr<PCNode> up;
  int depth;
};
typedef std::shared_ptr<PCNode> PC;

struct Model {
  Z3_model m;
  std::unordered_map<A, A> memo;
  Model(Z3_model x) : m(x) { Z3_model_inc_ref(C, m); }
  ~Model() { Z3_model_dec_ref(C, m); }
};

struct Op { bool isreg; uint32_t reg; Val c; };
struct Fn;
struct BBk;
struct Ins {
  unsigned op;
  uint32_t dst = 0;
  unsigned w = 0, w2 = 0;
  unsigned pred = 0;
  int64_t off = 0;
  std::vector<Op> ops;
  std::vector<std::pair<int, int64_t>> sc; // GEP: operand, scale
  std::vector<unsigned> idx;               // extract/insertvalue
  llvm::Type *ty = nullptr, *ty2 = nullptr;
  Fn *callee = nullptr;
  int bb1 = -1, bb2 = -1;
  int intr = 0;
  llvm::Instruction *I = nullptr;
};
struct Phi { uint32_t dst; std::vector<std::pair<int, Op>> in; };
struct BBk {
  std::vector<Phi> phis;
  std::vector<Ins> ins;
  bool hit = false;
};
struct Fn {
  llvm::Function *F = nullptr;
  std::string name;
  bool ready = false;
  int builtin = 0;
  uint32_t nregs = 0;
  uint64_t addr = 0;
  std::vector<BBk> bbs;
  uint64_t calls = 0;
};

struct Frame {
  Fn *fn;
  int bb = 0, ip = 0;
  std::vector<Val> regs;
  const Ins *site = nullptr; // call in the caller
  size_t stk = 0;            // stack table size at entry
  std::vector<Val> va;
};
struct Exc { uint64_t obj, ti; };
struct Input { std::string name; A a; int kind; unsigned w; }; // kind 0 int, 1 real
struct State {
  uint64_t id = 0;
  std::vector<Frame> st;
  Table heap, stk;
  PC pc;
  std::shared_ptr<Model> model;
  std::vector<Exc> caught;
  Exc cur{0, 0};
  std::vector<Input> inputs;
  std::unordered_map<std::string, int> ncount;
  std::map<A, std::shared_ptr<std::vector<uint64_t>>> dom;
  std::set<A> implied;
  std::vector<std::string> notes;
  uint64_t steps = 0;
  int exitOK = 0;
  bool approx = false;
  uint64_t heapBytes = 0;
};
