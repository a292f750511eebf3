#include "symx.hh"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DerivedTypes.h>
using namespace llvm;

A Engine::toBV(const Val &v) {
  if (v.k == K_CI) return bvnum(v.c, v.w);
  if (v.k == K_SI) return v.w == 1 ? bool2bv(v.a, 1) : v.a;
  fprintf(stderr, "symx: toBV of kind %d\n", v.k);
  throw EndPath{END_INCOMPLETE};
}
A Engine::toBool(const Val &v) {
  if (v.k == K_CI) return mkbool(v.c & 1);
  return v.a;
}
static Val rawSub(const Val &v, unsigned from, unsigned n, unsigned w) {
  Cell *p = new Cell[(w + 7) / 8];
  for (unsigned i = 0; i < (w + 7) / 8; i++) {
    if (from + i < v.w / 8u && i < n) p[i] = v.raw[from + i];
    else memset((void *)&p[i], 0, sizeof(Cell));
  }
  Val r;
  r.k = K_RAW; r.log = 0; r.w = w; r.raw = p;
  return r;
}
static bool rawPlain(const Val &v) { // no real bytes
  for (unsigned i = 0; i < v.w / 8u; i++)
    if (v.raw[i].kind == 2) return false;
  return true;
}
static Val rawSimpl(const Val &v) { // RAW of <=64 bits without reals -> int
  if (v.k != K_RAW || v.w > 64 || !rawPlain(v)) return v;
  A a = nullptr;
  bool conc = true;
  uint64_t x = 0;
  for (unsigned i = 0; i < v.w / 8u; i++) {
    const Cell &c = v.raw[i];
    A b = c.kind ? mkExtract(c.a, c.idx * 8 + 7, c.idx * 8) : bvnum(c.byte, 8);
    if (c.kind) conc = false;
    else x |= (uint64_t)c.byte << (8 * i);
    a = i ? mkConcat(b, a) : b;
  }
  return conc ? Val::ci(x, v.w) : Val::si(a, v.w);
}
Val Engine::rawToInt(State &s, Val v) {
  if (v.k != K_RAW) return v;
  Val r = rawSimpl(v);
  if (r.k != K_RAW) return r;
  if (v.w > 64) incomplete(s, "wide integer arithmetic");
  // reals: fix their value
  uint64_t x = 0;
  for (unsigned i = 0; i < v.w / 8u; i++) {
    const Cell &c = v.raw[i];
    uint8_t b = c.byte;
    if (c.kind == 1) b = concBV(s, mkExtract(c.a, c.idx * 8 + 7, c.idx * 8));
    if (c.kind == 2) {
      double d = concReal(s, c.a);
      if (c.log) d = log10(d);
      Val f = Val::cf(d, c.n * 8);
      b = f.c >> (8 * c.idx);
    }
    x |= (uint64_t)b << (8 * i);
  }
  return Val::ci(x, v.w);
}
Val Engine::conc(State &s, Val v) {
  switch (v.k) {
  case K_CI: case K_CF: return v;
  case K_SI:
    if (v.w == 1) return Val::ci(decide(s, v.a), 1);
    return Val::ci(concBV(s, v.a), v.w);
  case K_SR: {
    double d = concReal(s, v.a);
    return Val::cf(v.log ? log10(d) : d, v.w);
  }
  case K_RAW: return rawToInt(s, v);
  default: incomplete(s, "aggregate where a scalar was expected");
  }
}
// float operand -> CF or SR
Val Engine::fnorm(State &s, Val v) {
  if (v.k == K_CF || v.k == K_SR) return v;
  if (v.k == K_RAW) {
    Val i = rawToInt(s, v);
    i = conc(s, i);
    return Val::cfbits(i.c, v.w);
  }
  if (v.k == K_CI) return Val::cfbits(v.c, v.w);
  if (v.k == K_SI) return Val::cfbits(concBV(s, v.a), v.w);
  incomplete(s, "float operand");
}

static uint64_t cbin(unsigned op, uint64_t a, uint64_t b, unsigned w) {
  int64_t x = sextv(a, w), y = sextv(b, w);
  switch (op) {
  case Instruction::Add: return a + b;
  case Instruction::Sub: return a - b;
  case Instruction::Mul: return a * b;
  case Instruction::UDiv: return a / b;
  case Instruction::SDiv: return y == -1 ? 0 - a : (uint64_t)(x / y);
  case Instruction::URem: return a % b;
  case Instruction::SRem: return y == -1 ? 0 : (uint64_t)(x % y);
  case Instruction::Shl: return b >= w ? 0 : a << b;
  case Instruction::LShr: return b >= w ? 0 : a >> b;
  case Instruction::AShr: return (uint64_t)(x >> (b >= w ? w - 1 : b));
  case Instruction::And: return a & b;
  case Instruction::Or: return a | b;
  case Instruction::Xor: return a ^ b;
  }
  return 0;
}
Val Engine::bin(State &s, unsigned op, Val a, Val b, unsigned w) {
  if (a.k == K_AGG || b.k == K_AGG) {
    std::vector<Val> r;
    for (size_t i = 0; i < a.agg->v.size(); i++)
      r.push_back(bin(s, op, a.agg->v[i], b.agg->v[i], a.agg->v[i].w));
    return mkagg(r);
  }
  if (a.k == K_RAW || b.k == K_RAW) {
    if (b.k == K_CI && a.k == K_RAW && b.c % 8 == 0 && w % 8 == 0) {
      if (op == Instruction::LShr) return rawSimpl(rawSub(a, b.c / 8, w / 8, w));
      if (op == Instruction::Shl) {
        Cell *p = new Cell[w / 8];
        for (unsigned i = 0; i < w / 8; i++) {
          if (i < b.c / 8) memset((void *)&p[i], 0, sizeof(Cell));
          else p[i] = a.raw[i - b.c / 8];
        }
        Val r = a;
        r.raw = p;
        return rawSimpl(r);
      }
    }
    if (op == Instruction::Or || op == Instruction::Add || op == Instruction::And || op == Instruction::Xor) {
      // bytewise when one side's byte is the neutral element
      auto cells = [&](const Val &v, std::vector<Cell> &c) {
        for (unsigned i = 0; i < w / 8; i++) {
          Cell z;
          memset((void *)&z, 0, sizeof z);
          if (v.k == K_RAW) z = v.raw[i];
          else if (v.k == K_CI) z.byte = i < 8 ? v.c >> (8 * i) : 0;
          else {
            z.kind = 1; z.a = v.a; z.idx = i;
            A b = mkExtract(v.a, i * 8 + 7, i * 8);
            uint64_t x;
            if (isNum(b, &x)) { z.kind = 0; z.byte = x; }
          }
          c.push_back(z);
        }
      };
      std::vector<Cell> ca, cb, cr;
      cells(a, ca);
      cells(b, cb);
      bool ok = true;
      for (unsigned i = 0; i < w / 8 && ok; i++) {
        if (op == Instruction::And) {
          if (!cb[i].kind && cb[i].byte == 0xff) cr.push_back(ca[i]);
          else if (!cb[i].kind && cb[i].byte == 0) cr.push_back(cb[i]);
          else if (!ca[i].kind && ca[i].byte == 0xff) cr.push_back(cb[i]);
          else if (!ca[i].kind && ca[i].byte == 0) cr.push_back(ca[i]);
          else ok = false;
        } else {
          if (!cb[i].kind && cb[i].byte == 0) cr.push_back(ca[i]);
          else if (!ca[i].kind && ca[i].byte == 0) cr.push_back(cb[i]);
          else ok = false;
        }
      }
      if (ok) {
        Cell *p = new Cell[w / 8];
        for (unsigned i = 0; i < w / 8; i++) p[i] = cr[i];
        Val r;
        r.k = K_RAW; r.log = 0; r.w = w; r.raw = p;
        return rawSimpl(r);
      }
    }
    a = rawToInt(s, a);
    b = rawToInt(s, b);
  }
  bool isdiv = op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem;
  if (a.k == K_CI && b.k == K_CI) {
    if (isdiv && b.c == 0) fatal(s, "arithmetic", "integer division by zero");
    return Val::ci(cbin(op, a.c, b.c, w), w);
  }
  if (w == 1) {
    A x = toBool(a), y = toBool(b);
    switch (op) {
    case Instruction::And: case Instruction::Mul: return Val::si(mkAnd(x, y), 1);
    case Instruction::Or: return Val::si(mkOr(x, y), 1);
    case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return Val::si(mkIte(x, mkNot(y), y), 1);
    default: incomplete(s, "i1 arithmetic");
    }
  }
  if (w > 64) incomplete(s, "wide integer arithmetic");
  if (isdiv && b.k == K_SI && decide(s, mkCmp(EQ, b.a, bvnum(0, w))))
    fatal(s, "arithmetic", "integer division by zero");
  if (isdiv && b.k == K_CI && b.c == 0) fatal(s, "arithmetic", "integer division by zero");
  A x = toBV(a), y = toBV(b);
  BinOp o;
  switch (op) {
  case Instruction::Add: o = ADD; break;
  case Instruction::Sub: o = SUB; break;
  case Instruction::Mul: o = MUL; break;
  case Instruction::UDiv: o = UDIV; break;
  case Instruction::SDiv: o = SDIV; break;
  case Instruction::URem: o = UREM; break;
  case Instruction::SRem: o = SREM; break;
  case Instruction::Shl: o = SHL; break;
  case Instruction::LShr: o = LSHR; break;
  case Instruction::AShr: o = ASHR; break;
  case Instruction::And: o = AND; break;
  case Instruction::Or: o = OR; break;
  default: o = XOR;
  }
  return Val::si(mkBV(o, x, y), w);
}

Val Engine::icmp(State &s, unsigned pred, Val a, Val b, unsigned w) {
  if (a.k == K_AGG) {
    std::vector<Val> r;
    for (size_t i = 0; i < a.agg->v.size(); i++) r.push_back(icmp(s, pred, a.agg->v[i], b.agg->v[i], a.agg->v[i].w));
    return mkagg(r);
  }
  if (a.k == K_RAW || b.k == K_RAW) {
    // equality of the bit patterns of stored reals
    if ((pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) && w >= 32 && w <= 64) {
      unsigned n = w / 8;
      auto cell = [&](const Val &v, unsigned i) {
        Cell z;
        memset((void *)&z, 0, sizeof z);
        if (v.k == K_RAW) z = v.raw[i];
        else if (v.k == K_CI) z.byte = v.c >> (8 * i);
        else { z.kind = 1; z.a = v.a; z.idx = i; }
        return z;
      };
      A all = mkbool(true);
      bool ok = true;
      for (unsigned i = 0; i < n && ok;) {
        Cell x = cell(a, i), y = cell(b, i);
        if (x.kind == 2 || y.kind == 2) {
          unsigned m = x.kind == 2 ? x.n : y.n;
          if (i + m > n) { ok = false; break; }
          auto get = [&](const Val &v, A &r, bool &log) {
            Cell c = cell(v, i);
            if (c.kind == 2) {
              for (unsigned k = 0; k < m; k++) {
                Cell q = cell(v, i + k);
                if (q.kind != 2 || q.a != c.a || q.idx != k) return false;
              }
              r = c.a; log = c.log;
              return true;
            }
            uint64_t bits = 0;
            for (unsigned k = 0; k < m; k++) {
              Cell q = cell(v, i + k);
              if (q.kind) return false;
              bits |= (uint64_t)q.byte << (8 * k);
            }
            double d = Val::cfbits(bits, m * 8).d();
            if (!std::isfinite(d)) { r = nullptr; return true; }
            log = false;
            r = realOfDouble(d);
            return true;
          };
          A p, q;
          bool lp = false, lq = false;
          if (!get(a, p, lp) || !get(b, q, lq)) { ok = false; break; }
          if (!p || !q) all = mkbool(false);
          else {
            if (lp != lq) {
              double d;
              A &o = lp ? q : p;
              if (!realIsNum(o, &d) || fabs(d) > 300) { ok = false; break; }
              o = realOfDouble(pow(10, d));
            }
            all = mkAnd(all, mkEq(p, q));
          }
          i += m;
        } else {
          A p = x.kind ? mkExtract(x.a, x.idx * 8 + 7, x.idx * 8) : bvnum(x.byte, 8);
          A q = y.kind ? mkExtract(y.a, y.idx * 8 + 7, y.idx * 8) : bvnum(y.byte, 8);
          all = mkAnd(all, mkCmp(EQ, p, q));
          i++;
        }
      }
      if (ok) return Val::si(pred == CmpInst::ICMP_EQ ? all : mkNot(all), 1);
    }
    a = rawToInt(s, a);
    b = rawToInt(s, b);
  }
  Cmp p;
  switch (pred) {
  case CmpInst::ICMP_EQ: p = EQ; break;
  case CmpInst::ICMP_NE: p = NE; break;
  case CmpInst::ICMP_ULT: p = ULT; break;
  case CmpInst::ICMP_ULE: p = ULE; break;
  case CmpInst::ICMP_UGT: p = UGT; break;
  case CmpInst::ICMP_UGE: p = UGE; break;
  case CmpInst::ICMP_SLT: p = SLT; break;
  case CmpInst::ICMP_SLE: p = SLE; break;
  case CmpInst::ICMP_SGT: p = SGT; break;
  default: p = SGE;
  }
  if (a.k == K_CI && b.k == K_CI) {
    int64_t x = sextv(a.c, w), y = sextv(b.c, w);
    bool r = false;
    switch (p) {
    case EQ: r = a.c == b.c; break;
    case NE: r = a.c != b.c; break;
    case ULT: r = a.c < b.c; break;
    case ULE: r = a.c <= b.c; break;
    case UGT: r = a.c > b.c; break;
    case UGE: r = a.c >= b.c; break;
    case SLT: r = x < y; break;
    case SLE: r = x <= y; break;
    case SGT: r = x > y; break;
    case SGE: r = x >= y; break;
    }
    return Val::ci(r, 1);
  }
  if (w == 1 && (p == EQ || p == NE)) {
    A e = mkEq(toBool(a), toBool(b));
    return Val::si(p == EQ ? e : mkNot(e), 1);
  }
  return Val::si(mkCmp(p, toBV(a), toBV(b)), 1);
}

// ---- floats -------------------------------------------------------------
Val Engine::toLog(State &s, Val v) {
  if (v.k == K_SR && v.log) return v;
  if (v.k == K_CF && std::isfinite(v.d()) && fabs(v.d()) < 300) {
    Val r;
    r.k = K_SR; r.log = 1; r.w = v.w; r.a = realOfDouble(pow(10, v.d()));
    return r;
  }
  incomplete(s, "a linear symbolic real mixed with a logarithm");
}
Val Engine::fbin(State &s, unsigned op, Val a, Val b) {
  if (a.k == K_AGG || b.k == K_AGG) {
    std::vector<Val> r;
    for (size_t i = 0; i < a.agg->v.size(); i++) r.push_back(fbin(s, op, a.agg->v[i], b.agg->v[i]));
    return mkagg(r);
  }
  a = fnorm(s, a);
  b = fnorm(s, b);
  unsigned w = a.w;
  if (a.k == K_CF && b.k == K_CF) {
    if (w == 32) {
      float x = (float)a.d(), y = (float)b.d(), r = 0;
      switch (op) {
      case Instruction::FAdd: r = x + y; break;
      case Instruction::FSub: r = x - y; break;
      case Instruction::FMul: r = x * y; break;
      case Instruction::FDiv: r = x / y; break;
      case Instruction::FRem: r = fmodf(x, y); break;
      }
      return Val::cf(r, 32);
    }
    double x = a.d(), y = b.d(), r = 0;
    switch (op) {
    case Instruction::FAdd: r = x + y; break;
    case Instruction::FSub: r = x - y; break;
    case Instruction::FMul: r = x * y; break;
    case Instruction::FDiv: r = x / y; break;
    case Instruction::FRem: r = fmod(x, y); break;
    }
    return Val::cf(r, w);
  }
  bool nfa = a.k == K_CF && !std::isfinite(a.d()), nfb = b.k == K_CF && !std::isfinite(b.d());
  if (nfa || nfb) {
    double x = nfa ? a.d() : 1, y = nfb ? b.d() : 1;
    if (op == Instruction::FMul || op == Instruction::FDiv) {
      Val o = nfa ? b : a;
      Val neg = fcmp(s, CmpInst::FCMP_OLT, o, Val::cf(0, w)), zero = fcmp(s, CmpInst::FCMP_OEQ, o, Val::cf(0, w));
      if (decide(s, toBool(zero))) (nfa ? y : x) = 0;
      else if (decide(s, toBool(neg))) (nfa ? y : x) = -1;
    }
    switch (op) {
    case Instruction::FAdd: return Val::cf(x + y, w);
    case Instruction::FSub: return Val::cf(x - y, w);
    case Instruction::FMul: return Val::cf(x * y, w);
    default: return Val::cf(x / y, w);
    }
  }
  bool la = a.k == K_SR && a.log, lb = b.k == K_SR && b.log;
  if (la || lb) {
    if (op == Instruction::FAdd || op == Instruction::FSub) {
      if (b.k == K_CF && b.d() == 0) return a;
      if (a.k == K_CF && a.d() == 0 && op == Instruction::FAdd) return b;
      if ((la && lb) || a.k == K_CF || b.k == K_CF) {
        a = toLog(s, a);
        b = toLog(s, b);
        return Val::sr(mkR(op == Instruction::FAdd ? '*' : '/', a.a, b.a), w, true);
      }
    }
    if (op == Instruction::FMul && (a.k == K_CF || b.k == K_CF)) {
      Val l = la ? a : b;
      double k = la ? b.d() : a.d();
      if (k == 1) return l;
      if (k == 0) return Val::cf(0, w);
      if (k == (int)k && fabs(k) <= 16) {
        A r = l.a;
        for (int i = 1; i < fabs(k); i++) r = mkR('*', r, l.a);
        if (k < 0) r = mkR('/', realOfDouble(1), r);
        return Val::sr(r, w, true);
      }
    }
    if (op == Instruction::FDiv && b.k == K_CF && b.d() == 1) return a;
    // linear view of a logarithm: fix it
    a = conc(s, a);
    b = conc(s, b);
    return fbin(s, op, a, b);
  }
  A x = a.k == K_SR ? a.a : realOfDouble(a.d()), y = b.k == K_SR ? b.a : realOfDouble(b.d());
  char c = op == Instruction::FAdd ? '+' : op == Instruction::FSub ? '-' : op == Instruction::FMul ? '*' : '/';
  if (op == Instruction::FRem) incomplete(s, "frem of symbolic reals");
  if (c == '/') {
    A z = mkRCmp(REQ, y, realOfDouble(0));
    if (decide(s, z)) {
      Val az = a.k == K_CF ? a : Val::cf(decide(s, mkRCmp(REQ, x, realOfDouble(0))) ? 0.0 : decide(s, mkRCmp(RLT, x, realOfDouble(0))) ? -1.0 : 1.0, w);
      return Val::cf(az.d() / 0.0, w);
    }
  }
  return Val::sr(mkR(c, x, y), w);
}
Val Engine::fcmp(State &s, unsigned pred, Val a, Val b) {
  if (pred == CmpInst::FCMP_TRUE) return Val::ci(1, 1);
  if (pred == CmpInst::FCMP_FALSE) return Val::ci(0, 1);
  if (a.k == K_AGG) {
    std::vector<Val> r;
    for (size_t i = 0; i < a.agg->v.size(); i++) r.push_back(fcmp(s, pred, a.agg->v[i], b.agg->v[i]));
    return mkagg(r);
  }
  a = fnorm(s, a);
  b = fnorm(s, b);
  if (a.k == K_CF && !std::isfinite(a.d()) && b.k == K_SR) b = Val::cf(0, b.w);
  if (b.k == K_CF && !std::isfinite(b.d()) && a.k == K_SR) a = Val::cf(0, a.w);
  if (a.k == K_CF && b.k == K_CF) {
    double x = a.d(), y = b.d();
    bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (pred) {
    case CmpInst::FCMP_OEQ: r = x == y; break;
    case CmpInst::FCMP_OGT: r = x > y; break;
    case CmpInst::FCMP_OGE: r = x >= y; break;
    case CmpInst::FCMP_OLT: r = x < y; break;
    case CmpInst::FCMP_OLE: r = x <= y; break;
    case CmpInst::FCMP_ONE: r = !un && x != y; break;
    case CmpInst::FCMP_ORD: r = !un; break;
    case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_UEQ: r = un || x == y; break;
    case CmpInst::FCMP_UGT: r = un || x > y; break;
    case CmpInst::FCMP_UGE: r = un || x >= y; break;
    case CmpInst::FCMP_ULT: r = un || x < y; break;
    case CmpInst::FCMP_ULE: r = un || x <= y; break;
    case CmpInst::FCMP_UNE: r = un || x != y; break;
    }
    return Val::ci(r, 1);
  }
  if (pred == CmpInst::FCMP_ORD) return Val::ci(1, 1);
  if (pred == CmpInst::FCMP_UNO) return Val::ci(0, 1);
  bool la = a.k == K_SR && a.log, lb = b.k == K_SR && b.log;
  A x, y;
  if (la || lb) {
    // a logarithm compared with a constant far below / above any modelled one
    const Val &o = la ? b : a;
    if (o.k == K_CF && fabs(o.d()) >= 300) {
      Val z = Val::cf(0, 64), q = Val::cf(o.d(), 64);
      return la ? fcmp(s, pred, z, q) : fcmp(s, pred, q, z);
    }
    if (o.k == K_SR && !o.log) {
      a = conc(s, a);
      b = conc(s, b);
      return fcmp(s, pred, a, b);
    }
    x = toLog(s, a).a;
    y = toLog(s, b).a;
  } else {
    x = a.k == K_SR ? a.a : realOfDouble(a.d());
    y = b.k == K_SR ? b.a : realOfDouble(b.d());
  }
  A r;
  switch (pred) {
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = mkRCmp(REQ, x, y); break;
  case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkNot(mkRCmp(REQ, x, y)); break;
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = mkRCmp(RLT, x, y); break;
  case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = mkRCmp(RLE, x, y); break;
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = mkRCmp(RLT, y, x); break;
  default: r = mkRCmp(RLE, y, x);
  }
  return Val::si(r, 1);
}
Val Engine::log10v(State &s, Val v, double scale) { // log10(x)*scale
  v = fnorm(s, v);
  if (v.k == K_CF) {
    if (scale == 1) return Val::cf(v.w == 32 ? log10f((float)v.d()) : log10(v.d()), v.w);
    return Val::cf(log(v.d()), v.w);
  }
  if (v.log || scale != 1) return log10v(s, conc(s, v), scale);
  A zero = realOfDouble(0);
  if (decide(s, mkRCmp(REQ, v.a, zero))) return Val::cf(-INFINITY, v.w);
  if (decide(s, mkRCmp(RLT, v.a, zero))) return Val::cf(NAN, v.w);
  return Val::sr(v.a, v.w, true);
}
Val Engine::pow10v(State &s, Val v, double base) {
  v = fnorm(s, v);
  if (v.k == K_SR && v.log && base == 10) return Val::sr(v.a, v.w);
  v = conc(s, v);
  return Val::cf(pow(base, v.d()), v.w);
}

Val Engine::select(State &s, Val c, Val a, Val b) {
  if (c.k == K_AGG) {
    std::vector<Val> r;
    for (size_t i = 0; i < c.agg->v.size(); i++) r.push_back(select(s, c.agg->v[i], a.agg->v[i], b.agg->v[i]));
    return mkagg(r);
  }
  if (c.k == K_CI) return c.c & 1 ? a : b;
  bool v;
  if (known(s, c.a, v)) return v ? a : b;
  Val r;
  if (iteVals(c.a, a, b, r)) return r;
  return decide(s, c.a) ? a : b;
}

Val Engine::castOne(State &s, unsigned op, Val v, Type *from, Type *to) {
  unsigned w = to->isPointerTy() ? 64 : to->isFloatTy() ? 32 : to->isFloatingPointTy() ? 64 : to->getScalarSizeInBits();
  switch (op) {
  case Instruction::Trunc:
    if (v.k == K_CI) return Val::ci(v.c, w);
    if (v.k == K_RAW) {
      if (w % 8 == 0) return rawSimpl(rawSub(v, 0, w / 8, w));
      v = rawToInt(s, v);
      if (v.k == K_CI) return Val::ci(v.c, w);
    }
    if (w == 1) return Val::si(bv2bool(v.a), 1);
    return Val::si(mkTrunc(v.a, w), w);
  case Instruction::ZExt:
    if (v.k == K_CI && w <= 64) return Val::ci(v.c, w);
    if (v.k == K_RAW || w > 64) {
      Cell *p = new Cell[w / 8];
      for (unsigned i = 0; i < w / 8; i++) {
        memset((void *)&p[i], 0, sizeof(Cell));
        if (i >= v.w / 8u) continue;
        if (v.k == K_RAW) p[i] = v.raw[i];
        else if (v.k == K_CI) p[i].byte = v.c >> (8 * i);
        else { p[i].kind = 1; p[i].a = v.a; p[i].idx = i; }
      }
      Val r;
      r.k = K_RAW; r.log = 0; r.w = w; r.raw = p;
      return r;
    }
    if (v.w == 1) return Val::si(bool2bv(v.a, w), w);
    return Val::si(mkZext(v.a, w), w);
  case Instruction::SExt:
    if (v.k == K_RAW) v = rawToInt(s, v);
    if (w > 64) incomplete(s, "wide integer arithmetic");
    if (v.k == K_CI) return Val::ci((uint64_t)sextv(v.c, v.w), w);
    if (v.w == 1) return Val::si(mkIte(v.a, bvnum(~0ull, w), bvnum(0, w)), w);
    return Val::si(mkSext(v.a, w), w);
  case Instruction::PtrToInt: case Instruction::IntToPtr:
    if (v.w == w) return v;
    return castOne(s, v.w > w ? Instruction::Trunc : Instruction::ZExt, v, from, to);
  case Instruction::BitCast: {
    if (from->isVectorTy() || to->isVectorTy() || v.k == K_AGG) {
      // through memory
      uint64_t n = std::max(DL->getTypeStoreSize(from), DL->getTypeStoreSize(to));
      Obj o;
      o.data.assign(n, 0);
      storeObj(&o, 0, v, from);
      return loadObj(&o, 0, to);
    }
    bool fi = from->isFloatingPointTy(), ti = to->isFloatingPointTy();
    if (fi == ti) return v;
    if (ti) {
      if (v.k == K_CI) return Val::cfbits(v.c, w);
      if (v.k == K_RAW) {
        Obj o;
        o.data.assign(w / 8, 0);
        for (unsigned i = 0; i < w / 8; i++) putCell(&o, i, v.raw[i]);
        return loadObj(&o, 0, to);
      }
      return Val::cfbits(concBV(s, v.a), w);
    }
    if (v.k == K_CF) return Val::ci(v.c, w);
    Obj o;
    o.data.assign(w / 8, 0);
    storeObj(&o, 0, v, from);
    return loadObj(&o, 0, to);
  }
  case Instruction::FPTrunc: case Instruction::FPExt:
    v = fnorm(s, v);
    if (v.k == K_CF) return Val::cf(v.d(), w);
    v.w = w;
    return v;
  case Instruction::SIToFP: case Instruction::UIToFP: {
    if (v.k == K_RAW) v = rawToInt(s, v);
    bool sg = op == Instruction::SIToFP;
    auto cv = [&](uint64_t x) { return sg ? (double)sextv(x, v.w) : (double)x; };
    auto cvf = [&](uint64_t x) { return w == 32 ? (sg ? (double)(float)sextv(x, v.w) : (double)(float)x) : cv(x); };
    if (v.k == K_CI) return Val::cf(cvf(v.c), w);
    if (v.w == 1) return Val::sr(mkIte(v.a, realOfDouble(sg ? -1 : 1), realOfDouble(0)), w);
    std::vector<uint64_t> vals;
    if (!enumVals(s, v.a, vals, 64)) return Val::cf(cvf(concBV(s, v.a)), w);
    A r = realOfDouble(cvf(vals[0]));
    for (size_t i = 1; i < vals.size(); i++)
      r = mkIte(mkCmp(EQ, v.a, bvnum(vals[i], v.w)), realOfDouble(cvf(vals[i])), r);
    return Val::sr(r, w);
  }
  case Instruction::FPToSI: case Instruction::FPToUI: {
    v = fnorm(s, v);
    if (v.k == K_SR && v.log) v = conc(s, v);
    if (v.k == K_CF) {
      double d = v.d();
      if (!(fabs(d) < 9.3e18)) return Val::ci(op == Instruction::FPToSI ? 1ull << (w - 1) : 0, w);
      return Val::ci((uint64_t)(int64_t)d, w);
    }
    // fork over the feasible truncations
    for (int it = 0; it < 200; it++) {
      A r = evalA(s, v.a);
      double d = Z3_get_numeral_double(C, r);
      long long t = (long long)d;
      A lo = realOfDouble((double)t), hi = realOfDouble((double)(t >= 0 ? t + 1 : t - 1));
      A in = t > 0 ? mkAnd(mkRCmp(RLE, lo, v.a), mkRCmp(RLT, v.a, hi))
             : t < 0 ? mkAnd(mkRCmp(RLE, v.a, lo), mkRCmp(RLT, hi, v.a))
                     : mkAnd(mkRCmp(RLT, realOfDouble(-1), v.a), mkRCmp(RLT, v.a, realOfDouble(1)));
      if (decide(s, in)) return Val::ci((uint64_t)t, w);
    }
    incomplete(s, "fptosi");
  }
  }
  incomplete(s, "cast");
}
Val Engine::castv(State &s, const Ins &i, Val v) {
  if (v.k == K_AGG && i.op != Instruction::BitCast) {
    std::vector<Val> r;
    for (auto &x : v.agg->v) r.push_back(castOne(s, i.op, x, i.ty->getScalarType(), i.ty2->getScalarType()));
    return mkagg(r);
  }
  return castOne(s, i.op, v, i.ty, i.ty2);
}
