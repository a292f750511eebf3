#include "expr.hh"

Z3_context C;
Z3_sort sBool, sReal;

uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
int64_t sextv(uint64_t v, unsigned w) {
  if (w >= 64)
    return (int64_t)v;
  v &= maskw(w);
  if (v >> (w - 1))
    v |= ~maskw(w);
  return (int64_t)v;
}
Z3_sort bvsort(unsigned w) {
  static std::unordered_map<unsigned, Z3_sort> m;
  auto &s = m[w];
  if (!s) {
    s = Z3_mk_bv_sort(C, w);
    Z3_inc_ref(C, Z3_sort_to_ast(C, s));
  }
  return s;
}
A bvnum(uint64_t v, unsigned w) {
  return keep(Z3_mk_unsigned_int64(C, v & maskw(w), bvsort(w)));
}
A mkbool(bool b) { return keep(b ? Z3_mk_true(C) : Z3_mk_false(C)); }

A mkNot(A a) {
  if (isTrue(a))
    return mkbool(false);
  if (isFalse(a))
    return mkbool(true);
  if (dkind(a) == Z3_OP_NOT)
    return arg(a, 0);
  return keep(Z3_mk_not(C, a));
}
A mkAnd(A a, A b) {
  if (isFalse(a) || isFalse(b))
    return mkbool(false);
  if (isTrue(a) || a == b)
    return b;
  if (isTrue(b))
    return a;
  if (mkNot(a) == b)
    return mkbool(false);
  A v[2] = {a, b};
  return keep(Z3_mk_and(C, 2, v));
}
A mkOr(A a, A b) {
  if (isTrue(a) || isTrue(b))
    return mkbool(true);
  if (isFalse(a) || a == b)
    return b;
  if (isFalse(b))
    return a;
  if (mkNot(a) == b)
    return mkbool(true);
  A v[2] = {a, b};
  return keep(Z3_mk_or(C, 2, v));
}
A mkIte(A c, A a, A b) {
  if (isTrue(c) || a == b)
    return a;
  if (isFalse(c))
    return b;
  if (Z3_get_sort(C, a) == sBool) {
    if (isTrue(a) && isFalse(b))
      return c;
    if (isFalse(a) && isTrue(b))
      return mkNot(c);
    if (isTrue(a))
      return mkOr(c, b);
    if (isFalse(a))
      return mkAnd(mkNot(c), b);
    if (isTrue(b))
      return mkOr(mkNot(c), a);
    if (isFalse(b))
      return mkAnd(c, a);
  }
  if (dkind(a) == Z3_OP_ITE && arg(a, 0) == c)
    return mkIte(c, arg(a, 1), b);
  if (dkind(b) == Z3_OP_ITE && arg(b, 0) == c)
    return mkIte(c, a, arg(b, 2));
  return keep(Z3_mk_ite(C, c, a, b));
}
unsigned bvw(A a) {
  Z3_sort s = Z3_get_sort(C, a);
  if (Z3_get_sort_kind(C, s) != Z3_BV_SORT)
    return 1;
  return Z3_get_bv_sort_size(C, s);
}

// ITE trees whose leaves are all numerals: map a function over the leaves.
static bool leafy(A a, int &budget) {
  if (--budget < 0)
    return false;
  uint64_t v;
  if (isNum(a, &v))
    return true;
  if (dkind(a) == Z3_OP_ITE)
    return leafy(arg(a, 1), budget) && leafy(arg(a, 2), budget);
  return false;
}
static bool leafyIte(A a) {
  if (dkind(a) != Z3_OP_ITE)
    return false;
  int b = 200;
  return leafy(a, b);
}
template <class F> static A mapLeaves(A a, F f, std::unordered_map<A, A> &memo) {
  uint64_t v;
  if (isNum(a, &v))
    return f(v);
  auto it = memo.find(a);
  if (it != memo.end())
    return it->second;
  A r = mkIte(arg(a, 0), mapLeaves(arg(a, 1), f, memo),
              mapLeaves(arg(a, 2), f, memo));
  memo[a] = r;
  return r;
}
template <class F> static A mapL(A a, F f) {
  std::unordered_map<A, A> memo;
  return mapLeaves(a, f, memo);
}

static bool cmpc(Cmp p, uint64_t a, uint64_t b, unsigned w) {
  int64_t x = sextv(a, w), y = sextv(b, w);
  switch (p) {
  case EQ: return a == b;
  case NE: return a != b;
  case ULT: return a < b;
  case ULE: return a <= b;
  case UGT: return a > b;
  case UGE: return a >= b;
  case SLT: return x < y;
  case SLE: return x <= y;
  case SGT: return x > y;
  case SGE: return x >= y;
  }
  return false;
}
static uint64_t binc(BinOp o, uint64_t a, uint64_t b, unsigned w, bool &ok) {
  ok = true;
  int64_t x = sextv(a, w), y = sextv(b, w);
  uint64_t m = maskw(w);
  switch (o) {
  case ADD: return (a + b) & m;
  case SUB: return (a - b) & m;
  case MUL: return (a * b) & m;
  case UDIV: if (!b) { ok = false; return 0; } return a / b;
  case SDIV: if (!y || (y == -1)) { if (y == -1) return (0 - a) & m; ok = false; return 0; } return (uint64_t)(x / y) & m;
  case UREM: if (!b) { ok = false; return 0; } return a % b;
  case SREM: if (!y) { ok = false; return 0; } if (y == -1) return 0; return (uint64_t)(x % y) & m;
  case SHL: return b >= w ? 0 : (a << b) & m;
  case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m;
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  }
  return 0;
}

A mkEq(A a, A b) {
  if (a == b)
    return mkbool(true);
  Z3_sort s = Z3_get_sort(C, a);
  if (s == sReal)
    return mkRCmp(REQ, a, b);
  if (s == sBool)
    return mkIte(a, b, mkNot(b));
  return mkCmp(EQ, a, b);
}

A mkCmp(Cmp p, A a, A b) {
  if (p == NE)
    return mkNot(mkCmp(EQ, a, b));
  if (p == UGT) return mkCmp(ULT, b, a);
  if (p == UGE) return mkCmp(ULE, b, a);
  if (p == SGT) return mkCmp(SLT, b, a);
  if (p == SGE) return mkCmp(SLE, b, a);
  unsigned w = bvw(a);
  uint64_t x, y;
  bool na = isNum(a, &x), nb = isNum(b, &y);
  if (na && nb)
    return mkbool(cmpc(p, x, y, w));
  if (a == b)
    return mkbool(p == EQ || p == ULE || p == SLE);
  if (nb && leafyIte(a))
    return mapL(a, [&](uint64_t v) { return mkbool(cmpc(p, v, y, w)); });
  if (na && leafyIte(b))
    return mapL(b, [&](uint64_t v) { return mkbool(cmpc(p, x, v, w)); });
  if (p == EQ) {
    // compare of zext with a constant
    A z = nb ? a : b;
    if ((na || nb) && dkind(z) == Z3_OP_ZERO_EXT) {
      A in = arg(z, 0);
      unsigned iw = bvw(in);
      uint64_t c = nb ? y : x;
      if (c & ~maskw(iw))
        return mkbool(false);
      return mkCmp(EQ, in, bvnum(c, iw));
    }
    if (na) std::swap(a, b);
    return keep(Z3_mk_eq(C, a, b));
  }
  switch (p) {
  case ULT: return keep(Z3_mk_bvult(C, a, b));
  case ULE: return keep(Z3_mk_bvule(C, a, b));
  case SLT: return keep(Z3_mk_bvslt(C, a, b));
  default: return keep(Z3_mk_bvsle(C, a, b));
  }
}

A mkBV(BinOp op, A a, A b) {
  unsigned w = bvw(a);
  uint64_t x, y;
  bool na = isNum(a, &x), nb = isNum(b, &y), ok;
  if (na && nb) {
    uint64_t r = binc(op, x, y, w, ok);
    if (ok)
      return bvnum(r, w);
  }
  if (nb && y == 0) {
    if (op == ADD || op == SUB || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR)
      return a;
    if (op == AND || op == MUL)
      return b;
  }
  if (na && x == 0) {
    if (op == ADD || op == OR || op == XOR)
      return b;
    if (op == AND || op == MUL || op == SHL || op == LSHR)
      return a;
  }
  if (nb && y == 1 && (op == MUL || op == UDIV || op == SDIV))
    return a;
  if (na && x == 1 && op == MUL)
    return b;
  if (nb && y == maskw(w) && op == AND)
    return a;
  if (nb && leafyIte(a)) {
    bool bad = false;
    A r = mapL(a, [&](uint64_t v) {
      bool k;
      uint64_t q = binc(op, v, y, w, k);
      if (!k) bad = true;
      return bvnum(q, w);
    });
    if (!bad) return r;
  }
  if (na && leafyIte(b)) {
    bool bad = false;
    A r = mapL(b, [&](uint64_t v) {
      bool k;
      uint64_t q = binc(op, x, v, w, k);
      if (!k) bad = true;
      return bvnum(q, w);
    });
    if (!bad) return r;
  }
  if (op == SUB && a == b)
    return bvnum(0, w);
  if (op == SUB && nb)
    return mkBV(ADD, a, bvnum(0 - y, w));
  if (op == ADD && na) {
    std::swap(a, b);
    std::swap(x, y);
    std::swap(na, nb);
  }
  if (op == ADD && nb && dkind(a) == Z3_OP_BADD) {
    uint64_t z;
    if (Z3_get_app_num_args(C, Z3_to_app(C, a)) == 2 && isNum(arg(a, 1), &z))
      return mkBV(ADD, arg(a, 0), bvnum(y + z, w));
  }
  switch (op) {
  case ADD: return keep(Z3_mk_bvadd(C, a, b));
  case SUB: return keep(Z3_mk_bvsub(C, a, b));
  case MUL: return keep(Z3_mk_bvmul(C, a, b));
  case UDIV: return keep(Z3_mk_bvudiv(C, a, b));
  case SDIV: return keep(Z3_mk_bvsdiv(C, a, b));
  case UREM: return keep(Z3_mk_bvurem(C, a, b));
  case SREM: return keep(Z3_mk_bvsrem(C, a, b));
  case SHL: return keep(Z3_mk_bvshl(C, a, b));
  case LSHR: return keep(Z3_mk_bvlshr(C, a, b));
  case ASHR: return keep(Z3_mk_bvashr(C, a, b));
  case AND: return keep(Z3_mk_bvand(C, a, b));
  case OR: return keep(Z3_mk_bvor(C, a, b));
  case XOR: return keep(Z3_mk_bvxor(C, a, b));
  }
  return a;
}
A mkZext(A a, unsigned w) {
  unsigned k = bvw(a);
  if (k == w) return a;
  uint64_t x;
  if (isNum(a, &x)) return bvnum(x, w);
  if (leafyIte(a)) return mapL(a, [&](uint64_t v) { return bvnum(v, w); });
  if (dkind(a) == Z3_OP_ZERO_EXT) return mkZext(arg(a, 0), w);
  return keep(Z3_mk_zero_ext(C, w - k, a));
}
A mkSext(A a, unsigned w) {
  unsigned k = bvw(a);
  if (k == w) return a;
  uint64_t x;
  if (isNum(a, &x)) return bvnum((uint64_t)sextv(x, k), w);
  if (leafyIte(a)) return mapL(a, [&](uint64_t v) { return bvnum((uint64_t)sextv(v, k), w); });
  if (dkind(a) == Z3_OP_ZERO_EXT && bvw(arg(a, 0)) < k) return mkZext(arg(a, 0), w);
  return keep(Z3_mk_sign_ext(C, w - k, a));
}
A mkTrunc(A a, unsigned w) { return mkExtract(a, w - 1, 0); }
A mkExtract(A a, unsigned hi, unsigned lo) {
  unsigned k = bvw(a);
  if (lo == 0 && hi == k - 1) return a;
  uint64_t x;
  unsigned w = hi - lo + 1;
  if (k <= 64 && isNum(a, &x)) return bvnum(x >> lo, w);
  if (k <= 64 && leafyIte(a)) return mapL(a, [&](uint64_t v) { return bvnum(v >> lo, w); });
  Z3_decl_kind d = dkind(a);
  if (d == Z3_OP_ZERO_EXT || d == Z3_OP_SIGN_EXT) {
    unsigned iw = bvw(arg(a, 0));
    if (hi < iw) return mkExtract(arg(a, 0), hi, lo);
    if (lo >= iw && d == Z3_OP_ZERO_EXT) return bvnum(0, w);
    if (lo == 0 && hi >= iw) return d == Z3_OP_ZERO_EXT ? mkZext(arg(a, 0), w) : mkSext(arg(a, 0), w);
  }
  if (d == Z3_OP_CONCAT && Z3_get_app_num_args(C, Z3_to_app(C, a)) == 2) {
    A h = arg(a, 0), l = arg(a, 1);
    unsigned lw = bvw(l);
    if (hi < lw) return mkExtract(l, hi, lo);
    if (lo >= lw) return mkExtract(h, hi - lw, lo - lw);
  }
  if (d == Z3_OP_EXTRACT) {
    Z3_func_decl f = Z3_get_app_decl(C, Z3_to_app(C, a));
    unsigned l2 = Z3_get_decl_int_parameter(C, f, 1);
    return mkExtract(arg(a, 0), hi + l2, lo + l2);
  }
  if (d == Z3_OP_ITE && lo == 0) {
    // keep ites outside so narrow conditions stay simple
  }
  return keep(Z3_mk_extract(C, hi, lo, a));
}
A mkConcat(A hi, A lo) {
  uint64_t x, y;
  unsigned wh = bvw(hi), wl = bvw(lo);
  if (wh + wl <= 64 && isNum(hi, &x) && isNum(lo, &y))
    return bvnum((x << wl) | y, wh + wl);
  if (isNum(hi, &x) && x == 0 && wh + wl <= 64)
    return mkZext(lo, wh + wl);
  if (dkind(hi) == Z3_OP_EXTRACT && dkind(lo) == Z3_OP_EXTRACT && arg(hi, 0) == arg(lo, 0)) {
    Z3_func_decl f = Z3_get_app_decl(C, Z3_to_app(C, hi)), g = Z3_get_app_decl(C, Z3_to_app(C, lo));
    unsigned hh = Z3_get_decl_int_parameter(C, f, 0), hl = Z3_get_decl_int_parameter(C, f, 1);
    unsigned lh = Z3_get_decl_int_parameter(C, g, 0), ll = Z3_get_decl_int_parameter(C, g, 1);
    if (hl == lh + 1) return mkExtract(arg(hi, 0), hh, ll);
  }
  return keep(Z3_mk_concat(C, hi, lo));
}
A bool2bv(A b, unsigned w) { return mkIte(b, bvnum(1, w), bvnum(0, w)); }
A bv2bool(A a) {
  A x = mkExtract(a, 0, 0);
  return mkCmp(EQ, x, bvnum(1, 1));
}

A realOfDouble(double d) {
  // exact rational of a double
  int e;
  double m = frexp(d, &e);
  if (d == 0) return keep(Z3_mk_real(C, 0, 1));
  // m * 2^53 integer
  long long n = (long long)ldexp(m, 53);
  e -= 53;
  while (!(n & 1)) { n /= 2; e++; }
  std::string s = std::to_string(n);
  A num = keep(Z3_mk_numeral(C, s.c_str(), sReal));
  A two = keep(Z3_mk_real(C, 2, 1));
  if (e == 0) return num;
  // power of two as a numeral string via big multiplication
  auto pow2 = [](int k) {
    std::string r = "1";
    for (int i = 0; i < k; i++) {
      int carry = 0;
      for (int j = (int)r.size() - 1; j >= 0; j--) {
        int v = (r[j] - '0') * 2 + carry;
        r[j] = '0' + v % 10;
        carry = v / 10;
      }
      if (carry) r.insert(r.begin(), '0' + carry);
    }
    return r;
  };
  (void)two;
  static std::unordered_map<int, std::string> memo;
  int k = e < 0 ? -e : e;
  auto it = memo.find(k);
  if (it == memo.end()) it = memo.emplace(k, pow2(k)).first;
  if (e < 0)
    return keep(Z3_mk_numeral(C, (s + "/" + it->second).c_str(), sReal));
  A v[2] = {num, keep(Z3_mk_numeral(C, it->second.c_str(), sReal))};
  return keep(Z3_simplify(C, keep(Z3_mk_mul(C, 2, v))));
}
bool realIsNum(A a, double *d) {
  if (Z3_get_ast_kind(C, a) != Z3_NUMERAL_AST) return false;
  *d = Z3_get_numeral_double(C, a);
  return true;
}
static bool isN(A a) { return Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST; }
static bool leafyR(A a, int &budget) {
  if (--budget < 0) return false;
  if (isN(a)) return true;
  if (dkind(a) == Z3_OP_ITE) return leafyR(arg(a, 1), budget) && leafyR(arg(a, 2), budget);
  return false;
}
template <class F> static A mapR(A a, F f, std::unordered_map<A, A> &memo) {
  if (isN(a)) return f(a);
  auto it = memo.find(a);
  if (it != memo.end()) return it->second;
  A r = mkIte(arg(a, 0), mapR(arg(a, 1), f, memo), mapR(arg(a, 2), f, memo));
  memo[a] = r;
  return r;
}
A mkR(char op, A a, A b) {
  double x, y;
  bool na = realIsNum(a, &x), nb = realIsNum(b, &y);
  if (nb && y == 0 && (op == '+' || op == '-')) return a;
  if (na && x == 0 && op == '+') return b;
  if (nb && y == 1 && (op == '*' || op == '/')) return a;
  if (na && x == 1 && op == '*') return b;
  if ((na && x == 0 && (op == '*' || op == '/'))) return a;
  if (nb && y == 0 && op == '*') return b;
  int bud = 64;
  if (nb && !na && dkind(a) == Z3_OP_ITE && leafyR(a, bud)) {
    std::unordered_map<A, A> memo;
    return mapR(a, [&](A l) { return mkR(op, l, b); }, memo);
  }
  bud = 64;
  if (na && !nb && dkind(b) == Z3_OP_ITE && leafyR(b, bud)) {
    std::unordered_map<A, A> memo;
    return mapR(b, [&](A l) { return mkR(op, a, l); }, memo);
  }
  A v[2] = {a, b};
  A r;
  switch (op) {
  case '+': r = Z3_mk_add(C, 2, v); break;
  case '-': r = Z3_mk_sub(C, 2, v); break;
  case '*': r = Z3_mk_mul(C, 2, v); break;
  default: r = Z3_mk_div(C, a, b);
  }
  r = keep(r);
  if (na && nb) r = keep(Z3_simplify(C, r));
  return r;
}
A mkRCmp(RCmp p, A a, A b) {
  if (a == b) return mkbool(p != RLT);
  bool na = isN(a), nb = isN(b);
  int bud = 64;
  if (nb && !na && dkind(a) == Z3_OP_ITE && leafyR(a, bud)) {
    std::unordered_map<A, A> memo;
    return mapR(a, [&](A l) { return mkRCmp(p, l, b); }, memo);
  }
  bud = 64;
  if (na && !nb && dkind(b) == Z3_OP_ITE && leafyR(b, bud)) {
    std::unordered_map<A, A> memo;
    return mapR(b, [&](A l) { return mkRCmp(p, a, l); }, memo);
  }
  A r;
  switch (p) {
  case RLT: r = keep(Z3_mk_lt(C, a, b)); break;
  case RLE: r = keep(Z3_mk_le(C, a, b)); break;
  default: r = keep(Z3_mk_eq(C, a, b));
  }
  if (na && nb) r = keep(Z3_simplify(C, r));
  return r;
}
