// Expression layer: thin helpers over the Z3 C API with constant folding.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

extern Z3_context C;
typedef Z3_ast A;

inline A keep(A a) {
  Z3_inc_ref(C, a);
  return a;
}

extern Z3_sort sBool, sReal;
Z3_sort bvsort(unsigned w);
A bvnum(uint64_t v, unsigned w);
A mkbool(bool b);

inline bool isTrue(A a) { return Z3_get_bool_value(C, a) == Z3_L_TRUE; }
inline bool isFalse(A a) { return Z3_get_bool_value(C, a) == Z3_L_FALSE; }
inline bool isNum(A a, uint64_t *v) {
  return Z3_get_ast_kind(C, a) == Z3_NUMERAL_AST &&
         Z3_get_numeral_uint64(C, a, v);
}
inline Z3_decl_kind dkind(A a) {
  if (Z3_get_ast_kind(C, a) != Z3_APP_AST)
    return Z3_OP_UNINTERPRETED;
  return Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, a)));
}
inline A arg(A a, unsigned i) { return Z3_get_app_arg(C, Z3_to_app(C, a), i); }

A mkNot(A a);
A mkAnd(A a, A b);
A mkOr(A a, A b);
A mkIte(A c, A a, A b);
A mkEq(A a, A b); // BV or Real or Bool
unsigned bvw(A a);

enum BinOp { ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR };
A mkBV(BinOp op, A a, A b);
enum Cmp { EQ, NE, ULT, ULE, UGT, UGE, SLT, SLE, SGT, SGE };
A mkCmp(Cmp p, A a, A b);
A mkZext(A a, unsigned w);
A mkSext(A a, unsigned w);
A mkTrunc(A a, unsigned w);
A mkExtract(A a, unsigned hi, unsigned lo);
A mkConcat(A hi, A lo);
A bool2bv(A b, unsigned w);
A bv2bool(A a); // a is any width: lowest bit

A realOfDouble(double d); // d must be finite
enum RCmp { RLT, RLE, REQ };
A mkR(char op, A a, A b); // + - * /
A mkRCmp(RCmp p, A a, A b);
bool realIsNum(A a, double *d);
uint64_t maskw(unsigned w);
int64_t sextv(uint64_t v, unsigned w);
