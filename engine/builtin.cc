#include "symx.hh"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/IntrinsicInst.h>
using namespace llvm;

bool Engine::intrinsic(State &s, const Ins &i, std::vector<Val> &a, Val &r, Fn *f) {
  unsigned w = i.w;
  auto C1 = [&](int k) { return a[k].k == K_CI ? a[k] : conc(s, a[k]); };
  auto cmpSel = [&](unsigned p) {
    if (a[0].k == K_AGG) {
      std::vector<Val> v;
      for (size_t k = 0; k < a[0].agg->v.size(); k++)
        v.push_back(select(s, icmp(s, p, a[0].agg->v[k], a[1].agg->v[k], a[0].agg->v[k].w), a[0].agg->v[k], a[1].agg->v[k]));
      return mkagg(v);
    }
    return select(s, icmp(s, p, a[0], a[1], w), a[0], a[1]);
  };
  switch (i.intr) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
  case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
  case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation:
  case Intrinsic::vaend:
    return true;
  case Intrinsic::stacksave: r = Val::ci(0, 64); return true;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    r = a[0]; return true;
  case Intrinsic::is_constant: r = Val::ci(0, 1); return true;
  case Intrinsic::objectsize: r = Val::ci(C1(1).c ? 0 : ~0ull, w); return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    Val d = C1(0), sr = C1(1), n = C1(2);
    copyMem(s, d.c, sr.c, n.c);
    return true;
  }
  case Intrinsic::memset: {
    Val d = C1(0), v = C1(1), n = C1(2);
    if (!n.c) return true;
    Obj *o = access(s, d.c, n.c, true, "write");
    uint64_t off = d.c - o->base;
    memset(&o->data[off], (int)v.c, n.c);
    if (!o->sym.empty())
      for (uint64_t k = 0; k < n.c; k++) o->sym[off + k].kind = 0;
    return true;
  }
  case Intrinsic::umax: r = cmpSel(CmpInst::ICMP_UGT); return true;
  case Intrinsic::umin: r = cmpSel(CmpInst::ICMP_ULT); return true;
  case Intrinsic::smax: r = cmpSel(CmpInst::ICMP_SGT); return true;
  case Intrinsic::smin: r = cmpSel(CmpInst::ICMP_SLT); return true;
  case Intrinsic::abs: {
    Val n = icmp(s, CmpInst::ICMP_SLT, a[0], Val::ci(0, w), w);
    r = select(s, n, bin(s, Instruction::Sub, Val::ci(0, w), a[0], w), a[0]);
    return true;
  }
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
    Val v = C1(0);
    if (i.intr == Intrinsic::ctlz) r = Val::ci(v.c ? __builtin_clzll(v.c) - (64 - w) : w, w);
    else if (i.intr == Intrinsic::cttz) r = Val::ci(v.c ? __builtin_ctzll(v.c) : w, w);
    else r = Val::ci(__builtin_popcountll(v.c), w);
    return true;
  }
  case Intrinsic::bswap: {
    Val v = a[0];
    if (v.k == K_CI) {
      r = Val::ci(__builtin_bswap64(v.c) >> (64 - w), w);
      return true;
    }
    unsigned n = w / 8;
    Cell *p = new Cell[n];
    bool real = v.k == K_RAW;
    if (!real) {
      A x = mkExtract(v.a, 7, 0);
      for (unsigned k = 1; k < n; k++) x = mkConcat(x, mkExtract(v.a, 8 * k + 7, 8 * k));
      r = Val::si(x, w);
      delete[] p;
      return true;
    }
    for (unsigned k = 0; k < n; k++) p[k] = v.raw[n - 1 - k];
    r.k = K_RAW; r.log = 0; r.w = w; r.raw = p;
    return true;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    Val x = a[0], y = a[1], k = C1(2);
    unsigned sh = k.c % w;
    bool l = i.intr == Intrinsic::fshl;
    if (sh == 0) { r = l ? x : y; return true; }
    Val p = bin(s, Instruction::Shl, x, Val::ci(l ? sh : w - sh, w), w);
    Val q = bin(s, Instruction::LShr, y, Val::ci(l ? w - sh : sh, w), w);
    r = bin(s, Instruction::Or, p, q, w);
    return true;
  }
  case Intrinsic::usub_sat: {
    Val lt = icmp(s, CmpInst::ICMP_ULT, a[0], a[1], w);
    r = select(s, lt, Val::ci(0, w), bin(s, Instruction::Sub, a[0], a[1], w));
    return true;
  }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    Val x = a[0], y = a[1];
    unsigned W = x.w;
    unsigned op = (i.intr == Intrinsic::uadd_with_overflow || i.intr == Intrinsic::sadd_with_overflow) ? Instruction::Add
                  : (i.intr == Intrinsic::usub_with_overflow || i.intr == Intrinsic::ssub_with_overflow) ? Instruction::Sub
                                                                                                        : Instruction::Mul;
    bool sg = i.intr == Intrinsic::sadd_with_overflow || i.intr == Intrinsic::ssub_with_overflow || i.intr == Intrinsic::smul_with_overflow;
    if (x.k != K_CI || y.k != K_CI) {
      if (x.k == K_RAW || y.k == K_RAW) incomplete(s, "overflow intrinsic");
      A p = toBV(x), q = toBV(y), ok;
      if (op == Instruction::Add) ok = sg ? Z3_mk_and(C, 2, std::vector<A>{keep(Z3_mk_bvadd_no_overflow(C, p, q, true)), keep(Z3_mk_bvadd_no_underflow(C, p, q))}.data()) : Z3_mk_bvadd_no_overflow(C, p, q, false);
      else if (op == Instruction::Sub) ok = sg ? Z3_mk_and(C, 2, std::vector<A>{keep(Z3_mk_bvsub_no_overflow(C, p, q)), keep(Z3_mk_bvsub_no_underflow(C, p, q, true))}.data()) : Z3_mk_bvsub_no_underflow(C, p, q, false);
      else ok = sg ? Z3_mk_and(C, 2, std::vector<A>{keep(Z3_mk_bvmul_no_overflow(C, p, q, true)), keep(Z3_mk_bvmul_no_underflow(C, p, q))}.data()) : Z3_mk_bvmul_no_overflow(C, p, q, false);
      ok = keep(ok);
      r = mkagg({bin(s, op, x, y, W), Val::si(mkNot(ok), 1)});
      return true;
    }
    __int128 X = sg ? (__int128)sextv(x.c, W) : (__int128)x.c, Y = sg ? (__int128)sextv(y.c, W) : (__int128)y.c;
    __int128 R = op == Instruction::Add ? X + Y : op == Instruction::Sub ? X - Y : X * Y;
    uint64_t lo = (uint64_t)R & maskw(W);
    bool ov = sg ? (__int128)sextv(lo, W) != R : (__int128)lo != R;
    r = mkagg({Val::ci(lo, W), Val::ci(ov, 1)});
    return true;
  }
  case Intrinsic::fabs: {
    Val v = fnorm(s, a[0]);
    if (v.k == K_CF) { r = Val::cf(fabs(v.d()), v.w); return true; }
    if (v.log) {
      A one = realOfDouble(1);
      if (decide(s, mkRCmp(RLE, one, v.a))) r = v;
      else r = Val::sr(mkR('/', one, v.a), v.w, true);
      return true;
    }
    A z = realOfDouble(0);
    r = Val::sr(mkIte(mkRCmp(RLE, z, v.a), v.a, mkR('-', z, v.a)), v.w);
    return true;
  }
  case Intrinsic::fmuladd: case Intrinsic::fma: {
    if (i.intr == Intrinsic::fma && a[0].k == K_CF && a[1].k == K_CF && a[2].k == K_CF) {
      r = Val::cf(a[0].w == 32 ? fmaf(a[0].d(), a[1].d(), a[2].d()) : fma(a[0].d(), a[1].d(), a[2].d()), a[0].w);
      return true;
    }
    r = fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, a[0], a[1]), a[2]);
    return true;
  }
  case Intrinsic::load_relative: {
    if (a[1].k != K_CI) a[1] = conc(s, a[1]);
    uint64_t p = 0;
    if (a[0].k != K_CI) a[0] = conc(s, a[0]);
    p = a[0].c;
    Val o = loadAt(s, p + a[1].c, Type::getInt32Ty(i.I->getContext()));
    if (o.k != K_CI) o = conc(s, o);
    r = Val::ci(p + (uint64_t)sextv(o.c, 32), 64);
    return true;
  }
  case Intrinsic::log10: r = log10v(s, a[0], 1); return true;
  case Intrinsic::log: r = log10v(s, a[0], 2); return true;
  case Intrinsic::exp10: r = pow10v(s, a[0], 10); return true;
  case Intrinsic::pow: {
    Val b = fnorm(s, a[0]);
    if (b.k == K_CF && b.d() == 10) { r = pow10v(s, a[1], 10); return true; }
    r = Val::cf(pow(conc(s, b).d(), conc(s, fnorm(s, a[1])).d()), b.w);
    return true;
  }
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::exp: case Intrinsic::trunc:
  case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::exp2: case Intrinsic::log2: {
    Val v = conc(s, fnorm(s, a[0]));
    double d = v.d(), q = 0;
    switch (i.intr) {
    case Intrinsic::floor: q = floor(d); break;
    case Intrinsic::ceil: q = ceil(d); break;
    case Intrinsic::sqrt: q = sqrt(d); break;
    case Intrinsic::exp: q = exp(d); break;
    case Intrinsic::trunc: q = trunc(d); break;
    case Intrinsic::round: q = round(d); break;
    case Intrinsic::rint: case Intrinsic::nearbyint: q = rint(d); break;
    case Intrinsic::exp2: q = exp2(d); break;
    case Intrinsic::log2: q = log2(d); break;
    }
    r = Val::cf(q, v.w);
    return true;
  }
  case Intrinsic::minnum: case Intrinsic::maxnum: {
    Val c = fcmp(s, i.intr == Intrinsic::minnum ? CmpInst::FCMP_OLT : CmpInst::FCMP_OGT, a[0], a[1]);
    r = select(s, c, fnorm(s, a[0]), fnorm(s, a[1]));
    return true;
  }
  case Intrinsic::copysign: r = Val::cf(copysign(conc(s, a[0]).d(), conc(s, a[1]).d()), a[0].w); return true;
  case Intrinsic::is_fpclass: {
    Val v = fnorm(s, a[0]);
    unsigned m = a[1].c;
    if (v.k == K_SR) { // finite, class by sign: only nan/inf tests supported
      if (!(m & 0x1f8) || (m & 0x1f8) == 0x1f8) { r = Val::ci((m & 0x1f8) != 0, 1); return true; }
      v = conc(s, v);
    }
    double d = v.d();
    unsigned k = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 0x200) : d == 0 ? (std::signbit(d) ? 0x20 : 0x40) : (d < 0 ? 0x8 : 0x100);
    r = Val::ci((m & k) != 0, 1);
    return true;
  }
  case Intrinsic::eh_typeid_for: r = Val::ci((uint32_t)tiSel(a[0].c), 32); return true;
  case Intrinsic::vastart: {
    // struct { i32 gp_offset, i32 fp_offset, ptr overflow, ptr reg_save }
    Frame &f0 = s.st.back();
    std::vector<Val> va = f0.va;
    uint64_t buf = newObj(s, va.size() * 16 + 16, 3);
    uint64_t at = 0;
    Type *i64 = Type::getInt64Ty(M->getContext()), *dbl = Type::getDoubleTy(M->getContext());
    for (auto &v : va) {
      Obj *o = wobj(s, buf);
      if (v.k == K_CF || v.k == K_SR) storeObj(o, at, v, dbl);
      else if (v.k == K_RAW && v.w == 64) storeObj(o, at, v, i64);
      else {
        Val x = v;
        if (x.w < 64) x = castOne(s, Instruction::ZExt, x, i64, i64);
        storeObj(o, at, x, i64);
      }
      at += 8;
    }
    Obj *o = access(s, a[0].c, 24, true, "write");
    uint64_t off = a[0].c - o->base;
    storeObj(o, off, Val::ci(48, 32), Type::getInt32Ty(M->getContext()));
    storeObj(o, off + 4, Val::ci(176, 32), Type::getInt32Ty(M->getContext()));
    storeObj(o, off + 8, Val::ci(buf, 64), i64);
    storeObj(o, off + 16, Val::ci(buf, 64), i64);
    return true;
  }
  case Intrinsic::vacopy: copyMem(s, a[0].c, a[1].c, 24); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: fatal(s, "undefined", "trap");
  case Intrinsic::threadlocal_address: r = a[0]; return true;
  default:
    break;
  }
  incomplete(s, "intrinsic " + f->name);
}

namespace {
enum BI {
  B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWA, B_DEL, B_DELA, B_MEMCPY, B_MEMSET, B_MEMCMP,
  B_LOG10, B_LOG, B_POW, B_EXP, B_EXP10, B_SQRT, B_LDEXP, B_FLOOR, B_CEIL, B_FABS, B_FMATH,
  B_EXIT, B_ABORT, B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_NOP, B_ASSERTFAIL,
  B_SYMINT, B_SYMLONG, B_SYMREAL, B_SYMFLOAT, B_ASSUME, B_ASSERT, B_COVER, B_FIX, B_ENGINE, B_EXITOK, B_FAIL,
  B_FMTD, B_STRTOD, B_ISSYM, B_TRACE, B_OBJSIZE, B_TERMINATE, B_KNOWN, B_STOP, B_SKIPFMT
};
const std::map<std::string, int> &table() {
  static const std::map<std::string, int> t = {
      {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
      {"_Znwm", B_NEW}, {"_Znam", B_NEWA}, {"_ZdlPv", B_DEL}, {"_ZdlPvm", B_DEL}, {"_ZdaPv", B_DELA}, {"_ZdaPvm", B_DELA},
      {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
      {"log2", B_FMATH}, {"log2f", B_FMATH}, {"log10", B_LOG10}, {"log10f", B_LOG10}, {"log", B_LOG}, {"logf", B_LOG}, {"pow", B_POW}, {"powf", B_POW},
      {"exp", B_EXP}, {"expf", B_EXP}, {"exp10", B_EXP10}, {"exp10f", B_EXP10}, {"sqrt", B_SQRT}, {"sqrtf", B_SQRT},
      {"ldexp", B_LDEXP}, {"floor", B_FLOOR}, {"ceil", B_CEIL}, {"fabs", B_FABS},
      {"exit", B_EXIT}, {"_exit", B_EXIT}, {"abort", B_ABORT}, {"__cxa_allocate_exception", B_CXA_ALLOC},
      {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN},
      {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_atexit", B_NOP},
      {"_ZSt9terminatev", B_TERMINATE}, {"__assert_fail", B_ASSERTFAIL}, {"__cxa_pure_virtual", B_ABORT},
      {"sym_int", B_SYMINT}, {"sym_long", B_SYMLONG}, {"sym_real", B_SYMREAL}, {"sym_float", B_SYMFLOAT},
      {"sym_assume", B_ASSUME}, {"sym_assert", B_ASSERT}, {"sym_cover", B_COVER}, {"sym_fix", B_FIX},
      {"sym_engine", B_ENGINE}, {"sym_exit_ok", B_EXITOK}, {"sym_fail", B_FAIL}, {"sx_fmt_double", B_FMTD},
      {"sx_strtod", B_STRTOD}, {"sx_issym", B_ISSYM}, {"sym_trace", B_TRACE}, {"sx_objsize", B_OBJSIZE}, {"sym_stop", B_STOP}};
  return t;
}
} // namespace

bool Engine::builtin(State &s, const Ins &i, std::vector<Val> &a, Val &r, Fn *f) {
  if (f->builtin == 0) {
    auto it = table().find(f->name);
    f->builtin = it == table().end() ? -1 : it->second;
    if (f->builtin == -1) return false;
  }
  auto C1 = [&](int k) -> uint64_t {
    if (a[k].k != K_CI) a[k] = conc(s, a[k]);
    return a[k].c;
  };
  unsigned w = i.w;
  switch (f->builtin) {
  case B_MALLOC: case B_NEW: case B_NEWA:
    r = Val::ci(newObj(s, C1(0), 2, f->builtin == B_MALLOC ? 'm' : f->builtin == B_NEW ? 'n' : 'a'), 64);
    return true;
  case B_CALLOC: {
    uint64_t n = C1(0) * C1(1);
    uint64_t p = newObj(s, n, 2, 'm');
    Obj *o = wobj(s, p);
    std::fill(o->data.begin(), o->data.end(), 0);
    r = Val::ci(p, 64);
    return true;
  }
  case B_REALLOC: {
    uint64_t p = C1(0), n = C1(1);
    if (p == 0) { r = Val::ci(newObj(s, n, 2, 'm'), 64); return true; }
    Obj *o = obj(s, p);
    if (!o || o->kind != 2 || o->base != p || o->how != 'm') fatal(s, "memory", "realloc of a pointer that is not a live malloc block");
    uint64_t old = o->data.size();
    uint64_t q = newObj(s, n, 2, 'm');
    copyMem(s, q, p, old < n ? old : n);
    freeObj(s, Val::ci(p, 64), 'm', "realloc");
    r = Val::ci(q, 64);
    return true;
  }
  case B_FREE: freeObj(s, a[0], 'm', "free"); return true;
  case B_DEL: freeObj(s, a[0], 'n', "delete"); return true;
  case B_DELA: freeObj(s, a[0], 'a', "delete[]"); return true;
  case B_MEMCPY: {
    uint64_t d = C1(0), x = C1(1), n = C1(2);
    copyMem(s, d, x, n);
    r = a[0];
    return true;
  }
  case B_MEMSET: {
    uint64_t d = C1(0), v = C1(1), n = C1(2);
    r = a[0];
    if (!n) return true;
    Obj *o = access(s, d, n, true, "write");
    memset(&o->data[d - o->base], (int)v, n);
    if (!o->sym.empty())
      for (uint64_t k = 0; k < n; k++) o->sym[d - o->base + k].kind = 0;
    return true;
  }
  case B_MEMCMP: {
    uint64_t x = C1(0), y = C1(1), n = C1(2);
    r = memcmpv(s, x, y, n);
    return true;
  }
  case B_LOG10: r = log10v(s, a[0], 1); return true;
  case B_LOG: r = log10v(s, a[0], 2); return true;
  case B_EXP10: r = pow10v(s, a[0], 10); return true;
  case B_POW: {
    Val b = fnorm(s, a[0]);
    if (b.k == K_CF && b.d() == 10) {
      Val e = fnorm(s, a[1]);
      r = pow10v(s, e, 10);
      if (r.k == K_CF) r = Val::cf(b.w == 32 ? powf(10, e.k == K_CF ? e.d() : log10(r.d())) : r.d(), b.w);
      return true;
    }
    Val e = fnorm(s, a[1]);
    if (b.k == K_SR && !b.log && e.k == K_CF && e.d() == (int)e.d() && e.d() > 0 && e.d() <= 4) {
      A x = b.a;
      for (int k = 1; k < (int)e.d(); k++) x = mkR('*', x, b.a);
      r = Val::sr(x, b.w);
      return true;
    }
    r = Val::cf(pow(conc(s, b).d(), conc(s, e).d()), b.w);
    return true;
  }
  case B_FMATH: { Val x = conc(s, fnorm(s, a[0])); r = Val::cf(x.w == 32 ? log2f(x.d()) : log2(x.d()), x.w); return true; }
  case B_EXP: r = Val::cf(exp(conc(s, fnorm(s, a[0])).d()), a[0].w); return true;
  case B_SQRT: r = Val::cf(sqrt(conc(s, fnorm(s, a[0])).d()), a[0].w); return true;
  case B_FLOOR: r = Val::cf(floor(conc(s, fnorm(s, a[0])).d()), a[0].w); return true;
  case B_CEIL: r = Val::cf(ceil(conc(s, fnorm(s, a[0])).d()), a[0].w); return true;
  case B_FABS: r = Val::cf(fabs(conc(s, fnorm(s, a[0])).d()), a[0].w); return true;
  case B_LDEXP: {
    int e = (int)sextv(C1(1), 32);
    r = fbin(s, Instruction::FMul, a[0], Val::cf(ldexp(1, e), a[0].w));
    return true;
  }
  case B_EXIT:
    if (!s.exitOK) fatal(s, "exit", "the program called exit()");
    throw EndPath{END_OK};
  case B_ABORT: fatal(s, "abort", "the program called abort()");
  case B_TERMINATE: fatal(s, "abort", "std::terminate");
  case B_ASSERTFAIL: fatal(s, "abort", "assert() failed: " + cstr(s, C1(0)));
  case B_CXA_ALLOC: r = Val::ci(newObj(s, C1(0), 2, 'e'), 64); return true;
  case B_CXA_FREE: return true;
  case B_CXA_THROW: {
    s.cur = {C1(0), C1(1)};
    std::string where = loc(s);
    std::string ti = tiName(s.cur.ti);
    // find a handler first, so that an uncaught exception is reported in context
    bool found = false;
    for (int k = (int)s.st.size() - 1; k >= 0 && !found; k--) {
      const Ins *site = k == (int)s.st.size() - 1 ? &i : s.st[k + 1].site;
      if (!site || site->op != Instruction::Invoke) continue;
      BBk &b = s.st[k].fn->bbs[site->bb2];
      int sel; bool any = false;
      if (auto *lp = dyn_cast<LandingPadInst>(b.ins[0].I))
        if (lpadMatch(s, lp, sel, any) && !any && sel != -1) found = true;
    }
    if (!found) fatal(s, "exception", "uncaught exception of type " + ti);
    goto do_unwind;
  }
  case B_CXA_RETHROW:
    if (s.caught.empty()) fatal(s, "abort", "rethrow without an exception");
    s.cur = s.caught.back();
    goto do_unwind;
  case B_CXA_BEGIN:
    s.caught.push_back({a[0].c, s.cur.ti});
    r = a[0];
    return true;
  case B_CXA_END:
    if (!s.caught.empty()) s.caught.pop_back();
    return true;
  case B_NOP: r = Val::ci(0, w ? w : 64); return true;

  case B_SYMINT: case B_SYMLONG: {
    std::string n = cstr(s, C1(0));
    int64_t lo = sextv(C1(1), w), hi = sextv(C1(2), w);
    int k = s.ncount[n]++;
    if (k) n += "#" + std::to_string(k);
    A v = keep(Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bvsort(w)));
    s.inputs.push_back({n, v, 0, w});
    if (lo == hi) {
      addPC(s, mkCmp(EQ, v, bvnum(lo, w)));
      s.model = nullptr;
      r = Val::ci(lo, w);
      return true;
    }
    if (lo > hi) throw EndPath{END_ASSUME};
    addPC(s, mkAnd(mkCmp(SLE, bvnum(lo, w), v), mkCmp(SLE, v, bvnum(hi, w))));
    s.model = nullptr;
    if ((uint64_t)(hi - lo) < 64) {
      auto d = std::make_shared<std::vector<uint64_t>>();
      for (int64_t x = lo; x <= hi; x++) d->push_back((uint64_t)x & maskw(w));
      s.dom[v] = d;
    }
    r = Val::si(v, w);
    return true;
  }
  case B_SYMREAL: case B_SYMFLOAT: {
    std::string n = cstr(s, C1(0));
    double lo = a[1].d(), hi = a[2].d();
    int k = s.ncount[n]++;
    if (k) n += "#" + std::to_string(k);
    A v = keep(Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), sReal));
    s.inputs.push_back({n, v, 1, w});
    addPC(s, mkAnd(mkRCmp(RLE, realOfDouble(lo), v), mkRCmp(RLE, v, realOfDouble(hi))));
    s.model = nullptr;
    r = Val::sr(v, w);
    return true;
  }
  case B_ASSUME: {
    Val v = a[0];
    if (v.k == K_RAW) v = rawToInt(s, v);
    if (v.k == K_CI) { if (!v.c) throw EndPath{END_ASSUME}; return true; }
    assume(s, v.w == 1 ? v.a : mkNot(mkCmp(EQ, v.a, bvnum(0, v.w))));
    return true;
  }
  case B_ASSERT: {
    Val v = a[0];
    if (v.k == K_RAW) v = rawToInt(s, v);
    S.asserts++;
    if (v.k == K_CI) {
      if (!v.c) fatal(s, "assert", cstr(s, C1(1)));
      // decided on this path: the path condition itself came from the solver
      return true;
    }
    A c = v.w == 1 ? v.a : mkNot(mkCmp(EQ, v.a, bvnum(0, v.w)));
    S.assert_queries++;
    bool kv;
    if (known(s, c, kv) && kv) return true;
    ensureModel(s);
    std::shared_ptr<Model> m;
    Z3_lbool q = check(s, mkNot(c), &m);
    if (q == Z3_L_TRUE) {
      error(s, "assert", cstr(s, C1(1)), m);
      assume(s, c);
      return true;
    }
    if (q == Z3_L_UNDEF) {
      S.unknown++;
      record(s, "incomplete", "solver", "unknown on assertion: " + cstr(s, C1(1)), nullptr);
    }
    s.implied.insert(c);
    return true;
  }
  case B_FAIL: fatal(s, "assert", cstr(s, C1(0)));
  case B_COVER: {
    std::string n = cstr(s, C1(0));
    if (!coverHits[n]++) {
      ensureModel(s);
      record(s, "cover", n, n, s.model.get());
    }
    S.covers++;
    return true;
  }
  case B_FIX: r = Val::ci(C1(0), w); return true;
  case B_ENGINE: r = Val::ci(1, 32); return true;
  case B_STOP: throw EndPath{END_OK};
  case B_EXITOK: s.exitOK = C1(0); return true;
  case B_TRACE:
    if (trace) {
      std::string n = cstr(s, C1(0));
      std::string v = "?";
      if (a[1].k == K_CI) v = std::to_string(sextv(a[1].c, a[1].w));
      else if (a[1].k == K_CF) v = std::to_string(a[1].d());
      else if (a[1].k == K_SI || a[1].k == K_SR) v = Z3_ast_to_string(C, a[1].a);
      fprintf(stderr, "[trace %lu] %s = %s\n", (unsigned long)s.id, n.c_str(), v.c_str());
    }
    return true;
  case B_ISSYM: { // any symbolic byte in [p, p+n)?
    uint64_t p = C1(0), n = C1(1);
    Obj *o = access(s, p, n, false, "read");
    bool sym = false;
    for (uint64_t k = 0; k < n; k++)
      if (cellAt(o, p - o->base + k).kind) sym = true;
    r = Val::ci(sym, 32);
    return true;
  }
  case B_OBJSIZE: {
    Obj *o = obj(s, C1(0));
    r = Val::ci(o ? o->data.size() - (a[0].c - o->base) : 0, 64);
    return true;
  }
  case B_FMTD: { // sx_fmt_double(char *out, size_t cap, const char *fmt, double)
    uint64_t out_ = C1(0), cap = C1(1);
    std::string fm = cstr(s, C1(2));
    Val v = fnorm(s, a[3]);
    char buf[400];
    if (v.k == K_SR) {
      double d;
      (void)d;
      snprintf(buf, sizeof buf, "@%c%lx@", v.log ? 'L' : 'R', (unsigned long)v.a);
    } else snprintf(buf, sizeof buf, fm.c_str(), v.d());
    size_t n = strlen(buf);
    if (n + 1 > cap) incomplete(s, "float formatting");
    Obj *o = access(s, out_, n + 1, true, "write");
    for (size_t k = 0; k <= n; k++) {
      Cell c;
      memset((void *)&c, 0, sizeof c);
      c.byte = buf[k];
      putCell(o, out_ - o->base + k, c);
    }
    r = Val::ci(n, 32);
    return true;
  }
  case B_STRTOD: { // double sx_strtod(const char*, char **end)
    uint64_t p = C1(0), e = C1(1);
    std::string t;
    uint64_t q = p;
    while (true) {
      Obj *o = access(s, q, 1, false, "read");
      Cell c = cellAt(o, q - o->base);
      uint8_t b = c.byte;
      if (c.kind == 1) {
        A x = mkExtract(c.a, c.idx * 8 + 7, c.idx * 8);
        b = concBV(s, x);
      } else if (c.kind == 2) incomplete(s, "strtod of real bytes");
      bool num = b && (strchr(" \t\n\v\f\r+-.@", b) || isalnum(b));
      if (!num) break;
      t.push_back(b);
      q++;
    }
    uint64_t used = 0;
    size_t ws = t.find_first_not_of(" \t\n\v\f\r");
    if (ws != std::string::npos && t[ws] == '@') {
      char kind;
      unsigned long ad;
      int n = 0;
      if (sscanf(t.c_str() + ws, "@%c%lx@%n", &kind, &ad, &n) == 2 && n) {
        r = Val::sr((A)ad, 64, kind == 'L');
        used = ws + n;
      }
    } else {
      char *end;
      double d = strtod(t.c_str(), &end);
      used = end - t.c_str();
      r = Val::cf(d, 64);
    }
    if (!used) r = Val::cf(0, 64);
    if (e) storeAt(s, e, Val::ci(p + used, 64), Type::getInt64Ty(M->getContext()));
    return true;
  }
  }
  return false;

do_unwind: {
  // start at the call site in the current frame
  if (i.op == Instruction::Invoke) {
    Frame &g = s.st.back();
    BBk &b = g.fn->bbs[i.bb2];
    auto *lp = dyn_cast<LandingPadInst>(b.ins[0].I);
    int sel = 0;
    bool any = false;
    if (lp && lpadMatch(s, lp, sel, any)) {
      jump(s, i.bb2);
      s.st.back().regs[b.ins[0].dst] = mkagg({Val::ci(s.cur.obj, 64), Val::ci((uint32_t)sel, 32)});
      s.st.back().ip = 1;
      return true;
    }
  }
  unwind(s);
  return true;
}
}
