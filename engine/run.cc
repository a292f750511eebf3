#include "symx.hh"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
using namespace llvm;

Engine::Engine(Module *m) : M(m), DL(&m->getDataLayout()) {}

// ---- constants ----------------------------------------------------------
Val Engine::constVal(const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) {
      unsigned n = (ci->getBitWidth() + 7) / 8;
      Cell *p = new Cell[n];
      APInt v = ci->getValue();
      for (unsigned i = 0; i < n; i++) {
        memset((void *)&p[i], 0, sizeof(Cell));
        p[i].byte = v.extractBitsAsZExtValue(8, i * 8);
      }
      Val r;
      r.k = K_RAW; r.log = 0; r.w = n * 8; r.raw = p;
      return r;
    }
    return Val::ci(ci->getZExtValue(), ci->getBitWidth());
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    if (t->isFloatTy()) return Val::cf(cf->getValueAPF().convertToFloat(), 32);
    if (t->isDoubleTy()) return Val::cf(cf->getValueAPF().convertToDouble(), 64);
    APFloat f = cf->getValueAPF();
    bool li;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    return Val::cf(f.convertToDouble(), 64);
  }
  if (isa<ConstantPointerNull>(c)) return Val::ci(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (auto *st = dyn_cast<StructType>(t)) {
      std::vector<Val> v;
      for (auto *e : st->elements()) v.push_back(constVal(isa<UndefValue>(c) ? UndefValue::get(e) : Constant::getNullValue(e)));
      return mkagg(v);
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
      Val e = constVal(Constant::getNullValue(at->getElementType()));
      return mkagg(std::vector<Val>(at->getNumElements(), e));
    }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) {
      Val e = constVal(Constant::getNullValue(vt->getElementType()));
      return mkagg(std::vector<Val>(vt->getNumElements(), e));
    }
    if (t->isFloatTy()) return Val::cf(0, 32);
    if (t->isFloatingPointTy()) return Val::cf(0, 64);
    if (t->isPointerTy()) return Val::ci(0, 64);
    if (t->getScalarSizeInBits() > 64) return constVal(ConstantInt::get(t, 0));
    return Val::ci(0, t->getScalarSizeInBits());
  }
  if (auto *g = dyn_cast<GlobalAlias>(c)) return constVal(g->getAliasee());
  if (auto *g = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(g);
    if (it == gaddr.end()) {
      fprintf(stderr, "symx: no address for %s\n", g->getName().str().c_str());
      exit(3);
    }
    return Val::ci(it->second, 64);
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<Val> v;
    for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i)));
    return mkagg(v);
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<Val> v;
    for (auto &o : ca->operands()) v.push_back(constVal(cast<Constant>(o.get())));
    return mkagg(v);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) {
        fprintf(stderr, "symx: constant gep\n");
        exit(3);
      }
      Val b = constVal(cast<Constant>(gep->getPointerOperand()));
      return Val::ci(b.c + off.getSExtValue(), 64);
    }
    State dummy;
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc:
    case Instruction::ZExt: case Instruction::SExt:
      return castOne(dummy, ce->getOpcode(), constVal(ce->getOperand(0)), ce->getOperand(0)->getType(), t);
    case Instruction::ICmp:
      return icmp(dummy, ce->getPredicate(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), 64);
    default:
      if (ce->getNumOperands() == 2)
        return bin(dummy, ce->getOpcode(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)), t->getScalarSizeInBits());
    }
  }
  std::string str;
  raw_string_ostream os(str);
  c->print(os);
  fprintf(stderr, "symx: constant not handled: %s\n", os.str().c_str());
  exit(3);
}

void Engine::writeConst(Obj *o, uint64_t off, const Constant *c) {
  if (isa<UndefValue>(c) || c->isNullValue()) return;
  storeObj(o, off, constVal(c), c->getType());
}

void Engine::setup() {
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), queryMs);
  solver = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, solver);
  Z3_solver_set_params(C, solver, p);

  State *s = new State;
  newObj(*s, 0, 1); // id 0: null
  for (auto &F : *M) {
    uint64_t a = newObj(*s, 0, 4);
    gaddr[&F] = a;
    Fn *f = new Fn;
    f->F = &F;
    f->name = F.getName().str();
    f->addr = a;
    fns[&F] = f;
    fnByName[f->name] = f;
    fnByAddr[a] = f;
  }
  for (auto &G : M->globals()) {
    uint64_t size = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 8;
    if (G.isDeclaration() && size < 64) size = 64;
    gaddr[&G] = newObj(*s, size, 0);
  }
  for (auto &G : M->globals())
    if (G.hasInitializer()) {
      Obj *o = s->heap.wr(gaddr[&G] >> SLOT);
      writeConst(o, 0, G.getInitializer());
      if (G.isConstant()) o->kind = 1;
    }
  Function *mainF = M->getFunction("sx_main");
  if (!mainF) {
    fprintf(stderr, "symx: no sx_main\n");
    exit(3);
  }
  std::vector<Val> none;
  pushFn(*s, fns[mainF], none, nullptr);
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) {
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, Function *>> v;
      for (auto &o : ca->operands()) {
        auto *st = cast<ConstantStruct>(o.get());
        if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()))
          v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f});
      }
      for (auto it = v.rbegin(); it != v.rend(); ++it) pushFn(*s, fns[it->second], none, nullptr);
    }
  }
  work.push_back(s);
}

// ---- decoding -----------------------------------------------------------
Op Engine::mkop(const Value *v, std::map<const Value *, uint32_t> &num) {
  Op o;
  if (auto *c = dyn_cast<Constant>(v)) {
    o.isreg = false;
    o.reg = 0;
    o.c = constVal(c);
    return o;
  }
  o.isreg = true;
  auto it = num.find(v);
  if (it == num.end()) { // metadata, labels, ...
    o.isreg = false;
    o.c = Val::ci(0, 64);
    o.reg = 0;
    return o;
  }
  o.reg = it->second;
  o.c = Val::ci(0, 64);
  return o;
}
static unsigned valw(Type *t, const DataLayout *DL) {
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isFloatingPointTy()) return 64;
  if (t->isVectorTy()) return t->getScalarSizeInBits();
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  return 0;
}
void Engine::decode(Fn *f) {
  f->ready = true;
  std::map<const Value *, uint32_t> num;
  std::map<const BasicBlock *, int> bbn;
  for (auto &a : f->F->args()) num[&a] = f->nregs++;
  int k = 0;
  for (auto &B : *f->F) {
    bbn[&B] = k++;
    for (auto &I : B)
      if (!I.getType()->isVoidTy()) num[&I] = f->nregs++;
  }
  f->bbs.resize(k);
  for (auto &B : *f->F) {
    BBk &b = f->bbs[bbn[&B]];
    for (auto &I : B) {
      if (auto *p = dyn_cast<PHINode>(&I)) {
        Phi ph;
        ph.dst = num[p];
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
          ph.in.push_back({bbn[p->getIncomingBlock(i)], mkop(p->getIncomingValue(i), num)});
        b.phis.push_back(ph);
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Ins n;
      n.op = I.getOpcode();
      n.I = &I;
      if (!I.getType()->isVoidTy()) n.dst = num[&I];
      n.w = valw(I.getType(), DL);
      n.ty = I.getType();
      if (auto *cb = dyn_cast<CallBase>(&I)) {
        for (auto &a : cb->args()) n.ops.push_back(mkop(a.get(), num));
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
        if (auto *cf = dyn_cast<Function>(cv)) n.callee = fns[cf];
        else if (!isa<InlineAsm>(cv)) n.ops.push_back(mkop(cv, num)); // last operand: target
        else n.intr = -1;
        if (n.callee && n.callee->F->isIntrinsic()) n.intr = n.callee->F->getIntrinsicID();
        if (auto *iv = dyn_cast<InvokeInst>(&I)) {
          n.bb1 = bbn[iv->getNormalDest()];
          n.bb2 = bbn[iv->getUnwindDest()];
        }
        b.ins.push_back(n);
        continue;
      }
      if (auto *br = dyn_cast<BranchInst>(&I)) {
        n.bb1 = bbn[br->getSuccessor(0)];
        if (br->isConditional()) {
          n.ops.push_back(mkop(br->getCondition(), num));
          n.bb2 = bbn[br->getSuccessor(1)];
        }
        b.ins.push_back(n);
        continue;
      }
      if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        n.ops.push_back(mkop(sw->getCondition(), num));
        n.w = sw->getCondition()->getType()->getIntegerBitWidth();
        n.bb1 = bbn[sw->getDefaultDest()];
        for (auto c : sw->cases())
          n.sc.push_back({bbn[c.getCaseSuccessor()], (int64_t)c.getCaseValue()->getZExtValue()});
        b.ins.push_back(n);
        continue;
      }
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        n.ops.push_back(mkop(g->getPointerOperand(), num));
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value *v = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) {
            n.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
          } else {
            int64_t es = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(v)) n.off += es * ci->getSExtValue();
            else {
              n.sc.push_back({(int)n.ops.size(), es});
              n.ops.push_back(mkop(v, num));
            }
          }
        }
        b.ins.push_back(n);
        continue;
      }
      for (auto &o : I.operands()) n.ops.push_back(mkop(o.get(), num));
      if (auto *c = dyn_cast<CmpInst>(&I)) {
        n.pred = c->getPredicate();
        n.w = valw(c->getOperand(0)->getType(), DL);
      }
      if (isa<CastInst>(&I)) {
        n.ty = I.getOperand(0)->getType();
        n.ty2 = I.getType();
      }
      if (isa<LoadInst>(&I)) n.ty = I.getType();
      if (isa<StoreInst>(&I)) n.ty = I.getOperand(0)->getType();
      if (auto *a = dyn_cast<AllocaInst>(&I)) n.off = DL->getTypeAllocSize(a->getAllocatedType());
      if (auto *e = dyn_cast<ExtractValueInst>(&I)) n.idx.assign(e->idx_begin(), e->idx_end());
      if (auto *e = dyn_cast<InsertValueInst>(&I)) n.idx.assign(e->idx_begin(), e->idx_end());
      b.ins.push_back(n);
    }
  }
}

// ---- reporting ----------------------------------------------------------
static void jstr(FILE *f, const std::string &s) {
  fputc('"', f);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32) fprintf(f, "\\u%04x", c);
    else if (c >= 127) fprintf(f, "\\u00%02x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
std::string Engine::loc(State &s) {
  std::string r;
  int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 6; i--, n++) {
    Frame &f = s.st[i];
    if (!f.fn->ready) continue;
    auto &ins = f.fn->bbs[f.bb].ins;
    int ip = f.ip;
    if (ip >= (int)ins.size()) ip = ins.size() - 1;
    if (i != (int)s.st.size() - 1 && ip > 0 && ins[ip].I && !isa<InvokeInst>(ins[ip].I)) ip--;
    std::string at = f.fn->name;
    for (int j = ip; j >= 0; j--)
      if (const DILocation *d = ins[j].I->getDebugLoc().get()) {
        at = d->getFilename().str() + ":" + std::to_string(d->getLine());
        break;
      }
    auto sl = at.rfind('/');
    if (sl != std::string::npos) at = at.substr(sl + 1);
    r += (r.empty() ? "" : " < ") + at;
  }
  return r;
}
void Engine::record(State &s, const char *type, const std::string &kind, const std::string &msg, Model *m) {
  if (!strcmp(type, "incomplete")) {
    if (incSeen[kind + msg]++) return;
  }
  fprintf(out, "{\"type\":\"%s\",\"kind\":", type);
  jstr(out, kind);
  fprintf(out, ",\"msg\":");
  jstr(out, msg);
  fprintf(out, ",\"loc\":");
  jstr(out, loc(s));
  if (m) {
    fprintf(out, ",\"inputs\":[");
    bool first = true;
    for (auto &in : s.inputs) {
      Z3_ast r = nullptr;
      Z3_model_eval(C, m->m, in.a, true, &r);
      if (!first) fputc(',', out);
      first = false;
      fprintf(out, "[");
      jstr(out, in.name);
      uint64_t v = 0;
      if (in.kind == 0) {
        if (r) isNum(r, &v);
        fprintf(out, ",%lld]", (long long)sextv(v, in.w));
      } else {
        double d = r ? Z3_get_numeral_double(C, r) : 0;
        fprintf(out, ",%.17g]", d);
      }
    }
    fprintf(out, "]");
  }
  fprintf(out, "}\n");
  fflush(out);
}
void Engine::error(State &s, const std::string &kind, const std::string &msg, std::shared_ptr<Model> m) {
  std::string key = kind + "|" + msg;
  if (violSeen[key]++ >= 3) return;
  if (!m) {
    ensureModel(s);
    m = s.model;
  }
  record(s, "violation", kind, msg, m.get());
  int n = __sync_add_and_fetch(&sh->nviol, 1);
  if (n >= maxViol) sh->stop = 1;
}
void Engine::fatal(State &s, const std::string &kind, const std::string &msg) {
  error(s, kind, msg);
  throw EndPath{END_ERR};
}
void Engine::incomplete(State &s, const std::string &msg) {
  record(s, "incomplete", "unsupported", msg + " at " + loc(s), nullptr);
  throw EndPath{END_INCOMPLETE};
}

// ---- control ------------------------------------------------------------
void Engine::pushFn(State &s, Fn *f, std::vector<Val> &args, const Ins *site) {
  if (!f->ready) decode(f);
  f->calls++;
  if (!f->bbs.empty()) f->bbs[0].hit = true;
  if (s.st.size() > 4000) fatal(s, "resource", "call depth above 4000 (unbounded recursion)");
  s.st.emplace_back();
  Frame &fr = s.st.back();
  fr.fn = f;
  fr.regs.resize(f->nregs, Val::ci(0, 64));
  fr.site = site;
  fr.stk = s.stk.n;
  size_t na = f->F->arg_size();
  for (size_t i = 0; i < na; i++) fr.regs[i] = args[i];
  // by-value struct arguments are copied for the callee
  for (size_t i = 0; i < na; i++)
    if (f->F->getArg(i)->hasByValAttr()) {
      uint64_t n = DL->getTypeAllocSize(f->F->getParamByValType(i));
      uint64_t a = newObj(s, n, 3);
      copyMem(s, a, args[i].c, n);
      s.st.back().regs[i] = Val::ci(a, 64);
    }
  for (size_t i = na; i < args.size(); i++) s.st.back().va.push_back(args[i]);
}
void Engine::jump(State &s, int bb) {
  Frame &f = s.st.back();
  BBk &b = f.fn->bbs[bb];
  b.hit = true;
  if (!b.phis.empty()) {
    Val tmp[64];
    std::vector<Val> big;
    Val *t = tmp;
    if (b.phis.size() > 64) { big.resize(b.phis.size()); t = big.data(); }
    for (size_t i = 0; i < b.phis.size(); i++) {
      bool ok = false;
      for (auto &in : b.phis[i].in)
        if (in.first == f.bb) { t[i] = opv(s, in.second); ok = true; break; }
      if (!ok) { fprintf(stderr, "symx: phi\n"); exit(3); }
    }
    for (size_t i = 0; i < b.phis.size(); i++) f.regs[b.phis[i].dst] = t[i];
  }
  f.bb = bb;
  f.ip = 0;
}
void Engine::ret(State &s, Val v, bool isvoid) {
  const Ins *site = s.st.back().site;
  s.stk.popTo(s.st.back().stk);
  s.st.pop_back();
  if (s.st.empty()) throw EndPath{END_OK};
  if (!site) return;
  finishCall(s, *site, v);
}
// the current frame's instruction is the (already entered) call: complete it
void Engine::finishCall(State &s, const Ins &i, Val r) {
  Frame &f = s.st.back();
  if (!i.I->getType()->isVoidTy()) f.regs[i.dst] = r;
  if (i.op == Instruction::Invoke) jump(s, i.bb1);
  else f.ip++;
}

std::string Engine::tiName(uint64_t a) {
  for (auto &g : gaddr)
    if (g.second == a) return g.first->getName().str();
  return "?";
}
int Engine::tiSel(uint64_t a) { return a ? (int)((a >> SLOT) & 0x7fffffff) : 0x7fffffff; }
bool Engine::isBase(const std::string &d, const std::string &b) {
  if (d == b) return true;
  static const std::map<std::string, std::string> ext = {
      {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
      {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
      {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
      {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
      {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}};
  auto it = ext.find(d);
  if (it != ext.end()) return isBase(it->second, b);
  if (auto *g = M->getGlobalVariable(d, true))
    if (g->hasInitializer())
      if (auto *st = dyn_cast<ConstantStruct>(g->getInitializer()))
        for (unsigned i = 2; i < st->getNumOperands(); i++)
          if (auto *x = dyn_cast<GlobalVariable>(st->getOperand(i)->stripPointerCasts()))
            if (isBase(x->getName().str(), b)) return true;
  return false;
}
bool Engine::lpadMatch(State &s, LandingPadInst *lp, int &sel, bool &any) {
  std::string thrown = tiName(s.cur.ti);
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    Constant *c = lp->getClause(i);
    if (lp->isCatch(i)) {
      Val v = constVal(c);
      if (v.c == 0 || isBase(thrown, tiName(v.c))) {
        sel = tiSel(v.c);
        return true;
      }
    } else {
      sel = -1; // filter (throw specification)
      return true;
    }
  }
  sel = 0;
  any = lp->isCleanup();
  return any;
}
void Engine::unwind(State &s) {
  // the top frame is the one throwing
  while (!s.st.empty()) {
    Frame &f = s.st.back();
    const Ins *site = f.site;
    s.stk.popTo(f.stk);
    s.st.pop_back();
    if (s.st.empty() || !site) break;
    if (site->op != Instruction::Invoke) continue;
    Frame &g = s.st.back();
    BBk &b = g.fn->bbs[site->bb2];
    auto *lp = dyn_cast<LandingPadInst>(b.ins[0].I);
    int sel = 0;
    bool any = false;
    if (!lp || !lpadMatch(s, lp, sel, any)) continue;
    jump(s, site->bb2);
    s.st.back().regs[b.ins[0].dst] = mkagg({Val::ci(s.cur.obj, 64), Val::ci((uint32_t)sel, 32)});
    s.st.back().ip = 1;
    return;
  }
  throw EndPath{END_ERR};
}

void Engine::call(State &s, const Ins &i) {
  Val args0[16];
  std::vector<Val> a;
  (void)args0;
  for (auto &o : i.ops) a.push_back(opv(s, o));
  Fn *f = i.callee;
  if (i.intr == -1) { // inline asm: barriers only
    finishCall(s, i, Val::ci(0, 64));
    return;
  }
  if (!f) {
    Val t = a.back();
    a.pop_back();
    if (t.k != K_CI) t = conc(s, t);
    auto it = fnByAddr.find(t.c);
    if (it == fnByAddr.end()) {
      char b[80];
      snprintf(b, sizeof b, "call through an invalid function pointer (%#lx)", (unsigned long)t.c);
      fatal(s, "memory", b);
    }
    f = it->second;
  }
  Val r = Val::ci(0, i.w ? i.w : 64);
  if (i.intr) {
    if (intrinsic(s, i, a, r, f)) finishCall(s, i, r);
    return;
  }
  if (f->builtin != -1) {
    size_t depth = s.st.size();
    const Frame *top = &s.st.back();
    (void)top;
    int ip = s.st.back().ip, bb = s.st.back().bb;
    if (builtin(s, i, a, r, f)) {
      f->calls++;
      if (s.st.size() == depth && s.st.back().ip == ip && s.st.back().bb == bb) finishCall(s, i, r);
      return;
    }
    f->builtin = -1;
  }
  if (f->F->isDeclaration()) incomplete(s, "external function " + f->name);
  pushFn(s, f, a, &i);
}

void Engine::exec(State &s, const Ins &i) {
  Frame &f = s.st.back();
  switch (i.op) {
  case Instruction::Br:
    if (i.ops.empty()) { jump(s, i.bb1); return; }
    {
      Val c = opv(s, i.ops[0]);
      bool b = c.k == K_CI ? (c.c & 1) : decide(s, c.a);
      jump(s, b ? i.bb1 : i.bb2);
    }
    return;
  case Instruction::Switch: {
    Val c = opv(s, i.ops[0]);
    if (c.k == K_RAW) c = rawToInt(s, c);
    if (c.k == K_CI) {
      for (auto &k : i.sc)
        if ((uint64_t)k.second == c.c) { jump(s, k.first); return; }
      jump(s, i.bb1);
      return;
    }
    for (auto &k : i.sc)
      if (decide(s, mkEq(toBV(c), bvnum(k.second, i.w)))) { jump(s, k.first); return; }
    jump(s, i.bb1);
    return;
  }
  case Instruction::Ret:
    if (i.ops.empty()) ret(s, Val::ci(0, 64), true);
    else ret(s, opv(s, i.ops[0]), false);
    return;
  case Instruction::Unreachable:
    fatal(s, "undefined", "reached code the compiler proved unreachable (undefined behaviour)");
  case Instruction::Call: case Instruction::Invoke:
    call(s, i);
    return;
  case Instruction::Resume: {
    Val v = opv(s, i.ops[0]);
    (void)v;
    unwind(s);
    return;
  }
  case Instruction::LandingPad:
    incomplete(s, "stray landingpad");
  case Instruction::Alloca: {
    Val n = opv(s, i.ops[0]);
    n = conc(s, n);
    f.regs[i.dst] = Val::ci(newObj(s, i.off * n.c, 3), 64);
    break;
  }
  case Instruction::Load: {
    Val r = load(s, opv(s, i.ops[0]), i.ty);
    s.st.back().regs[i.dst] = r;
    break;
  }
  case Instruction::Store:
    store(s, opv(s, i.ops[1]), opv(s, i.ops[0]), i.ty);
    break;
  case Instruction::GetElementPtr: {
    Val b = opv(s, i.ops[0]);
    if (b.k == K_AGG) incomplete(s, "vector gep");
    uint64_t off = i.off;
    A symo = nullptr;
    for (auto &k : i.sc) {
      Val v = opv(s, i.ops[k.first]);
      if (v.k == K_RAW) v = rawToInt(s, v);
      if (v.k == K_CI) off += (uint64_t)sextv(v.c, v.w) * k.second;
      else {
        A x = v.w < 64 ? mkSext(toBV(v), 64) : v.a;
        x = mkBV(MUL, x, bvnum(k.second, 64));
        symo = symo ? mkBV(ADD, symo, x) : x;
      }
    }
    if (b.k == K_RAW) b = rawToInt(s, b);
    if (b.k == K_CI && !symo) f.regs[i.dst] = Val::ci(b.c + off, 64);
    else {
      A x = mkBV(ADD, toBV(b), bvnum(off, 64));
      if (symo) x = mkBV(ADD, x, symo);
      f.regs[i.dst] = Val::si(x, 64);
    }
    break;
  }
  case Instruction::ICmp: {
    Val r = icmp(s, i.pred, opv(s, i.ops[0]), opv(s, i.ops[1]), i.w);
    f.regs[i.dst] = r;
    break;
  }
  case Instruction::FCmp: f.regs[i.dst] = fcmp(s, i.pred, opv(s, i.ops[0]), opv(s, i.ops[1])); break;
  case Instruction::Select: f.regs[i.dst] = select(s, opv(s, i.ops[0]), opv(s, i.ops[1]), opv(s, i.ops[2])); break;
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
    f.regs[i.dst] = fbin(s, i.op, opv(s, i.ops[0]), opv(s, i.ops[1]));
    break;
  case Instruction::FNeg: {
    Val v = opv(s, i.ops[0]);
    v = fnorm(s, v);
    if (v.k == K_CF) f.regs[i.dst] = Val::cf(-v.d(), v.w);
    else if (v.log) f.regs[i.dst] = Val::sr(mkR('/', realOfDouble(1), v.a), v.w, true);
    else f.regs[i.dst] = Val::sr(mkR('-', realOfDouble(0), v.a), v.w);
    break;
  }
  case Instruction::Freeze: f.regs[i.dst] = opv(s, i.ops[0]); break;
  case Instruction::ExtractValue: {
    Val v = opv(s, i.ops[0]);
    for (auto k : i.idx) v = v.agg->v[k];
    f.regs[i.dst] = v;
    break;
  }
  case Instruction::InsertValue: {
    std::function<Val(Val, Val, size_t)> ins = [&](Val g, Val x, size_t d) -> Val {
      if (d == i.idx.size()) return x;
      std::vector<Val> v = g.agg->v;
      v[i.idx[d]] = ins(v[i.idx[d]], x, d + 1);
      return mkagg(v);
    };
    f.regs[i.dst] = ins(opv(s, i.ops[0]), opv(s, i.ops[1]), 0);
    break;
  }
  case Instruction::ExtractElement: {
    Val v = opv(s, i.ops[0]), k = conc(s, opv(s, i.ops[1]));
    s.st.back().regs[i.dst] = v.agg->v[k.c];
    break;
  }
  case Instruction::InsertElement: {
    Val v = opv(s, i.ops[0]), k = conc(s, opv(s, i.ops[2]));
    std::vector<Val> n = v.agg->v;
    n[k.c] = opv(s, i.ops[1]);
    s.st.back().regs[i.dst] = mkagg(n);
    break;
  }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(i.I);
    Val a = opv(s, i.ops[0]), b = opv(s, i.ops[1]);
    std::vector<Val> n;
    int na = a.agg->v.size();
    for (int m : sv->getShuffleMask()) n.push_back(m < 0 ? a.agg->v[0] : m < na ? a.agg->v[m] : b.agg->v[m - na]);
    f.regs[i.dst] = mkagg(n);
    break;
  }
  case Instruction::AtomicRMW: {
    auto *rm = llvm::cast<AtomicRMWInst>(i.I);
    Val p = opv(s, i.ops[0]), v = opv(s, i.ops[1]);
    Val old = load(s, p, rm->getType());
    Val nv;
    switch (rm->getOperation()) {
    case AtomicRMWInst::Add: nv = bin(s, Instruction::Add, old, v, old.w); break;
    case AtomicRMWInst::Sub: nv = bin(s, Instruction::Sub, old, v, old.w); break;
    case AtomicRMWInst::Xchg: nv = v; break;
    default: incomplete(s, "atomicrmw");
    }
    store(s, p, nv, rm->getType());
    s.st.back().regs[i.dst] = old;
    break;
  }
  case Instruction::Fence: break;
  default:
    if (i.op >= Instruction::CastOpsBegin && i.op < Instruction::CastOpsEnd) {
      Val r = castv(s, i, opv(s, i.ops[0]));
      s.st.back().regs[i.dst] = r;
      break;
    }
    if (i.op >= Instruction::BinaryOpsBegin && i.op < Instruction::BinaryOpsEnd) {
      Val r = bin(s, i.op, opv(s, i.ops[0]), opv(s, i.ops[1]), i.w);
      s.st.back().regs[i.dst] = r;
      break;
    }
    incomplete(s, std::string("instruction ") + i.I->getOpcodeName());
  }
  s.st.back().ip++;
}

void Engine::finish(State *s, int why) {
  S.paths++;
  if (why == END_ERR) S.ended_err++;
  if (why == END_INCOMPLETE) S.ended_incomplete++;
  if (why == END_ASSUME) { S.paths--; S.ended_assume++; }
  if (why == END_OK) {
    // a sample of finished paths, for replaying against the real build
    uint64_t n = ++okPaths;
    if (n <= 2 || (n & (n - 1)) == 0) {
      try {
        ensureModel(*s);
        record(*s, "path", "ok", "path " + std::to_string(n), s->model.get());
      } catch (EndPath &) {
      }
    }
  }
  delete s;
}
void Engine::run(State *s) {
  uint64_t n = 0;
  try {
    while (true) {
      Frame &f = s->st.back();
      exec(*s, f.fn->bbs[f.bb].ins[f.ip]);
      n++;
      if (++s->steps > maxSteps) {
        S.steps += n; n = 0;
        fatal(*s, "nontermination", "more than " + std::to_string(maxSteps) + " instructions on one path");
      }
      if ((n & 0xfff) == 0) {
        if (sh->stop || now() - t0 > tlimit) {
          record(*s, "incomplete", sh->stop ? "stopped" : "time", sh->stop ? "stopped after enough violations" : "time limit reached", nullptr);
          sh->stop = 1;
          S.steps += n; n = 0;
          throw EndPath{END_INCOMPLETE};
        }
      }
    }
  } catch (EndPath &e) {
    S.steps += n;
    finish(s, e.why);
  }
}
