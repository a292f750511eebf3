#include "symx.hh"
#include <time.h>

double Engine::now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

void Engine::sync(const PC &pc) {
  std::vector<PC> chain;
  int depth = pc ? pc->depth : 0;
  PC p = pc;
  while ((int)synced.size() > depth) {
    Z3_solver_pop(C, solver, 1);
    synced.pop_back();
  }
  while (p && !((int)synced.size() >= p->depth && synced[p->depth - 1] == p)) {
    chain.push_back(p);
    p = p->up;
  }
  int keepn = p ? p->depth : 0;
  if ((int)synced.size() > keepn) {
    Z3_solver_pop(C, solver, synced.size() - keepn);
    synced.resize(keepn);
  }
  for (auto it = chain.rbegin(); it != chain.rend(); ++it) {
    Z3_solver_push(C, solver);
    Z3_solver_assert(C, solver, (*it)->c);
    synced.push_back(*it);
  }
}

Z3_lbool Engine::check(State &s, A extra, std::shared_ptr<Model> *m) {
  double a = now();
  sync(s.pc);
  S.queries++;
  Z3_lbool r;
  Z3_solver_push(C, solver);
  if (extra)
    Z3_solver_assert(C, solver, extra);
  r = Z3_solver_check(C, solver);
  if (r == Z3_L_TRUE && m)
    *m = std::make_shared<Model>(Z3_solver_get_model(C, solver));
  Z3_solver_pop(C, solver, 1);
  if (r == Z3_L_UNDEF) {
    // second opinion: a fresh solver with the default tactic
    Z3_solver t = Z3_mk_solver(C);
    Z3_solver_inc_ref(C, t);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), queryMs);
    Z3_solver_set_params(C, t, p);
    for (auto &n : synced)
      Z3_solver_assert(C, t, n->c);
    if (extra)
      Z3_solver_assert(C, t, extra);
    r = Z3_solver_check(C, t);
    if (r == Z3_L_TRUE && m)
      *m = std::make_shared<Model>(Z3_solver_get_model(C, t));
    Z3_params_dec_ref(C, p);
    Z3_solver_dec_ref(C, t);
  }
  S.solver_s += now() - a;
  return r;
}

void Engine::ensureModel(State &s) {
  if (s.model)
    return;
  Z3_lbool r = check(s, nullptr, &s.model);
  if (r == Z3_L_FALSE)
    throw EndPath{END_ASSUME};
  if (r != Z3_L_TRUE)
    incomplete(s, "solver unknown on the path condition");
}

A Engine::evalA(State &s, A e) {
  ensureModel(s);
  auto it = s.model->memo.find(e);
  if (it != s.model->memo.end())
    return it->second;
  Z3_ast r = nullptr;
  if (!Z3_model_eval(C, s.model->m, e, true, &r) || !r)
    incomplete(s, "model evaluation failed");
  keep(r);
  s.model->memo[e] = r;
  return r;
}
bool Engine::evalB(State &s, A e) {
  A r = evalA(s, e);
  if (!isTrue(r) && !isFalse(r))
    incomplete(s, "model evaluation not boolean");
  return isTrue(r);
}
void Engine::addPC(State &s, A c) {
  auto n = std::make_shared<PCNode>();
  n->c = c;
  n->up = s.pc;
  n->depth = s.pc ? s.pc->depth + 1 : 1;
  s.pc = n;
  s.implied.insert(c);
}
bool Engine::known(State &s, A c, bool &v) {
  if (isTrue(c)) { v = true; return true; }
  if (isFalse(c)) { v = false; return true; }
  if (s.implied.count(c)) { v = true; return true; }
  if (s.implied.count(mkNot(c))) { v = false; return true; }
  return false;
}
bool Engine::decide(State &s, A c) {
  bool v;
  if (known(s, c, v))
    return v;
  bool b = evalB(s, c);
  A self = b ? c : mkNot(c), other = b ? mkNot(c) : c;
  std::shared_ptr<Model> m;
  Z3_lbool r = check(s, other, &m);
  if (r == Z3_L_FALSE) {
    s.implied.insert(self);
    return b;
  }
  if (r == Z3_L_UNDEF) {
    S.unknown++;
    record(s, "incomplete", "solver", "unknown on a branch at " + loc(s), nullptr);
    addPC(s, self);
    s.approx = true;
    return b;
  }
  State *o = new State(s);
  o->id = nextState++;
  addPC(*o, other);
  o->model = m;
  work.push_back(o);
  S.forks++;
  addPC(s, self);
  return b;
}
bool Engine::must(State &s, A c) {
  bool v;
  if (known(s, c, v))
    return v;
  if (!evalB(s, c))
    return false;
  Z3_lbool r = check(s, mkNot(c), nullptr);
  if (r == Z3_L_FALSE) {
    s.implied.insert(c);
    return true;
  }
  return false;
}
void Engine::assume(State &s, A c) {
  bool v;
  if (known(s, c, v)) {
    if (!v)
      throw EndPath{END_ASSUME};
    return;
  }
  if (s.model && evalB(s, c)) {
    addPC(s, c);
    return;
  }
  std::shared_ptr<Model> m;
  Z3_lbool r = check(s, c, &m);
  if (r == Z3_L_FALSE)
    throw EndPath{END_ASSUME};
  if (r == Z3_L_UNDEF)
    incomplete(s, "solver unknown on an assumption");
  addPC(s, c);
  s.model = m;
}
uint64_t Engine::concBV(State &s, A e) {
  uint64_t v;
  if (isNum(e, &v))
    return v;
  unsigned w = bvw(e);
  while (true) {
    A r = evalA(s, e);
    if (!isNum(r, &v))
      incomplete(s, "no numeral for a bit-vector");
    if (decide(s, mkCmp(EQ, e, bvnum(v, w))))
      return v;
  }
}
double Engine::concReal(State &s, A e) {
  double d;
  if (realIsNum(e, &d))
    return d;
  A r = evalA(s, e);
  d = Z3_get_numeral_double(C, r);
  if (!must(s, mkRCmp(REQ, e, r))) {
    S.approx++;
    s.approx = true;
    record(s, "incomplete", "concretised", "symbolic real fixed to one value at " + loc(s), nullptr);
    addPC(s, mkRCmp(REQ, e, r));
  }
  return d;
}
bool Engine::enumVals(State &s, A e, std::vector<uint64_t> &o, unsigned lim) {
  auto it = s.dom.find(e);
  if (it != s.dom.end()) {
    o = *it->second;
    return true;
  }
  unsigned w = bvw(e);
  double a = now();
  sync(s.pc);
  Z3_solver_push(C, solver);
  bool ok = false;
  uint64_t v;
  std::set<uint64_t> got;
  // the current model gives the first value for free
  if (s.model) {
    A r = evalA(s, e);
    if (isNum(r, &v)) {
      got.insert(v);
      Z3_solver_assert(C, solver, mkNot(mkCmp(EQ, e, bvnum(v, w))));
    }
  }
  while (true) {
    S.queries++;
    Z3_lbool r = Z3_solver_check(C, solver);
    if (r == Z3_L_FALSE) { ok = true; break; }
    if (r != Z3_L_TRUE || got.size() >= lim) break;
    Z3_model m = Z3_solver_get_model(C, solver);
    Z3_model_inc_ref(C, m);
    Z3_ast x = nullptr;
    Z3_model_eval(C, m, e, true, &x);
    bool num = x && isNum(x, &v);
    Z3_model_dec_ref(C, m);
    if (!num) break;
    got.insert(v);
    Z3_solver_assert(C, solver, mkNot(mkCmp(EQ, e, bvnum(v, w))));
  }
  Z3_solver_pop(C, solver, 1);
  S.solver_s += now() - a;
  if (!ok)
    return false;
  o.assign(got.begin(), got.end());
  s.dom[e] = std::make_shared<std::vector<uint64_t>>(o);
  return true;
}
