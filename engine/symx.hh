#pragma once
#include "state.hh"
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Module.h>
#include <deque>
#include <functional>

struct EndPath { int why; }; // 0 normal, 1 killed by error, 2 incomplete
enum { END_OK, END_ERR, END_INCOMPLETE, END_ASSUME };

struct Stats {
  uint64_t paths = 0, ended_err = 0, ended_incomplete = 0, ended_assume = 0;
  uint64_t steps = 0, queries = 0, unknown = 0, forks = 0, asserts = 0;
  uint64_t assert_queries = 0, approx = 0, covers = 0;
  double solver_s = 0;
};
struct Shared { // in shared memory, between worker processes
  volatile int next;
  volatile int stop;
  volatile int nviol;
  volatile long nassertq;
};

struct Engine {
  llvm::Module *M;
  const llvm::DataLayout *DL;
  std::map<const llvm::Function *, Fn *> fns;
  std::map<std::string, Fn *> fnByName;
  std::unordered_map<uint64_t, Fn *> fnByAddr;
  std::map<const llvm::GlobalValue *, uint64_t> gaddr;
  std::deque<State *> work;
  Stats S;
  Shared *sh = nullptr;
  double tlimit = 600, t0 = 0;
  uint64_t maxSteps = 200000000;
  int maxViol = 12;
  unsigned queryMs = 30000;
  unsigned maxEnum = 200;
  FILE *out = nullptr;
  std::map<std::string, int> coverHits;
  std::map<std::string, int> violSeen, incSeen;
  std::map<std::string, int> noteHits;
  bool trace = false, lines = false;

  // solver
  Z3_solver solver;
  std::vector<PC> synced;
  uint64_t nextState = 1, symCount = 0, okPaths = 0;

  Engine(llvm::Module *m);
  void setup();
  uint64_t newObj(State &s, uint64_t size, int kind, uint8_t how = 0);
  void initGlobal(State &s, const llvm::GlobalVariable &g);
  void writeConst(Obj *o, uint64_t off, const llvm::Constant *c);
  Val constVal(const llvm::Constant *c);
  void decode(Fn *f);
  Op mkop(const llvm::Value *v, std::map<const llvm::Value *, uint32_t> &num);

  // solving
  void sync(const PC &pc);
  Z3_lbool check(State &s, A extra, std::shared_ptr<Model> *m);
  void ensureModel(State &s);
  A evalA(State &s, A e);
  bool evalB(State &s, A e);
  bool known(State &s, A c, bool &v);
  bool decide(State &s, A c);
  bool must(State &s, A c); // c holds on every input of the path
  void assume(State &s, A c);
  void addPC(State &s, A c);
  uint64_t concBV(State &s, A e);
  double concReal(State &s, A e);
  Val conc(State &s, Val v); // to a concrete value
  bool enumVals(State &s, A e, std::vector<uint64_t> &out, unsigned lim);

  // memory
  Obj *obj(State &s, uint64_t addr) const;
  Obj *wobj(State &s, uint64_t addr);
  Obj *access(State &s, uint64_t addr, uint64_t n, bool write, const char *what);
  Val loadAt(State &s, uint64_t addr, llvm::Type *t);
  Val loadObj(Obj *o, uint64_t off, llvm::Type *t);
  void storeObj(Obj *o, uint64_t off, const Val &v, llvm::Type *t);
  void storeAt(State &s, uint64_t addr, const Val &v, llvm::Type *t);
  Val load(State &s, Val a, llvm::Type *t);
  void store(State &s, Val a, Val v, llvm::Type *t);
  bool symAddr(State &s, Val &a, uint64_t n, std::vector<uint64_t> &vals);
  Cell cellAt(Obj *o, uint64_t off) const;
  void putCell(Obj *o, uint64_t off, const Cell &c);
  std::string cstr(State &s, uint64_t a);

  // values
  A toBV(const Val &v);
  A toBool(const Val &v);
  Val rawToInt(State &s, Val v);
  Val bin(State &s, unsigned op, Val a, Val b, unsigned w);
  Val icmp(State &s, unsigned pred, Val a, Val b, unsigned w);
  Val fbin(State &s, unsigned op, Val a, Val b);
  Val fcmp(State &s, unsigned pred, Val a, Val b);
  Val castv(State &s, const Ins &i, Val v);
  Val castOne(State &s, unsigned op, Val v, llvm::Type *from, llvm::Type *to);
  Val select(State &s, Val c, Val a, Val b);
  Val fnorm(State &s, Val v); // float operand: CF or SR
  Val log10v(State &s, Val v, double scale);
  Val pow10v(State &s, Val v, double base);
  Val toLog(State &s, Val v);
  bool iteVals(A c, const Val &a, const Val &b, Val &r);

  // running
  Val opv(State &s, const Op &o) {
    return o.isreg ? s.st.back().regs[o.reg] : o.c;
  }
  void run(State *s);
  void exec(State &s, const Ins &i);
  void jump(State &s, int bb);
  void ret(State &s, Val v, bool isvoid);
  void call(State &s, const Ins &i);
  void pushFn(State &s, Fn *f, std::vector<Val> &args, const Ins *site);
  void finishCall(State &s, const Ins &i, Val r);
  bool intrinsic(State &s, const Ins &i, std::vector<Val> &a, Val &r, Fn *f);
  bool builtin(State &s, const Ins &i, std::vector<Val> &a, Val &r, Fn *f);
  void unwind(State &s);
  bool lpadMatch(State &s, llvm::LandingPadInst *lp, int &sel, bool &any);
  bool isBase(const std::string &derived, const std::string &base);
  std::string tiName(uint64_t a);
  int tiSel(uint64_t a);
  Val memcmpv(State &s, uint64_t a, uint64_t b, uint64_t n);
  void copyMem(State &s, uint64_t d, uint64_t src, uint64_t n);
  void freeObj(State &s, Val p, uint8_t how, const char *what);

  void error(State &s, const std::string &kind, const std::string &msg, std::shared_ptr<Model> m = nullptr);
  [[noreturn]] void fatal(State &s, const std::string &kind, const std::string &msg);
  [[noreturn]] void incomplete(State &s, const std::string &msg);
  std::string loc(State &s);
  void record(State &s, const char *type, const std::string &kind, const std::string &msg, Model *m);
  void explore(int jobs);
  void finish(State *s, int why);
  double now();
  void summary();
};
extern Engine *E;
