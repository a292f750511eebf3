#include "symx.hh"
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

Engine *E;
static void zerr(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e));
  throw EndPath{END_INCOMPLETE};
}

void Engine::summary() {
  fprintf(out,
          "{\"type\":\"stats\",\"paths\":%lu,\"ended_err\":%lu,\"ended_incomplete\":%lu,\"ended_assume\":%lu,"
          "\"steps\":%lu,\"queries\":%lu,\"unknown\":%lu,\"forks\":%lu,\"asserts\":%lu,\"assert_queries\":%lu,"
          "\"approx\":%lu,\"covers\":%lu,\"solver_s\":%.3f}\n",
          S.paths, S.ended_err, S.ended_incomplete, S.ended_assume, S.steps, S.queries, S.unknown, S.forks, S.asserts,
          S.assert_queries, S.approx, S.covers, S.solver_s);
  for (auto &f : fns)
    if (f.second->calls && !f.second->F->isDeclaration()) {
      std::string file;
      if (auto *sp = f.second->F->getSubprogram()) file = sp->getFilename().str();
      fprintf(out, "{\"type\":\"fn\",\"name\":\"%s\",\"file\":\"%s\",\"calls\":%lu}\n", f.second->name.c_str(), file.c_str(),
              f.second->calls);
    }
  if (lines) { // lines of the program executed (development aid)
    std::map<std::string, std::set<unsigned>> hit;
    for (auto &f : fns)
      for (auto &b : f.second->bbs)
        if (b.hit)
          for (auto &i : b.ins)
            if (i.I)
              if (const DebugLoc &d = i.I->getDebugLoc())
                if (d.getLine()) hit[d->getFilename().str()].insert(d.getLine());
    for (auto &h : hit) {
      fprintf(out, "{\"type\":\"lines\",\"file\":\"%s\",\"hit\":[", h.first.c_str());
      const char *sep = "";
      for (auto l : h.second) { fprintf(out, "%s%u", sep, l); sep = ","; }
      fprintf(out, "]}\n");
    }
  }
  fflush(out);
}

void Engine::explore(int jobs) {
  // breadth-first until there is enough to share, then one process per core
  size_t want = jobs > 1 ? 24 * jobs : 1;
  double start = now();
  while (!work.empty() && (jobs <= 1 || work.size() < want)) {
    if (jobs > 1 && work.size() >= 2u * jobs && now() - start > 20) break;
    State *s;
    if (jobs > 1) { s = work.front(); work.pop_front(); }
    else { s = work.back(); work.pop_back(); }
    if (sh->stop) { S.paths++; S.ended_incomplete++; continue; }
    run(s);
  }
  if (work.empty()) return;
  std::vector<State *> init(work.begin(), work.end());
  work.clear();
  std::vector<pid_t> kids;
  std::string base = "";
  fflush(out);
  for (int j = 0; j < jobs; j++) {
    pid_t p = fork();
    if (p == 0) {
      S = Stats();
      for (auto &f : fns) f.second->calls = 0;
      // (append mode: one write per line)
      while (true) {
        int k = __sync_fetch_and_add(&sh->next, 1);
        if (k >= (int)init.size()) break;
        work.push_back(init[k]);
        while (!work.empty()) {
          State *s = work.back();
          work.pop_back();
          if (sh->stop) { S.paths++; S.ended_incomplete++; continue; }
          run(s);
        }
      }
      summary();
      fclose(out);
      _exit(0);
    }
    kids.push_back(p);
  }
  for (auto p : kids) {
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
      fprintf(out, "{\"type\":\"incomplete\",\"kind\":\"worker\",\"msg\":\"a worker process died (status %d)\",\"loc\":\"\"}\n", st);
    }
  }
}

int main(int argc, char **argv) {
  std::vector<std::string> mods;
  int jobs = 1;
  double tl = 600;
  std::string outf = "/dev/stdout";
  uint64_t ms = 0;
  int maxv = 12;
  bool trace = false, lines = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-j") jobs = atoi(argv[++i]);
    else if (a == "-t") tl = atof(argv[++i]);
    else if (a == "-o") outf = argv[++i];
    else if (a == "-s") ms = strtoull(argv[++i], 0, 10);
    else if (a == "-v") maxv = atoi(argv[++i]);
    else if (a == "-T") trace = true;
    else if (a == "-L") lines = true;
    else mods.push_back(a);
  }
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  for (auto &m : mods) {
    SMDiagnostic d;
    auto x = parseIRFile(m, d, ctx);
    if (!x) {
      d.print("symx", errs());
      return 3;
    }
    // a tool: its main gets the tool's name, everything else becomes its own
    std::string base = m.substr(m.rfind('/') + 1);
    if (base.compare(0, 4, "app_") == 0) {
      std::string nm = base.substr(0, base.find('.')) + "_main";
      for (auto &f : *x)
        if (!f.isDeclaration() && f.hasExternalLinkage()) {
          if (f.getName() == "main") f.setName(nm);
          else f.setLinkage(GlobalValue::InternalLinkage);
        }
      for (auto &g : x->globals())
        if (!g.isDeclaration() && g.hasExternalLinkage()) g.setLinkage(GlobalValue::InternalLinkage);
    }
    if (!M) M = std::move(x);
    else if (Linker::linkModules(*M, std::move(x))) {
      fprintf(stderr, "symx: link failed\n");
      return 3;
    }
  }
  Z3_global_param_set("smt.random_seed", "1");
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(C, zerr);
  sBool = Z3_mk_bool_sort(C);
  Z3_inc_ref(C, Z3_sort_to_ast(C, sBool));
  sReal = Z3_mk_real_sort(C);
  Z3_inc_ref(C, Z3_sort_to_ast(C, sReal));
  E = new Engine(M.get());
  E->sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  E->tlimit = tl;
  E->t0 = E->now();
  E->trace = trace;
  E->lines = lines;
  E->maxViol = maxv;
  if (ms) E->maxSteps = ms;
  E->out = fopen(outf.c_str(), "a");
  setvbuf(E->out, (char *)malloc(1 << 22), _IOFBF, 1 << 22);
  E->setup();
  if (lines) {
    std::map<std::string, std::set<unsigned>> all;
    for (auto &f : *M)
      for (auto &b : f)
        for (auto &i : b)
          if (const DebugLoc &d = i.getDebugLoc())
            if (d.getLine()) all[d->getFilename().str()].insert(d.getLine());
    for (auto &h : all) {
      fprintf(E->out, "{\"type\":\"all\",\"file\":\"%s\",\"lines\":[", h.first.c_str());
      const char *sep = "";
      for (auto l : h.second) { fprintf(E->out, "%s%u", sep, l); sep = ","; }
      fprintf(E->out, "]}\n");
    }
  }
  E->explore(jobs);
  E->summary();
  fprintf(E->out, "{\"type\":\"done\",\"wall\":%.3f,\"stop\":%d}\n", E->now() - E->t0, E->sh->stop);
  fclose(E->out);
  _exit(0);
}
