// symx: symbolic executor for LLVM 18 bitcode (fork-based exploration, Z3 back end).
#include "interp.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <fcntl.h>
#include <math.h>
#include <time.h>
#include <map>
#include <unordered_set>
#include <algorithm>
using namespace llvm;

// ---------------------------------------------------------------- memory
static const u64 ARENA = 0x10000000000ull, ASIZE = 4ull << 30, FLAGS = 0x20000000000ull, SHADOW = 0x30000000000ull;
static const u64 HEAP0 = ARENA + (16u << 20), STACK0 = ARENA + (3ull << 30), STACKMAX = 256u << 20;
static inline u8* FL(u64 a) { return (u8*)(FLAGS + (a - ARENA)); }
static inline Expr*& SX(u64 a) { return ((Expr**)SHADOW)[a - ARENA]; }
static inline bool inArena(u64 a) { return a - ARENA < ASIZE; }
enum { FG_OK = 1, FG_SYM = 2, FG_RO = 4 };
static u64 heapTop = HEAP0, stackTop = STACK0, stackLim = STACK0 + STACKMAX, codeTop = ARENA + 4096;
struct Obj { u64 size; bool live; bool heap; };
static std::unordered_map<u64, Obj> objs; // heap objects + globals by base
static u64 arenaAlloc(u64 size, u64 align, bool ro = false) {
  if (align < 16) align = 16;
  u64 a = (heapTop + 32 + align - 1) & ~(align - 1);
  u64 end = a + size;
  if (end + 64 > STACK0) return 0;
  heapTop = (end + 15) & ~15ull;
  memset(FL(a), FG_OK | (ro ? FG_RO : 0), size);
  return a;
}

// ---------------------------------------------------------------- bytecode
enum Op : u16 { O_MOV, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE, O_SELECT, O_TRNC, O_SEXT, O_LOAD, O_STORE, O_GEPI, O_GEPV,
  O_BR, O_CBR, O_SWITCH, O_CALL, O_RET, O_UNREACH, O_FBIN, O_FCMP, O_FNEG, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPTRUNC, O_FPEXT, O_ALLOCA, O_UNSUP, O_VASTART, O_ATOMICRMW, O_CMPXCHG, O_NOP };
struct Inst { u16 op; u8 w; u8 n; i32 d, a, b, c; u64 imm; u32 dbg; u32 x; };
struct Edge { i32 pc; u32 ncopy; u32 off; };
struct SwitchT { i32 v; i32 w; std::vector<std::pair<u64, int>> cases; int def; };
struct ArgD { i32 slot; u8 n; u8 kind; u32 byval; u32 align; u8 w; };
struct Ext { std::string name; ModelFn fn; void* nat; bool allowed; };
struct CallSite { i32 callee; Func* direct; std::vector<ArgD> args; i32 ret; u8 nret; u8 retKind, retW; u32 fixed; bool isVarFn; std::string asmStr; };
struct Func { Function* F; std::string name; bool translated = false; u32 id; int nparams = 0, nslots = 0; u64 frameSize = 0; bool vararg = false; int retSlots = 0;
  std::vector<Inst> code; std::vector<Edge> edges; std::vector<std::pair<i32, i32>> copies; std::vector<SwitchT> switches; std::vector<CallSite> calls; std::vector<std::pair<u64, u64>> allocas;
  std::vector<DebugLoc> dbg; Ext* ext = nullptr; u64 addr = 0; int maxCopy = 0; };
static std::vector<Val> cpool;
static std::map<std::pair<u64, int>, int> cpoolIdx;
static std::vector<Func*> funcs; // by id
static std::unordered_map<const Function*, Func*> fmap;
static std::unordered_map<u64, Func*> faddr;
static std::unordered_map<std::string, Func*> fbyname;
static std::unordered_map<const GlobalVariable*, u64> gaddr;
static Module* M; static const DataLayout* DL; static LLVMContext LC;

struct Frame { Func* f; u32 pc; u32 base; u64 spSave; CallSite* cs; u64 va; };
static std::vector<Frame> frames; static std::vector<Val> regs; static u32 regTop = 0;

// ---------------------------------------------------------------- options
static std::string optOut = "/tmp/sx-out"; static std::string optEntry = "main"; static u64 optMaxSteps = 2000000000ull; static int optJobs = 8, optVerbose = 0, optMaxConc = 300, optSamples = 20, optTime = 600, optMaxViol = 12; static u32 optDepth = 6000; static u64 optRlimit = 200000000; static bool optAbortOk = false, optStdout = false;
static std::vector<std::string> optAllow; static std::unordered_set<std::string> allowSet;
static u64 optPathSteps = 300000000ull; static bool optNoDfs = false;

// ---------------------------------------------------------------- state
Shared* SH; static Z3_context zc; static Z3_solver zs; static Model model; static std::unordered_map<Expr*, bool> known; static std::vector<Expr*> pc; static u32 nvars = 0;
static u64 steps = 0, lastFlush = 0, symStepsBase = 0; static struct timespec t0; static double deadline;
static std::vector<pid_t> kids; static bool ownTok = true; static u64 pathId = 1; static pid_t rootPid;
struct SymRec { std::string name; u32 var0, len; }; static std::vector<SymRec> symRecs;
struct ObsRec { std::string name; Expr* e; u64 c; u8 w; }; static std::vector<ObsRec> obs;
static std::vector<std::string> notes;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
[[noreturn]] static void endPath(const char* why);
[[noreturn]] static void fault(const char* kind, const std::string& msg);
static void incomplete(const std::string& why) {
  SH->incomplete++; int z = 0;
  if (SH->incompleteSet.compare_exchange_strong(z, 1)) snprintf(SH->incompleteWhy, sizeof SH->incompleteWhy, "%s", why.c_str());
}
static std::string locOf(Func* f, u32 p) {
  std::string s = f->name;
  if (p < f->code.size()) { u32 d = f->code[p].dbg; if (d < f->dbg.size() && f->dbg[d]) { auto* l = f->dbg[d].get(); std::string fn = l->getFilename().str(); size_t k = fn.rfind('/'); s += "(" + (k == std::string::npos ? fn : fn.substr(k + 1)) + ":" + std::to_string(l->getLine());
      DILocation* ia = l->getInlinedAt(); if (ia) s += " in " + l->getScope()->getSubprogram()->getName().str(); s += ")"; } }
  return s;
}
static std::string backtrace() { std::string s; int n = 0; for (size_t i = frames.size(); i-- > 0 && n < 12; n++) { if (n) s += " < "; s += locOf(frames[i].f, frames[i].pc); } return s; }

// ---------------------------------------------------------------- solver
static void solverInit() {
  Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true"); zc = Z3_mk_context_rc(c); Z3_del_config(c);
  zs = getenv("SYMX_SIMPLE") ? Z3_mk_simple_solver(zc) : Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")); Z3_solver_inc_ref(zc, zs);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); 
  Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), (unsigned)optRlimit); Z3_solver_set_params(zc, zs, p); Z3_params_dec_ref(zc, p);
}
// Independence: variables are grouped by the constraints that mention them; a query only needs its own groups.
static std::vector<u32> grp; static std::vector<std::vector<Expr*>> grpCs; static std::vector<std::vector<u32>> grpVars;
struct Dom { u64 b[4]; };
static std::vector<Dom> dom; // per variable: values allowed by the unary constraints
static void growVars(u32 n) { while (grp.size() < n) { u32 i = grp.size(); grp.push_back(i); grpCs.emplace_back(); grpVars.push_back({i}); dom.push_back(Dom{{~0ull, ~0ull, ~0ull, ~0ull}}); } }
static std::unordered_map<Expr*, Dom> domTab; static Model domModel;
static const Dom& tableOf(Expr* e) { auto it = domTab.find(e); if (it != domTab.end()) return it->second; u32 v = supOf(e)->v[0]; if (domModel.v.size() <= v) domModel.v.resize(v + 1, 0); Dom d{{0, 0, 0, 0}};
  for (unsigned x = 0; x < 256; x++) { domModel.v[v] = x; evalNewGen(); if (evalExpr(e, domModel)) d.b[x >> 6] |= 1ull << (x & 63); } evalNewGen(); return domTab[e] = d; }
struct CacheEnt { std::atomic<u64> k1; u64 k2; u8 res, n, val[46]; };
static CacheEnt* QC; static const u64 QCN = 1 << 21;
static void cacheInit() { QC = (CacheEnt*)mmap(0, sizeof(CacheEnt) * QCN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
// 1 sat (out filled), 0 unsat, -1 unknown
static int checkSat(Expr* cond, Model* out, bool prove = false) {
  growVars(nvars);
  std::vector<u32> roots; for (u32 v : supOf(cond)->v) { u32 g = grp[v]; if (std::find(roots.begin(), roots.end(), g) == roots.end()) roots.push_back(g); }
  size_t nc = 0; for (u32 g : roots) nc += grpCs[g].size();
  if (now() > deadline) { incomplete("time budget exhausted"); SH->stop = 1; endPath("deadline"); }
  // one byte, unary constraints only: a witness by truth table; unsat verdicts are left to Z3
  if (!prove && supOf(cond)->v.size() == 1 && grpVars[roots[0]].size() == 1) { u32 v = supOf(cond)->v[0]; const Dom& t = tableOf(cond); for (int w = 0; w < 4; w++) { u64 m = t.b[w] & dom[v].b[w]; if (m) { SH->tableq++; if (out) { out->v = model.v; out->v.resize(nvars, 0); out->v[v] = w * 64 + __builtin_ctzll(m); } return 1; } } }
  std::vector<u32> vars; for (u32 g : roots) vars.insert(vars.end(), grpVars[g].begin(), grpVars[g].end()); std::sort(vars.begin(), vars.end());
  u64 k1, k2; hashOf(cond, k1, k2); for (u32 g : roots) for (Expr* e : grpCs[g]) { u64 a, b; hashOf(e, a, b); k1 += a * 0x9E3779B97F4A7C15ull; k2 += b * 0xD6E8FEB86659FD93ull; } k1 ^= k1 >> 31; k1 |= 1;
  CacheEnt* slot = nullptr; for (u64 i = 0; i < 8; i++) { CacheEnt& c = QC[((k1 >> 1) + i) & (QCN - 1)]; u64 kk = c.k1.load(std::memory_order_acquire); if (!kk) { if (!slot) slot = &c; break; } if (kk == k1 && c.k2 == k2 && c.n) { if (c.res == 0) { SH->cacheq++; return 0; } if (c.res == 1 && c.n == vars.size() + 1) { SH->cacheq++; if (out) { out->v = model.v; out->v.resize(nvars, 0); for (size_t q = 0; q < vars.size(); q++) out->v[vars[q]] = c.val[q]; } 
        evalNewGen(); bool ok = !out || evalExpr(cond, *out); evalNewGen(); if (ok) return 1; } } }
  double a = now(); SH->queries++;
  Z3_lbool r; Z3_solver sv = zs; static int fresh = getenv("SYMX_FRESH") ? 1 : 0;
  if (fresh) { sv = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")); Z3_solver_inc_ref(zc, sv); } else Z3_solver_push(zc, sv);
  for (u32 g : roots) for (Expr* e : grpCs[g]) Z3_solver_assert(zc, sv, zBool(zc, e));
  Z3_solver_assert(zc, sv, zBool(zc, cond));
  r = Z3_solver_check(zc, sv);
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; Model tmp; Model* o = out ? out : &tmp;
  if (res == 1) {
    Z3_model m = Z3_solver_get_model(zc, sv); Z3_model_inc_ref(zc, m); o->v = model.v; o->v.resize(nvars, 0);
    for (u32 i : vars) { Expr* v = EP.var(i); if (!v->zbv) continue; Z3_ast x; 
      if (Z3_model_eval(zc, m, zBV(zc, v), false, &x)) { Z3_inc_ref(zc, x); uint64_t k = 0; if (Z3_get_ast_kind(zc, x) == Z3_NUMERAL_AST) { Z3_get_numeral_uint64(zc, x, &k); o->v[i] = (u8)k; } Z3_dec_ref(zc, x); } }
    Z3_model_dec_ref(zc, m);
  }
  if (fresh) Z3_solver_dec_ref(zc, sv); else Z3_solver_pop(zc, sv, 1);
  double dt = now() - a; SH->solverNs += (u64)(dt * 1e9);
  if (res == 1) { SH->satq++; 
    evalNewGen(); bool ok = evalExpr(cond, *o); if (ok) for (u32 g : roots) for (Expr* e : grpCs[g]) if (!evalExpr(e, *o)) { ok = false; break; }
    evalNewGen(); if (!ok) { SH->engineErr++; incomplete("solver model does not satisfy the query (engine error)"); } }
  else if (res == 0) SH->unsatq++; else SH->unkq++;
  if (res >= 0 && slot && (res == 0 || vars.size() <= sizeof slot->val)) { u64 z = 0; if (slot->k1.compare_exchange_strong(z, k1)) { slot->k2 = k2; slot->res = res; if (res == 1) for (size_t q = 0; q < vars.size(); q++) slot->val[q] = o->v[vars[q]]; std::atomic_thread_fence(std::memory_order_release); slot->n = res ? (u8)(vars.size() + 1) : 1; } }
  if (optVerbose > 1) { fprintf(stderr, "[q %d %.1fms] ", res, dt * 1e3); printExpr(stderr, cond, 5); fprintf(stderr, "\n"); }
  return res;
}
static void groupConstraint(Expr* e) { growVars(nvars); Sup* s = supOf(e); if (s->v.empty()) return; u32 g = grp[s->v[0]];
  for (u32 v : s->v) if (grp[v] != g) { u32 h = grp[v]; for (u32 x : grpVars[h]) grp[x] = g; grpVars[g].insert(grpVars[g].end(), grpVars[h].begin(), grpVars[h].end()); grpCs[g].insert(grpCs[g].end(), grpCs[h].begin(), grpCs[h].end()); grpVars[h].clear(); grpCs[h].clear(); }
  grpCs[g].push_back(e); if (s->v.size() == 1) { const Dom& t = tableOf(e); for (int w = 0; w < 4; w++) dom[s->v[0]].b[w] &= t.b[w]; } }
static void learn(Expr* e, bool v) { known[e] = v; if (e->op == E_NOT) known[e->a] = !v; if (v && e->op == E_AND) { learn(e->a, true); learn(e->b, true); } if (!v && e->op == E_OR) { learn(e->a, false); learn(e->b, false); }
  Expr* n = mkNot(e); known[n] = !v; }
static void assertPC(Expr* e) { if (isC(e)) return; if (e->op == E_AND) { assertPC(e->a); assertPC(e->b); learn(e, true); return; } pc.push_back(e); groupConstraint(e); learn(e, true); }
static int knownVal(Expr* e) { auto it = known.find(e); if (it == known.end()) return -1; return it->second; }
static u64 ev(Expr* e) { return evalExpr(e, model); }
static void setModel(const Model& m) { model = m; evalNewGen(); }

// ---------------------------------------------------------------- exploration
static void flushSteps() { SH->steps += steps - lastFlush; lastFlush = steps; }
static void reapKids(bool block) {
  for (size_t i = 0; i < kids.size();) { int st; pid_t r = waitpid(kids[i], &st, WNOHANG); if (r == kids[i]) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->engineErr++; incomplete("a worker process died abnormally (status " + std::to_string(st) + ")"); sem_post(&SH->tok); } kids.erase(kids.begin() + i); } else i++; }
}
static bool forkState() { // returns true in child
  if (SH->stop) endPath("stopped");
  flushSteps(); SH->forks++;
  bool par = sem_trywait(&SH->tok) == 0;
  pid_t p;
  while ((p = fork()) < 0) usleep(20000);
  if (p == 0) { kids.clear(); ownTok = par; pathId = pathId * 6364136223846793005ull + 1442695040888963407ull; return true; }
  if (par) { kids.push_back(p); if (kids.size() > 16) reapKids(false); }
  else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->engineErr++; incomplete("a worker process died abnormally (status " + std::to_string(st) + ")"); } if (SH->stop) endPath("stopped"); }
  return false;
}
static void dumpCase(const std::string& fn, const char* kind, const std::string& msg, const std::string& loc) {
  FILE* f = fopen((fn + ".bin").c_str(), "wb"); if (!f) return; fwrite(model.v.data(), 1, nvars, f); fclose(f);
  f = fopen((fn + ".txt").c_str(), "w"); fprintf(f, "kind: %s\nmsg: %s\nloc: %s\n", kind, msg.c_str(), loc.c_str());
  for (auto& s : symRecs) { fprintf(f, "sym %s[%u] =", s.name.c_str(), s.len); for (u32 i = 0; i < s.len; i++) fprintf(f, " %02x", model.v[s.var0 + i]); fprintf(f, "\n"); }
  for (auto& o : obs) fprintf(f, "obs %s = %llu\n", o.name.c_str(), (unsigned long long)(o.e ? ev(o.e) : o.c));
  fclose(f);
}
[[noreturn]] static void endPath(const char* why) {
  bool counted = !strcmp(why, "done") || !strcmp(why, "fault") || !strcmp(why, "exit");
  if (counted) { u64 n = SH->paths++; 
    if (strcmp(why, "fault")) { // sample for native validation: first few, then pseudo-random by path id
      u64 h = pathId * 0x9E3779B97F4A7C15ull; if (n < (u64)optSamples / 2 || (h >> 40) % (1 + n / 4) == 0) { int k = SH->samples++; if (k < optSamples) dumpCase(optOut + "/s" + std::to_string(k), why, "", ""); else SH->samples--; } } }
  flushSteps(); u64 ps = steps - symStepsBase, mx = SH->maxPathSteps; while (ps > mx && !SH->maxPathSteps.compare_exchange_weak(mx, ps)) {}
  fflush(stderr);
  if (getpid() != rootPid) { reapKids(false); if (ownTok) sem_post(&SH->tok); _exit(0); }
  // root: wait for everything
  extern void rootFinish(); rootFinish(); _exit(0);
}
static std::unordered_set<std::string> knownKeys;
[[noreturn]] static void fault(const char* kind, const std::string& msg) {
  SH->faults++;
  std::string loc = backtrace(); std::string key = std::string(kind) + "|" + msg + "|" + (frames.empty() ? "" : locOf(frames.back().f, frames.back().pc));
  bool dup = false; int n = SH->nviol; 
  for (int i = 0; i < SH_MAXV; i++) { if (SH->viol[i].used == 2) { std::string k2 = std::string(SH->viol[i].kind) + "|" + SH->viol[i].msg; std::string l2 = SH->viol[i].loc; size_t q = l2.find(" < "); if (q != std::string::npos) l2 = l2.substr(0, q); if (k2 + "|" + l2 == key) { dup = true; break; } } }
  if (!dup) for (int i = 0; i < SH_MAXV; i++) { int z = 0; if (SH->viol[i].used.compare_exchange_strong(z, 1)) { ShViol& v = SH->viol[i]; snprintf(v.kind, sizeof v.kind, "%s", kind); snprintf(v.msg, sizeof v.msg, "%s", msg.c_str()); snprintf(v.loc, sizeof v.loc, "%s", loc.c_str()); std::string fn = optOut + "/v" + std::to_string(i); snprintf(v.file, sizeof v.file, "%s", fn.c_str()); dumpCase(fn, kind, msg, loc); v.used = 2; SH->nviol++; break; } }
  if (SH->nviol >= optMaxViol) { SH->stop = 2; }
  endPath("fault");
}
// decide a symbolic 1-bit condition; may fork
static bool decide(Expr* c) {
  if (isC(c)) return c->k;
  int k = knownVal(c); if (k >= 0) return k;
  bool v = ev(c); Expr* other = v ? mkNot(c) : c; Expr* self = v ? c : mkNot(c);
  Model m2; int r = checkSat(other, &m2);
  if (r == 0) { learn(self, true); return v; }
  if (r < 0) { incomplete("solver gave up on a branch at " + backtrace()); assertPC(self); return v; }
  if (forkState()) { setModel(m2); assertPC(other); return !v; }
  assertPC(self); return v;
}
static void assumeTrue(Expr* c) { // kill path if infeasible
  if (isC(c)) { if (!c->k) { SH->assumeKill++; endPath("assume"); } return; }
  int k = knownVal(c); if (k == 1) return; if (k == 0) { SH->assumeKill++; endPath("assume"); }
  if (ev(c)) { assertPC(c); return; }
  Model m2; int r = checkSat(c, &m2); if (r == 0) { SH->assumeKill++; endPath("assume"); } if (r < 0) { incomplete("solver gave up on an assumption"); endPath("assume"); }
  setModel(m2); assertPC(c);
}
static void record(const char* kind, const std::string& msg, const Model& m) { // fault on a side condition, path continues
  Model save = model; if (1) { pid_t p; fflush(stderr); while ((p = fork()) < 0) usleep(20000); if (p == 0) { kids.clear(); ownTok = false; setModel(m); fault(kind, msg); } int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (SH->stop) endPath("stopped"); }
  (void)save;
}
// require cond; if it can fail record a fault; continue under cond
static void require(Expr* c, const char* kind, const std::string& msg) {
  if (isC(c)) { if (!c->k) fault(kind, msg); return; }
  int k = knownVal(c); if (k == 1) return;
  Expr* n = mkNot(c);
  if (!ev(c)) { record(kind, msg, model); assumeTrue(c); return; }
  Model m2; int r = checkSat(n, &m2, true);
  if (r == 0) { SH->unsatAsserts++; learn(c, true); return; }
  if (r < 0) { if (getenv("SX_DEBUG")) { printExpr(stderr, c, 12); fprintf(stderr, "\n"); } incomplete("solver gave up on an assertion: " + msg); assertPC(c); return; }
  record(kind, msg, m2); assertPC(c);
}
static u64 concretize(Expr* e, const char* why) {
  if (isC(e)) return e->k;
  for (int n = 0;; n++) {
    u64 v = ev(e); Expr* eq = mk(E_EQ, e, mkC(v, e->w));
    int k = knownVal(eq); if (k == 1) return v;
    Model m2; int r = checkSat(mkNot(eq), &m2);
    if (r == 0) { learn(eq, true); return v; }
    if (r < 0) { incomplete(std::string("solver gave up concretizing ") + why); assertPC(eq); return v; }
    if (n > optMaxConc) { incomplete(std::string("too many values for ") + why + " at " + backtrace()); assertPC(eq); return v; }
    SH->concForks++;
    if (forkState()) { assertPC(eq); return v; }   // child takes value v
    assertPC(mkNot(eq)); setModel(m2);
  }
}

// ---------------------------------------------------------------- memory access
static inline Expr* byteExpr(u64 a) { return (*FL(a) & FG_SYM) ? SX(a) : mkC(*(u8*)a, 8); }
static std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
static const char* describe(u64 a, std::string& out) {
  if (a < 0x10000) out = "near-null pointer " + hex(a);
  else if (!inArena(a)) out = "wild address";
  else { u64 best = 0; Obj bo{}; for (auto& o : objs) if (o.first <= a && o.first > best) { best = o.first; bo = o.second; }
    if (a >= STACK0) out = "outside stack object"; else if (best) { if (!bo.live && a < best + bo.size) out = "freed heap object of size " + std::to_string(bo.size) + " at offset " + std::to_string(a - best); else out = std::string(bo.heap ? "heap" : "global") + " object of size " + std::to_string(bo.size) + " at offset " + std::to_string(a - best); } else out = "no object"; }
  return out.c_str();
}
static sigjmp_buf sjb; static volatile int sjActive = 0;
static void onSegv(int, siginfo_t* si, void*) { if (sjActive) siglongjmp(sjb, 1); static int once; if (once++) _exit(99); fprintf(stderr, "symx: internal SIGSEGV at %p: %s\n", si->si_addr, backtrace().c_str()); _exit(98); }
static void checkAccess(u64 a, u64 n, bool wr) {
  for (u64 i = 0; i < n; i++) { u64 x = a + i;
    if (inArena(x)) { u8 f = *FL(x); if (!(f & FG_OK) || (wr && (f & FG_RO))) { std::string d; describe(x, d); fault(wr ? "oob-write" : "oob-read", std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes: " + d + ((f & FG_OK) ? " (read-only)" : "")); } }
    else if (x < 0x10000) fault("null-deref", std::string(wr ? "write" : "read") + " through null pointer"); }
}
static void memStoreByte(u64 a, Expr* e) { if (isC(e)) { *(u8*)a = (u8)e->k; *FL(a) &= ~FG_SYM; } else { SX(a) = e; *FL(a) |= FG_SYM; *(u8*)a = 0xCD; } }
static Val loadConcAddr(u64 a, unsigned n, unsigned w) {
  checkAccess(a, n, false); Val r{0, nullptr};
  if (!inArena(a)) { if (sigsetjmp(sjb, 1)) { sjActive = 0; fault("wild-read", "read through invalid pointer"); } sjActive = 1; u64 v = 0; memcpy(&v, (void*)a, n); sjActive = 0; r.c = v & maskw(w); return r; }
  bool sym = false; for (unsigned i = 0; i < n; i++) if (*FL(a + i) & FG_SYM) { sym = true; break; }
  if (!sym) { u64 v = 0; memcpy(&v, (void*)a, n); r.c = v & maskw(w); return r; }
  Expr* e = byteExpr(a); for (unsigned i = 1; i < n; i++) e = mkConcat(byteExpr(a + i), e);
  if (e->w != w) e = e->w > w ? mkExtract(e, 0, w) : mkZext(e, w);
  if (isC(e)) r.c = e->k; else r.e = e; return r;
}
static void storeConcAddr(u64 a, Val v, unsigned n, unsigned w) {
  checkAccess(a, n, true);
  if (!inArena(a)) { u64 x = v.e ? concretize(v.e, "store to native memory") : v.c; if (sigsetjmp(sjb, 1)) { sjActive = 0; fault("wild-write", "write through invalid pointer"); } sjActive = 1; memcpy((void*)a, &x, n); sjActive = 0; return; }
  if (!v.e) { memcpy((void*)a, &v.c, n); for (unsigned i = 0; i < n; i++) *FL(a + i) &= ~FG_SYM; return; }
  Expr* e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) memStoreByte(a + i, n == 1 ? e : mkExtract(e, i * 8, 8));
}
// enumerate feasible addresses (up to lim). returns false if more
static bool enumVals(Expr* e, std::vector<u64>& out, unsigned lim) {
  u64 v = ev(e); out.push_back(v); Expr* ex = mkNot(mk(E_EQ, e, mkC(v, e->w)));
  for (;;) { Model m2; int r = checkSat(ex, &m2); if (r == 0) return true; if (r < 0) { incomplete("solver gave up enumerating an address"); return true; }
    if (out.size() >= lim) return false; evalNewGen(); u64 x = evalExpr(e, m2); evalNewGen(); out.push_back(x); ex = mk(E_AND, ex, mkNot(mk(E_EQ, e, mkC(x, e->w)))); }
}
static void objExtent(u64 a, u64& lo, u64& hi) { lo = a; hi = a; while (*FL(lo - 1) & FG_OK) lo--; while (*FL(hi) & FG_OK) hi++; }
static bool accOk(u64 a, unsigned n, bool wr) { for (unsigned i = 0; i < n; i++) { u64 x = a + i; if (!inArena(x)) return false; u8 f = *FL(x); if (!(f & FG_OK) || (wr && (f & FG_RO))) return false; } return true; }
// restrict e to a single object; other possibilities are forked off / reported
static void splitObjects(Expr* e, unsigned n, bool wr, u64& lo, u64& hi) {
  for (;;) {
    u64 a = ev(e);
    if (!accOk(a, n, wr)) { // model points outside: fork: this concrete address faults
      Expr* eq = mk(E_EQ, e, mkC(a, 64)); Model m2; int r = checkSat(mkNot(eq), &m2);
      if (r != 1) { checkAccess(a, n, wr); lo = a; hi = a + n; return; }
      // is any in-bounds address possible? try the rest in a child after recording this one
      { pid_t p; fflush(stderr); while ((p = fork()) < 0) usleep(20000); if (p == 0) { kids.clear(); ownTok = false; assertPC(eq); if (inArena(a) || a < 0x10000) checkAccess(a, n, wr); fault(wr ? "wild-write" : "wild-read", "symbolic pointer to no object"); } int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (SH->stop) endPath("stopped"); }
      assertPC(mkNot(eq)); setModel(m2); static thread_local int cnt = 0; if (++cnt > 64) { // give up on the remaining out-of-bounds addresses: already recorded as a fault
        incomplete("many faulting addresses"); endPath("fault"); }
      continue;
    }
    objExtent(a, lo, hi);
    Expr* in = mk(E_AND, mk(E_ULE, mkC(lo, 64), e), mk(E_ULE, e, mkC(hi - n, 64)));
    if (isC(in) && in->k) return;
    Model m2; int r = checkSat(mkNot(in), &m2);
    if (r == 0) { learn(in, true); return; }
    if (r < 0) { incomplete("solver gave up on a bounds check"); assertPC(in); return; }
    if (forkState()) { setModel(m2); assertPC(mkNot(in)); continue; }
    assertPC(in); return;
  }
}
static Val loadSym(Expr* e, unsigned n, unsigned w) {
  u64 lo, hi; splitObjects(e, n, false, lo, hi);
  std::vector<u64> as;
  if (enumVals(e, as, 40)) {
    std::sort(as.begin(), as.end()); Val v = loadConcAddr(as[0], n, w); Expr* r = v.e ? v.e : mkC(v.c, w);
    for (size_t i = 1; i < as.size(); i++) { Val u = loadConcAddr(as[i], n, w); r = mkIte(mk(E_EQ, e, mkC(as[i], 64)), u.e ? u.e : mkC(u.c, w), r); }
    if (isC(r)) return Val{r->k, nullptr}; return Val{0, r};
  }
  // table: all offsets in the object with the right stride
  u64 a0 = ev(e); unsigned stride = n; Expr* al = mk(E_EQ, mk(E_UREM, mk(E_SUB, e, mkC(lo, 64)), mkC(stride, 64)), mkC((a0 - lo) % stride, 64));
  if (n > 1) { Model m2; int r = isC(al) ? (al->k ? 0 : 1) : checkSat(mkNot(al), &m2); if (r != 0) stride = 1; }
  u64 first = lo + (stride == 1 ? 0 : (a0 - lo) % stride); u64 cnt = (hi - n - first) / stride + 1;
  if (cnt > 4096) { u64 a = concretize(e, "load address in a large object"); return loadConcAddr(a, n, w); }
  std::vector<Expr*> vals; for (u64 i = 0; i < cnt; i++) { Val v = loadConcAddr(first + i * stride, n, w); vals.push_back(v.e ? v.e : mkC(v.c, w)); }
  // runs of equal values -> range tests; the most common value is the default
  std::unordered_map<Expr*, int> fr; Expr* def = vals[0]; for (Expr* v : vals) if (++fr[v] > fr[def]) def = v;
  Expr* r = def; for (u64 i = cnt; i-- > 0;) { if (vals[i] == def) continue; u64 j = i; while (j > 0 && vals[j - 1] == vals[i]) j--; 
    Expr* c = j == i ? mk(E_EQ, e, mkC(first + i * stride, 64)) : mk(E_AND, mk(E_ULE, mkC(first + j * stride, 64), e), mk(E_ULE, e, mkC(first + i * stride, 64)));
    r = mkIte(c, vals[i], r); i = j; }
  if (isC(r)) return Val{r->k, nullptr}; return Val{0, r};
}
static void storeSym(Expr* e, Val v, unsigned n, unsigned w) {
  u64 lo, hi; splitObjects(e, n, true, lo, hi);
  std::vector<u64> as;
  if (!enumVals(e, as, 64)) { u64 a = concretize(e, "store address"); storeConcAddr(a, v, n, w); return; }
  Expr* x = v.e ? v.e : mkC(v.c, w); if (x->w < n * 8) x = mkZext(x, n * 8);
  for (u64 a : as) { checkAccess(a, n, true); }
  for (unsigned i = 0; i < n; i++) { Expr* xb = mkExtract(x, i * 8, 8);
    for (u64 a : as) { Expr* old = byteExpr(a + i); memStoreByte(a + i, as.size() == 1 ? xb : mkIte(mk(E_EQ, e, mkC(a, 64)), xb, old)); } }
}
static u64 concV(Val& v, const char* why) { if (!v.e) return v.c; v.c = concretize(v.e, why); v.e = nullptr; return v.c; }
static inline Expr* asE(const Val& v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }
static inline Val fromE(Expr* e) { if (isC(e)) return Val{e->k, nullptr}; return Val{0, e}; }
static void memCopy(u64 d, u64 s, u64 n) {
  if (!n) return;
  bool da = inArena(d), sa = inArena(s);
  if (da || d < 0x10000) { for (u64 i = 0; i < n; i++) if (!da || (*FL(d + i) & (FG_OK | FG_RO)) != FG_OK) { checkAccess(d + i, 1, true); } }
  if (sa || s < 0x10000) { for (u64 i = 0; i < n; i++) if (!sa || !(*FL(s + i) & FG_OK)) { checkAccess(s + i, 1, false); } }
  bool sym = false; if (sa) sym = [&] { for (u64 i = 0; i < n; i++) if (*FL(s + i) & FG_SYM) return true; return false; }();
  if (!sym) { memmove((void*)d, (void*)s, n); if (da) for (u64 i = 0; i < n; i++) *FL(d + i) &= ~FG_SYM; return; }
  if (!da) { for (u64 i = 0; i < n; i++) *(u8*)(d + i) = concretize(byteExpr(s + i), "copy to native memory"); return; }
  std::vector<Expr*> t(n); for (u64 i = 0; i < n; i++) t[i] = (*FL(s + i) & FG_SYM) ? SX(s + i) : nullptr;
  memmove((void*)d, (void*)s, n);
  for (u64 i = 0; i < n; i++) if (t[i]) memStoreByte(d + i, t[i]); else *FL(d + i) &= ~FG_SYM;
}
static void memSet(u64 d, Val v, u64 n) {
  if (!n) return; if (!inArena(d) && d >= 0x10000) { memset((void*)d, (int)concV(v, "memset value"), n); return; }
  for (u64 i = 0; i < n; i++) if (!inArena(d) || (*FL(d + i) & (FG_OK | FG_RO)) != FG_OK) checkAccess(d + i, 1, true);
  if (v.e) { Expr* b = mkExtract(v.e, 0, 8); for (u64 i = 0; i < n; i++) memStoreByte(d + i, b); }
  else { memset((void*)d, (int)v.c, n); for (u64 i = 0; i < n; i++) *FL(d + i) &= ~FG_SYM; }
}
#include "translate.inc"
#include "models.inc"
#include "exec.inc"
#include "wide.inc"
#include "main.inc"
