// gsym - symbolic executor for LLVM IR (real-number semantics for floating point), forking by OS processes
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <functional>
#include <sys/prctl.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <ffi.h>
#include <fstream>
#include <malloc.h>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace llvm;
using std::string; using std::vector;
typedef ::Op EOp;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ============================================================ shared statistics
struct Label { char name[120]; std::atomic<long> reached, ident, interval, witness, smt, cex, unknown, concrete; std::atomic<int> used; int kind; };
enum { NLAB = 1024, NFUN = 65536 };
struct Shared {
  sem_t tok; pthread_mutex_t mx;
  std::atomic<long> paths, forks, branches, instrs, truncated, unsupported, infeasible, div0, sqrtneg, live, cex, traces, queries, qsat, qunsat, qunk, unkfeas, hang, allowedRaise;
  std::atomic<long> qusec, qmaxusec; double deadline; std::atomic<int> hardstop;
  Label lab[NLAB]; unsigned char fun[NFUN]; char msg[64][200]; std::atomic<int> nmsg;
};
static Shared* S;
static void note(const string& m) { pthread_mutex_lock(&S->mx); int n = S->nmsg; bool dup = false; for (int i = 0; i < n; i++) if (!strncmp(S->msg[i], m.c_str(), 199)) dup = true; if (!dup && n < 64) { strncpy(S->msg[n], m.c_str(), 199); S->nmsg = n + 1; } pthread_mutex_unlock(&S->mx); }
static Label* label(const char* n, int kind) {
  for (int i = 0; i < NLAB; i++) { if (S->lab[i].used == 2) { if (!strncmp(S->lab[i].name, n, 119)) return &S->lab[i]; continue; }
    pthread_mutex_lock(&S->mx); if (S->lab[i].used == 0) { strncpy(S->lab[i].name, n, 119); S->lab[i].kind = kind; S->lab[i].used = 2; } pthread_mutex_unlock(&S->mx);
    if (!strncmp(S->lab[i].name, n, 119)) return &S->lab[i]; }
  return &S->lab[NLAB - 1]; }

// ============================================================ options
static struct { string out = "."; int jobs = 8; double wall = 120; int qms = 3000; int bms = 700; long maxInstr = 60000000; int maxTraces = 12; int maxLive = 160; string replay, arg; bool verbose = false; unsigned seed = 1; } opt;

// ============================================================ arena memory with shadow
static const uint64_t ABASE = 0x100000000000ull, ASIZE = 24ull << 30; static uint8_t* const SHB = (uint8_t*)0x110000000000ull;
static uint64_t aTop = ABASE + 4096; 
static uint64_t stTop, stEnd;                 // interpreter stack inside the arena
static inline bool inArena(uint64_t a) { return a - ABASE < ASIZE; }
static inline uint8_t* sh(uint64_t a) { return SHB + (a - ABASE); }
struct Cell { Expr* e; uint8_t size; };
static std::unordered_map<uint64_t, Cell> cells;
static void memInit() {
  if (mmap((void*)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED ||
      mmap(SHB, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { perror("mmap"); exit(2); }
  stTop = ABASE + (20ull << 30); stEnd = ABASE + ASIZE - 4096; }
static std::unordered_map<uint64_t, uint64_t> heapSize;
static uint64_t aAlloc(uint64_t n, uint64_t align = 16, bool fill = true) {
  uint64_t a = (aTop + 32 + align - 1) & ~(align - 1); aTop = a + n;
  if (aTop > ABASE + (20ull << 30)) { fprintf(stderr, "arena exhausted\n"); _exit(2); }
  memset(sh(a), 1, n); if (fill && n) memset((void*)a, 0xFE, n); return a; }
static void killCells(uint64_t a, uint64_t n) { if (cells.empty()) return; if (n > 4096) { for (auto it = cells.begin(); it != cells.end();) if (it->first >= a && it->first < a + n) it = cells.erase(it); else ++it; return; } for (uint64_t i = 0; i < n; i++) if (*sh(a + i) == 2) cells.erase(a + i); }
extern "C" void* gHostMalloc(size_t);
static uint64_t hMalloc(uint64_t n) { uint64_t a = aAlloc(n); heapSize[a] = n; return a; }

// ============================================================ values
struct Val { uint64_t u; Expr* e; };
static inline Val V(uint64_t u) { return {u, nullptr}; }
static inline Val VE(Expr* e) { if (e->op == ICONST) return {e->iv, nullptr}; if (e->op == BCONST) return {e->iv, nullptr}; return {0xAAAAAAAAAAAAAAAAull, e}; }
static inline double D(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static inline uint64_t U(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline float Fl(uint64_t u) { float d; uint32_t v = u; memcpy(&d, &v, 4); return d; }
static inline uint64_t UF(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }

enum TK : uint8_t { T_VOID, T_INT, T_DBL, T_FLT, T_PTR, T_AGG, T_VEC, T_X80, T_BAD };
struct TI { TK k; uint8_t w; uint32_t n; Type* t; uint32_t size; };  // w: bits of int; n: element count; size: store size

struct FI;
struct In { uint16_t op; uint16_t sub; int dst; TI ty; int a, b, c; vector<int> ops; vector<int64_t> aux; FI* callee; Function* ext; int extId; Instruction* src; int64_t cst; void* ffi; };
struct Blk { vector<In> ins; std::unordered_map<int, vector<std::pair<int, int>>> phi; };
struct FI { Function* f; int idx; bool ready = false; int nregs = 0; vector<Blk> blk; vector<Val> consts; string name; bool repo = false; vector<int> byval; };

static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<Function*, FI*> fis; static std::unordered_map<uint64_t, FI*> fnByAddr; static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static Val callFI(FI* f, const Val* args, int n);

// ============================================================ path state
static vector<Expr*> pc; static vector<Model> wit; static std::unordered_map<uint32_t, bool> pcSeen;
static std::mt19937_64 rng; static vector<pid_t> kids; static bool hasWit = true; static long myInstr = 0; static bool iteMode = false, iteReal = false; static int div0Policy = 0; static int raisePolicy = 0; static int depthFork = 0; static bool pinned = false;
struct Input { char kind; string name; Expr* e; double d; long i; }; static vector<Input> inputs;
struct Tr { string lab; Expr* e; double d; }; static vector<Tr> trace;
static QStats qs; static string curHarness; static FI* curFn = nullptr; static string curWhere;
static vector<FI*> callStack;

static Evaluator* evalOf(size_t i) { // cached evaluators per witness (reset when model vectors change)
  static vector<Evaluator*> evs; static vector<const Model*> key; if (evs.size() <= i) { evs.resize(i + 1, nullptr); key.resize(i + 1, nullptr); }
  if (!evs[i] || key[i] != &wit[i]) { delete evs[i]; evs[i] = new Evaluator(wit[i]); key[i] = &wit[i]; } return evs[i]; }
static vector<Evaluator*> evCache; 
static void resetEv() { for (auto e : evCache) delete e; evCache.clear(); }
static Evaluator& ev(size_t i) { while (evCache.size() < wit.size()) evCache.push_back(nullptr); if (!evCache[i]) evCache[i] = new Evaluator(wit[i]); return *evCache[i]; }

static void addStats() { S->queries += qs.queries; S->qsat += qs.sat; S->qunsat += qs.unsat; S->qunk += qs.unknown; S->qusec += (long)(qs.secs * 1e6); long m = (long)(qs.maxsecs * 1e6), o = S->qmaxusec; while (m > o && !S->qmaxusec.compare_exchange_weak(o, m)); qs = QStats(); S->instrs += myInstr; myInstr = 0; }
static void emitTrace();
[[noreturn]] static void endPath(int how) { // 0 normal 1 infeasible/assume 2 truncated 3 unsupported 4 violation end
  if (how == 0) { S->paths++; emitTrace(); } else if (how == 1) S->infeasible++; else if (how == 2) S->truncated++; else if (how == 3) S->unsupported++; else { S->paths++; }
  addStats(); S->live--; sem_post(&S->tok); _exit(0); }
static string where() { string s; int n = 0; for (int i = (int)callStack.size() - 1; i >= 0 && n < 6; i--, n++) s += (n ? " < " : "") + callStack[i]->name; return s; }
[[noreturn]] static void unsupported(const string& m) { note("unsupported: " + m + " in " + where()); endPath(3); }

static vector<Expr*> slice(const vector<Expr*>& seed) {
  std::set<uint32_t> vs; for (Expr* e : seed) for (auto v : varsOf(e)) vs.insert(v);
  vector<Expr*> r; vector<char> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { const auto& pv = varsOf(pc[i]); bool hit = false; for (auto v : pv) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; r.push_back(pc[i]); for (auto v : pv) if (vs.insert(v).second) ch = true; } } }
  return r; }
static bool holds(const vector<Expr*>& cs, const Model& m) { Evaluator e(m); for (Expr* c : cs) if (!e.b(c)) return false; return true; }
static double urand() { return (rng() >> 11) * (1.0 / 9007199254740992.0); }
static Val1 sampleVar(uint32_t v) { auto& vi = gVars[v]; Val1 r{0, 0};
  if (vi.sort == S_REAL) { double u = urand(); int k = rng() % 8; if (k == 0) r.r = vi.lo; else if (k == 1) r.r = vi.hi; else if (vi.lo > 0 && vi.hi / vi.lo > 50 && k < 5) r.r = vi.lo * pow(vi.hi / vi.lo, u); else r.r = vi.lo + (vi.hi - vi.lo) * u;
    if (k > 1 && rng() % 4 == 0) { double g = (vi.hi - vi.lo) / 16; double q = vi.lo + g * floor((r.r - vi.lo) / g + 0.5); if (q >= vi.lo && q <= vi.hi) r.r = q; } }
  else if (vi.sort == S_BOOL) r.i = rng() & 1; else { long lo = (long)vi.lo, hi = (long)vi.hi; r.i = (uint64_t)(lo + (long)(rng() % (uint64_t)(hi - lo + 1))) & maskW(vi.sort); }
  return r; }
// numeric search for a model of pc and extra; starts from the witnesses
static bool numSearch(const vector<Expr*>& extra, Model& out, int tries) {
  vector<Expr*> cs = slice(extra); std::set<uint32_t> vs; for (auto e : extra) for (auto v : varsOf(e)) vs.insert(v); vector<uint32_t> direct(vs.begin(), vs.end()); for (auto e : cs) for (auto v : varsOf(e)) vs.insert(v); vector<uint32_t> all(vs.begin(), vs.end());
  if (all.empty()) return false; if (wit.empty()) { if (gVars.empty()) return false; }
  for (int t = 0; t < tries; t++) {
    Model m; if (!wit.empty()) m = wit[rng() % wit.size()]; else { m.resize(gVars.size()); for (size_t i = 0; i < m.size(); i++) m[i] = sampleVar(i); }
    int nm = (rng() % 3 == 0) ? (int)all.size() : 1 + rng() % 3;
    for (int k = 0; k < nm; k++) { uint32_t v = nm == (int)all.size() ? all[k] : (rng() % 3 ? direct[rng() % direct.size()] : all[rng() % all.size()]); auto& vi = gVars[v];
      int how = rng() % 8;
      if (how < 4 || vi.sort != S_REAL) m[v] = sampleVar(v);
      else if (how == 4) { uint32_t o = all[rng() % all.size()]; if (gVars[o].sort == S_REAL) m[v].r = m[o].r; }
      else { double sc = pow(10., -6 * urand()); m[v].r += (2 * urand() - 1) * sc * (how == 5 ? (vi.hi - vi.lo) : fabsl(m[v].r)); if (m[v].r < vi.lo) m[v].r = vi.lo; if (m[v].r > vi.hi) m[v].r = vi.hi; } }
    Evaluator e(m); bool ok = true; for (auto c : extra) if (!e.b(c)) { ok = false; break; } if (!ok) continue;
    for (auto c : cs) if (!e.b(c)) { ok = false; break; }
    if (ok) { out = m; return true; } }
  return false; }
static Res solve(const vector<Expr*>& extra, Model& out, int ms) {
  vector<Expr*> q = slice(extra); for (auto e : extra) q.push_back(e);
  if (!wit.empty()) out = wit[0]; else { out.resize(gVars.size()); for (size_t i = 0; i < out.size(); i++) out[i] = sampleVar(i); }
  double left = S->deadline - now(); if (left < 0.3) return R_UNKNOWN; if (ms > left * 1000) ms = (int)(left * 1000);
  return smtQuery(q, &out, ms, &qs); }
static void checkDeadline() { if (now() > S->deadline) endPath(2); }
static bool isTrueQ(Expr* c) { return c->op == BCONST && c->iv; }
static void pushPC(Expr* c) { if (isTrueQ(c)) return; if (pcSeen[c->id]) return; pcSeen[c->id] = true; if (c->op == BAND) { pushPC(c->k[0]); pushPC(c->k[1]); return; } pc.push_back(c); gFacts.add(c); }
static void filterWit(Expr* c) { vector<Model> nw; vector<Evaluator*> ne; for (size_t i = 0; i < wit.size(); i++) { if (ev(i).b(c)) nw.push_back(wit[i]); } resetEv(); wit.swap(nw); }
static void refill(const Model* seed) { if (wit.empty() && seed) { wit.push_back(*seed); resetEv(); }
}
static bool okModel(const Model& m) { return holds(pc, m); }
// add c to the path; `m` is a model candidate for pc && c
static void assumeC(Expr* c, const Model* m) { filterWit(c); pushPC(c); if (wit.empty() && m && okModel(*m)) refill(m); hasWit = !wit.empty(); }
static vector<Expr*> gPending;
// feasibility of pc && c: 1 yes, 0 no, -1 unknown; may give a model
static int feasible(Expr* c, Model& m, bool& gotModel) {
  gotModel = false; for (size_t i = 0; i < wit.size(); i++) if (ev(i).b(c)) { m = wit[i]; gotModel = true; return 1; }
  if (numSearch({c}, m, 40)) { gotModel = true; return 1; }
  if (S->deadline - now() < 0.35) endPath(2); // out of time: no answer, so no path
  Res r = solve({c}, m, std::min(opt.qms, opt.bms)); if (r == R_UNSAT) return 0; if (r == R_SAT) { gotModel = okModel(m) && Evaluator(m).b(c); if (!gotModel) { Model m2; if (numSearch({c}, m2, 400)) { m = m2; gotModel = true; } } return 1; }
  if (numSearch({c}, m, 1500)) { gotModel = true; return 1; }
  return -1; }
static pid_t forkPath() {
  checkDeadline(); S->forks++; addStats(); fflush(stdout); { int st; while (waitpid(-1, &st, WNOHANG) > 0) {} }
  bool wait1 = S->live > opt.maxLive || S->truncated > 100000; S->live++;
  pid_t p = fork();
  if (p < 0) { S->live--; S->truncated++; note("fork failed"); return 1; }
  if (p == 0) { kids.clear(); rng.seed(rng() ^ getpid()); if (!wait1) { sem_wait(&S->tok); } else { sem_wait(&S->tok); } depthFork++; if (now() > S->deadline) endPath(2); return 0; }
  if (wait1) { sem_post(&S->tok); int st; waitpid(p, &st, 0); sem_wait(&S->tok); } else kids.push_back(p);
  return p; }
static int decideNF(Expr* c) { (void)c; return -1; }
static bool branch(Expr* c) {
  if (c->op == BCONST) return c->iv;
  int d = gFacts.decide(c); if (d >= 0) return d;
  if (c->op == BAND) { if (!branch(c->k[0])) return false; return branch(c->k[1]); }
  if (c->op == BOR) { if (branch(c->k[0])) return true; return branch(c->k[1]); }
  if (c->op == BNOT) return !branch(c->k[0]);
  S->branches++; Expr* n = bNot(c); Model mt, mf; bool gt, gf; 
  // identities first: a-b normalising to a constant
  if (c->op == RLT || c->op == RLE || c->op == REQ) { if (dagSize(c) < 400) { Normalizer nz; nz.budget = 20000; nz.limit = 500; const RatFn& r = nz.nf(rSub(c->k[0], c->k[1])); if (r.ok && r.den.empty() && (r.num.t.empty() || (r.num.t.size() == 1 && r.num.t.begin()->first.empty()))) { mpq_class v = r.num.t.empty() ? mpq_class(0) : r.num.t.begin()->second; return c->op == RLT ? v < 0 : c->op == RLE ? v <= 0 : v == 0; } } }
  int ft = feasible(c, mt, gt); if (ft == 0) { gFacts.add(n); return false; }
  int ff = feasible(n, mf, gf); if (ff == 0) { gFacts.add(c); return true; }
  if (ft < 0 || ff < 0) S->unkfeas++;
  if (getenv("GSYM_BR")) fprintf(stderr, "[%d] fork on %s  at %s\n", getpid(), show(c, 7).c_str(), where().c_str());
  pid_t p = forkPath();
  if (p == 0) { assumeC(c, gt ? &mt : nullptr); return true; }
  assumeC(n, gf ? &mf : nullptr); return false; }
static bool mustOrSplit(Expr* c, std::atomic<long>& ctr, const char* what);

// ============================================================ inputs, counterexamples, traces
static string fmt(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static void writeInputs(FILE* f, const Model& m) { Evaluator e(m); fprintf(f, "arg %s\n", opt.arg.empty() ? "-" : opt.arg.c_str());
  for (auto& in : inputs) { if (in.kind == 'r') fprintf(f, "r %s %s\n", in.name.c_str(), fmt(in.e ? (double)e.r(in.e) : in.d).c_str()); else fprintf(f, "i %s %ld\n", in.name.c_str(), in.e ? (long)sx(e.ev(in.e).i, in.e->sort) : in.i); } }
static void emitCex(const string& lab, const string& kind, const Model& m, Expr* c) {
  Label* L = label(lab.c_str(), 0); long k = L->cex++; if (k >= 6) return; long n = S->cex++; 
  string fn = opt.out + "/cex_" + std::to_string(n) + ".in"; FILE* f = fopen(fn.c_str(), "w"); if (!f) return; fprintf(f, "label %s\nkind %s\n", lab.c_str(), kind.c_str()); writeInputs(f, m); fprintf(f, "# at %s\n", where().c_str()); if (getenv("GSYM_PC")) for (auto p : pc) fprintf(f, "# pc %s\n", show(p, 8).c_str()); if (c) { string s = show(c, 5); if (s.size() > 600) s.resize(600); fprintf(f, "# %s\n", s.c_str()); } fclose(f); }
static Model anyModel() { if (!wit.empty()) return wit[0]; Model m; if (!pc.empty()) { Res r = solve({pc.back()}, m, opt.qms); if (r == R_SAT) return m; } m.resize(gVars.size()); for (size_t i = 0; i < m.size(); i++) m[i] = sampleVar(i); return m; }
[[noreturn]] static void violationEnd(const string& lab, const string& kind) { label(lab.c_str(), 0)->reached++; 
  if (!opt.replay.empty()) { fprintf(stderr, "ENGINE-REPLAY-FAIL %s at %s\n", lab.c_str(), where().c_str()); }
  emitCex(lab, kind, anyModel(), nullptr); note(kind + ": " + lab + " at " + where()); endPath(4); }
static void emitTrace() {
  if (opt.maxTraces <= 0 || trace.empty() || (wit.empty() && !gVars.empty())) return;
  long n = S->traces; if (n >= opt.maxTraces && rng() % 17) return; if (n >= opt.maxTraces * 2) return; n = S->traces++;
  string fn = opt.out + "/trace_" + std::to_string(n); FILE* f = fopen((fn + ".in").c_str(), "w"); if (!f) return; Model m; if (!wit.empty()) m = wit[0]; writeInputs(f, m); fclose(f);
  Evaluator e(m); f = fopen((fn + ".exp").c_str(), "w"); for (auto& t : trace) fprintf(f, "%s %s\n", t.lab.c_str(), fmt(t.e ? (t.e->sort == S_REAL ? (double)e.r(t.e) : (double)e.ev(t.e).i) : t.d).c_str()); fclose(f); }

// obligations such as divisor != 0: true if must hold; otherwise the failing side is excluded (counted) or reported
static void require(Expr* good, std::atomic<long>& ctr, const char* what) {
  int d = gFacts.decide(good); if (d == 1) return;
  Expr* badc = bNot(good); Model m; bool gm; int f;
  if (d == 0) f = 1, gm = false; else f = feasible(badc, m, gm);
  if (f == 0) { gFacts.add(good); return; }
  ctr++; if (getenv("GSYM_BR")) fprintf(stderr, "[%d] %s on %s at %s\n", getpid(), what, show(good, 7).c_str(), where().c_str());
  if (div0Policy && f == 1 && gm) { label(what, 0)->reached++; emitCex(what, "arith", m, good); }
  Model g; bool gg; int fg = feasible(good, g, gg); if (fg == 0) endPath(1);
  assumeC(good, gg ? &g : nullptr); }

static long enumReal(Expr* x) { // integer k with k <= x < k+1
  if (x->op == RCONST) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), x->q->get_num_mpz_t(), x->q->get_den_mpz_t()); return z.get_si(); }
  for (int it = 0; it < 4096; it++) { checkDeadline();
    Ival i = gFacts.iv(x); if (std::isfinite(i.lo) && std::isfinite(i.hi) && floorl(i.lo) == floorl(i.hi)) return (long)floorl(i.lo);
    long k; if (!wit.empty()) k = (long)floorl(ev(0).r(x)); else { Model m; if (solve({rLe(x, x), rLt(x, rAdd(x, mkReal(1)))}, m, opt.qms) == R_UNSAT) endPath(1); Evaluator e(m); k = (long)floorl(e.r(x)); }
    Expr *kl = mkReal(mpq_class(k)), *kh = mkReal(mpq_class(k + 1));
    if (branch(rLt(x, kl))) continue; if (branch(rLt(x, kh))) return k; }
  endPath(2); }
// integer built from conditions on reals: fork on the conditions rather than on the values
static bool hasIte(Expr* x, std::unordered_map<uint32_t, bool>& m) { if (x->op == IITE) return true; if (!x->nk || x->sort == S_REAL) return false; auto it = m.find(x->id); if (it != m.end()) return it->second; bool r = false; for (int i = 0; i < x->nk && !r; i++) r = hasIte(x->k[i], m); return m[x->id] = r; }
static Expr* resolveIte(Expr* x, std::unordered_map<uint32_t, Expr*>& memo, std::unordered_map<uint32_t, bool>& hm) {
  if (!x->nk || x->sort == S_REAL || x->sort == S_BOOL || !hasIte(x, hm)) return x; auto it = memo.find(x->id); if (it != memo.end()) return it->second; Expr* r = x; auto R = [&](int i) { return resolveIte(x->k[i], memo, hm); };
  if (x->op == IITE) r = branch(x->k[0]) ? R(1) : R(2); else if (x->op == IZEXT) r = iZext(R(0), x->sort); else if (x->op == ISEXT) r = iSext(R(0), x->sort); else if (x->op == IEXTRACT) r = iExtract(R(0), x->iv, x->sort); else if (x->op == ICONCAT) { Expr* h = R(0); r = iConcat(h, R(1)); } else if (x->nk == 2 && x->op >= IADD && x->op <= IASHR) { Expr* a = R(0); r = iBin((Op)x->op, a, R(1)); }
  memo[x->id] = r; return r; }
static uint64_t enumInt(Expr* x) {
  if (x->op == ICONST) return x->iv;
  { std::unordered_map<uint32_t, bool> hm; if (hasIte(x, hm)) { std::unordered_map<uint32_t, Expr*> m; x = resolveIte(x, m, hm); if (x->op == ICONST) return x->iv; } }
  for (int it = 0; it < 4096; it++) { checkDeadline(); uint64_t v; if (!wit.empty()) v = ev(0).ev(x).i; else { Model m; vector<Expr*> q; for (auto vv : varsOf(x)) (void)vv; if (pc.empty()) { m.resize(gVars.size()); for (size_t i = 0; i < m.size(); i++) m[i] = sampleVar(i); } else { Res r = solve({iCmp(IEQ, x, x), pc.back()}, m, opt.qms); if (r == R_UNSAT) endPath(1); if (r == R_UNKNOWN) endPath(2); } v = Evaluator(m).ev(x).i; }
    if (branch(iCmp(IEQ, x, mkInt(x->sort, v)))) return v; }
  endPath(2); }

// ============================================================ memory access
static uint64_t placeholder(Expr* e, unsigned size) { if (e->sort == S_REAL && size == 8) return (0x7FF4A5ull << 40) | ((uint64_t)e->id << 8) | ((e->id * 37 + 11) & 0xff); uint64_t h = (e->id + 1) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; return size >= 8 ? h : h & ((1ull << (8 * size)) - 1); }
[[noreturn]] static void memError(const char* what, uint64_t addr, unsigned size) { char b[200]; snprintf(b, sizeof b, "memory-%s", what); note(string(b) + " size " + std::to_string(size) + " at " + where()); violationEnd(string(b), "memory"); }
static void splitCell(uint64_t a) { Cell c = cells[a]; cells.erase(a); for (int i = 0; i < c.size; i++) *sh(a + i) = 1;
  if (c.e->sort == S_REAL) unsupported("partial access to a symbolic real");
  for (int i = 0; i < c.size; i++) { Expr* b = iExtract(c.e, 8 * i, 8); if (b->op == ICONST) { *(uint8_t*)(a + i) = b->iv; continue; } cells[a + i] = {b, 1}; *sh(a + i) = 2; *(uint8_t*)(a + i) = placeholder(b, 1); } }
static bool cellAt(uint64_t a, uint64_t& start, Cell& c) { for (int o = 0; o < 8; o++) { auto it = cells.find(a - o); if (it != cells.end() && it->second.size > o) { start = a - o; c = it->second; return true; } } return false; }
static void clearSym(uint64_t a, unsigned n) { // about to overwrite [a,a+n)
  for (unsigned i = 0; i < n; i++) if (*sh(a + i) == 2) { uint64_t st; Cell c; if (!cellAt(a + i, st, c)) { *sh(a + i) = 1; continue; }
      if (st >= a && st + c.size <= a + n) { cells.erase(st); for (int j = 0; j < c.size; j++) *sh(st + j) = 1; } else { splitCell(st); cells.erase(a + i); *sh(a + i) = 1; } } }
static inline void chkAddr(uint64_t a, unsigned n, bool wr) {
  if (!inArena(a)) { if (a < 65536) memError(wr ? "null-write" : "null-read", a, n); return; }
  uint8_t* s = sh(a); for (unsigned i = 0; i < n; i++) if (!s[i]) memError(wr ? "oob-write" : "oob-read", a, n); }
static Val loadN(uint64_t a, unsigned n, bool real8) {
  if (inArena(a)) {
    uint8_t* s = sh(a); bool slow = false;
    for (unsigned i = 0; i < n; i++) { if (s[i] != 1) { slow = true; if (!s[i]) memError("oob-read", a, n); } }
    if (slow) {
      auto it = cells.find(a);
      if (it != cells.end() && it->second.size == n) { uint64_t raw = 0; memcpy(&raw, (void*)a, n); if (raw == placeholder(it->second.e, n)) return VE(it->second.e); clearSym(a, n); }
      else { // assemble from bytes
        Expr* r = nullptr; bool any = false;
        for (unsigned i = 0; i < n; i++) { Expr* b; uint64_t st; Cell c; if (s[i] == 2 && cellAt(a + i, st, c)) { uint64_t raw = 0; memcpy(&raw, (void*)st, c.size); if (raw != placeholder(c.e, c.size)) { b = mkInt(8, *(uint8_t*)(a + i)); } else { if (c.e->sort == S_REAL) unsupported("partial load of a symbolic real"); b = iExtract(c.e, 8 * (a + i - st), 8); any = true; } } else b = mkInt(8, *(uint8_t*)(a + i));
          r = r ? iConcat(b, r) : b; }
        if (any) return VE(r); } } }
  else if (a < 65536) memError("null-read", a, n);
  uint64_t raw = 0; switch (n) { case 1: raw = *(uint8_t*)a; break; case 2: { uint16_t t; memcpy(&t, (void*)a, 2); raw = t; break; } case 4: { uint32_t t; memcpy(&t, (void*)a, 4); raw = t; break; } case 8: memcpy(&raw, (void*)a, 8); break; default: memcpy(&raw, (void*)a, n); }
  if (n == 8 && (raw >> 40) == 0x7FF4A5ull) { uint32_t id = (uint32_t)(raw >> 8); if (((id * 37 + 11) & 0xff) == (raw & 0xff) && id < gExprById.size()) return VE(gExprById[id]); }
  return V(raw); }
static void storeN(uint64_t a, unsigned n, Val v) {
  if (inArena(a)) { uint8_t* s = sh(a); bool sym = false; for (unsigned i = 0; i < n; i++) { if (!s[i]) memError("oob-write", a, n); if (s[i] == 2) sym = true; } if (sym) clearSym(a, n); }
  else { if (a < 65536) memError("null-write", a, n); if (v.e) unsupported("symbolic store outside the arena"); }
  if (v.e) { Expr* e = v.e; if (e->sort != S_REAL && e->sort != 8 * n) e = iZext(e, 8 * n); if (isConst(e) && e->op == ICONST) { memcpy((void*)a, &e->iv, n); return; }
    uint64_t p = placeholder(e, n); memcpy((void*)a, &p, n); for (unsigned i = 0; i < n; i++) *sh(a + i) = 2; cells[a] = {e, (uint8_t)n}; return; }
  switch (n) { case 1: *(uint8_t*)a = v.u; break; case 4: { uint32_t t = v.u; memcpy((void*)a, &t, 4); break; } case 8: memcpy((void*)a, &v.u, 8); break; default: memcpy((void*)a, &v.u, n); } }
static void memMove(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; bool ss = false;
  if (inArena(s)) { uint8_t* p = sh(s); for (uint64_t i = 0; i < n; i++) { if (!p[i]) memError("oob-read", s + i, n); if (p[i] == 2) ss = true; } } else if (s < 65536) memError("null-read", s, n);
  if (inArena(d)) { uint8_t* p = sh(d); bool ds = false; for (uint64_t i = 0; i < n; i++) { if (!p[i]) memError("oob-write", d + i, n); if (p[i] == 2) ds = true; }
    vector<std::pair<uint64_t, Cell>> mv; 
    if (ss) for (uint64_t i = 0; i < n;) { if (sh(s)[i] == 2) { auto it = cells.find(s + i); if (it == cells.end()) { uint64_t st; Cell c; if (cellAt(s + i, st, c)) { splitCell(st); continue; } i++; continue; } if (i + it->second.size > n) { splitCell(s + i); continue; } uint64_t raw = 0; memcpy(&raw, (void*)(s + i), it->second.size); if (raw == placeholder(it->second.e, it->second.size)) mv.push_back({i, it->second}); i += it->second.size; } else i++; }
    if (ds) for (uint64_t i = 0; i < n; i++) if (sh(d)[i] == 2) clearSym(d, n), i = n;
    memmove((void*)d, (void*)s, n);
    for (auto& x : mv) { uint64_t a = d + x.first; cells[a] = x.second; for (int j = 0; j < x.second.size; j++) *sh(a + j) = 2; } }
  else memmove((void*)d, (void*)s, n); }
static uint64_t conc(Val v) { return v.e ? enumInt(v.e) : v.u; }

// ============================================================ types, constants, globals
static TI tinfo(Type* t) {
  TI r{T_BAD, 0, 0, t, 0};
  if (t->isVoidTy()) r.k = T_VOID; else if (t->isIntegerTy()) { r.k = t->getIntegerBitWidth() <= 64 ? T_INT : T_BAD; r.w = t->getIntegerBitWidth() <= 64 ? t->getIntegerBitWidth() : 0; }
  else if (t->isDoubleTy()) { r.k = T_DBL; r.w = 64; } else if (t->isFloatTy()) { r.k = T_FLT; r.w = 32; } else if (t->isPointerTy()) { r.k = T_PTR; r.w = 64; }
  else if (auto* v = dyn_cast<FixedVectorType>(t)) { r.k = T_VEC; r.n = v->getNumElements(); } else if (auto* s = dyn_cast<StructType>(t)) { r.k = T_AGG; r.n = s->getNumElements(); } else if (auto* a = dyn_cast<ArrayType>(t)) { r.k = T_AGG; r.n = a->getNumElements(); } else if (t->isX86_FP80Ty()) r.k = T_X80;
  if (t->isSized()) r.size = DL->getTypeStoreSize(t); return r; }
static Type* elemTy(Type* t, unsigned i) { if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getElementType(); if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i); return cast<ArrayType>(t)->getElementType(); }
static uint64_t elemOff(Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i); return DL->getTypeAllocSize(elemTy(t, 0)) * i; }
static Val* newAgg(unsigned n) { return (Val*)calloc(n ? n : 1, sizeof(Val)); }
static Val undefOf(Type* t) { TI ti = tinfo(t); if (ti.k == T_AGG || ti.k == T_VEC) { Val* a = newAgg(ti.n); for (unsigned i = 0; i < ti.n; i++) a[i] = undefOf(elemTy(t, i)); return V((uint64_t)a); } return V(0); }
static FI* getFI(Function* f);
static uint64_t addrOf(GlobalValue* g);
static Val evalConst(Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) return V(i->getBitWidth() <= 64 ? i->getZExtValue() : i->getValue().getRawData()[0]);
  if (auto* f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isDoubleTy()) return V(f->getValueAPF().bitcastToAPInt().getZExtValue()); if (f->getType()->isFloatTy()) return V(f->getValueAPF().bitcastToAPInt().getZExtValue()); return V(0); }
  if (isa<ConstantPointerNull>(c)) return V(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return undefOf(c->getType());
  if (auto* g = dyn_cast<GlobalValue>(c)) return V(addrOf(g));
  if (auto* a = dyn_cast<ConstantAggregate>(c)) { Val* v = newAgg(a->getNumOperands()); for (unsigned i = 0; i < a->getNumOperands(); i++) v[i] = evalConst(a->getOperand(i)); return V((uint64_t)v); }
  if (auto* a = dyn_cast<ConstantDataSequential>(c)) { Val* v = newAgg(a->getNumElements()); for (unsigned i = 0; i < a->getNumElements(); i++) v[i] = evalConst(a->getElementAsConstant(i)); return V((uint64_t)v); }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(e)) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) { errs() << "const gep\n"; _exit(2); } return V(evalConst(cast<Constant>(g->getPointerOperand())).u + off.getSExtValue()); }
    switch (e->getOpcode()) { case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return evalConst(e->getOperand(0));
      case Instruction::Add: return V(evalConst(e->getOperand(0)).u + evalConst(e->getOperand(1)).u); case Instruction::Sub: return V(evalConst(e->getOperand(0)).u - evalConst(e->getOperand(1)).u);
      case Instruction::Trunc: return V(evalConst(e->getOperand(0)).u & maskW(e->getType()->getIntegerBitWidth()));
      case Instruction::ICmp: { uint64_t a = evalConst(e->getOperand(0)).u, b = evalConst(e->getOperand(1)).u; return V(e->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b); } } }
  if (isa<DSOLocalEquivalent>(c)) return V(0);
  errs() << "unhandled constant " << *c << "\n"; _exit(2); }
static void initMem(uint64_t a, Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { memset((void*)a, 0, DL->getTypeStoreSize(t)); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy((void*)a, r.data(), r.size()); return; }
  if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) initMem(a + elemOff(t, i), cast<Constant>(c->getOperand(i))); return; }
  if (t->isX86_FP80Ty()) { auto* f = cast<ConstantFP>(c); APInt b = f->getValueAPF().bitcastToAPInt(); memcpy((void*)a, b.getRawData(), 10); return; }
  Val v = evalConst(c); memcpy((void*)a, &v.u, DL->getTypeStoreSize(t)); }
struct Clo { FI* f; ffi_cif cif; vector<ffi_type*> at; };
static ffi_type* fty(Type* t) { if (t->isVoidTy()) return &ffi_type_void; if (t->isDoubleTy()) return &ffi_type_double; if (t->isFloatTy()) return &ffi_type_float; if (t->isPointerTy()) return &ffi_type_pointer; if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); return w <= 8 ? &ffi_type_uint8 : w <= 16 ? &ffi_type_uint16 : w <= 32 ? &ffi_type_uint32 : &ffi_type_uint64; } return nullptr; }
static void cloEntry(ffi_cif* cif, void* ret, void** args, void* ud) {
  Clo* c = (Clo*)ud; vector<Val> a(cif->nargs); for (unsigned i = 0; i < cif->nargs; i++) { uint64_t u = 0; memcpy(&u, args[i], c->at[i]->size); a[i] = V(u); if (c->at[i]->size == 8 && (u >> 40) == 0x7FF4A5ull) a[i] = VE(gExprById[(uint32_t)(u >> 8)]); }
  Val r = callFI(c->f, a.data(), a.size()); if (r.e) { uint64_t p = placeholder(r.e, 8); memcpy(ret, &p, 8); return; } if (cif->rtype != &ffi_type_void) { if (cif->rtype->size < 8 && cif->rtype != &ffi_type_float) { uint64_t u = r.u; memcpy(ret, &u, 8); } else memcpy(ret, &r.u, cif->rtype->size); } }
static uint64_t addrOf(GlobalValue* g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  if (auto* al = dyn_cast<GlobalAlias>(g)) { auto* t = dyn_cast<GlobalValue>(al->getAliasee()->stripPointerCasts()); return gaddr[g] = addrOf(t); }
  if (auto* f = dyn_cast<Function>(g)) {
    if (f->isDeclaration()) { void* p = dlsym(RTLD_DEFAULT, f->getName().str().c_str()); if (!p) { static uint64_t fake = 0x120000000000ull; p = (void*)(fake += 16); } return gaddr[g] = (uint64_t)p; }
    FI* fi = getFI(f); Clo* c = new Clo; c->f = fi; bool ok = true; for (auto* t : f->getFunctionType()->params()) { ffi_type* ft = fty(t); if (!ft) ok = false; c->at.push_back(ft); } ffi_type* rt = fty(f->getReturnType()); void* code = nullptr;
    if (ok && rt && !f->isVarArg() && ffi_prep_cif(&c->cif, FFI_DEFAULT_ABI, c->at.size(), rt, c->at.data()) == FFI_OK) { ffi_closure* cl = (ffi_closure*)ffi_closure_alloc(sizeof(ffi_closure), &code); ffi_prep_closure_loc(cl, &c->cif, cloEntry, c, code); }
    else { static uint64_t fake = 0x130000000000ull; code = (void*)(fake += 16); }
    fnByAddr[(uint64_t)code] = fi; return gaddr[g] = (uint64_t)code; }
  auto* v = cast<GlobalVariable>(g);
  if (v->isDeclaration()) { void* p = dlsym(RTLD_DEFAULT, v->getName().str().c_str()); if (!p) { uint64_t a = aAlloc(256); memset((void*)a, 0, 256); if (v->getName() != "__dso_handle") note("undefined data symbol " + v->getName().str()); return gaddr[g] = a; } return gaddr[g] = (uint64_t)p; }
  uint64_t sz = DL->getTypeAllocSize(v->getValueType()); uint64_t a = aAlloc(sz, std::max<uint64_t>(16, v->getAlign() ? v->getAlign()->value() : 16)); gaddr[g] = a;
  if (v->hasInitializer()) { memset((void*)a, 0, sz); initMem(a, v->getInitializer()); } return a; }

// ============================================================ decoding
enum Ext { X_NONE, X_NATIVE, X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_NEW, X_MEMCPY, X_MEMSET, X_SQRT, X_FABS, X_POW, X_EXP, X_LOG, X_SIN, X_COS, X_TAN, X_ATAN, X_ATAN2, X_TANH, X_ERF, X_ERFC, X_ACOS, X_ASIN, X_SINH, X_COSH, X_ATANH, X_LOG10, X_LOG2, X_EXP2, X_FLOOR, X_CEIL, X_TRUNC, X_ROUND, X_RINT, X_FMAX, X_FMIN, X_FMOD, X_CBRT, X_COPYSIGN, X_FMA, X_HYPOT,
  X_IABS, X_SMAX, X_SMIN, X_UMAX, X_UMIN, X_IGN, X_CTLZ, X_CTTZ, X_CTPOP, X_BSWAP, X_UADDO, X_SADDO, X_UMULO, X_SMULO, X_USUBO, X_SSUBO, X_USUBS, X_UADDS, X_FSHL, X_FSHR, X_ASSERT, X_ABORT, X_EXIT, X_TRAP, X_RAISE, X_STACKSAVE, X_STACKREST, X_EXPECT, X_TLS, X_OBJSIZE, X_ISCONST, X_ISFPC, X_ATEXIT, X_PRINT, X_OSTREAMD, X_LROUND, X_DIFFER, X_GUARDA, X_GUARDR, X_LDEXP, X_MODF, X_FREXP,
  X_GS };
static std::map<string, int> extTab;
enum Gs { G_REAL = 1, G_INT, G_CHOOSE, G_ASSUME, G_CHECK, G_CLOSE, G_COVER, G_DIFF, G_SYM, G_ITE, G_DIV0, G_RAISE, G_ARG, G_UF, G_END, G_SPLIT, G_FINITE, G_LE, G_PRUNE, G_DEBUG, G_LIMIT, G_CONC };
static std::map<string, int> gsTab = {{"gs_real", G_REAL}, {"gs_int", G_INT}, {"gs_choose", G_CHOOSE}, {"gs_assume", G_ASSUME}, {"gs_check", G_CHECK}, {"gs_check_close", G_CLOSE}, {"gs_cover", G_COVER}, {"gs_diff", G_DIFF}, {"gs_sym", G_SYM}, {"gs_ite", G_ITE}, {"gs_div0", G_DIV0}, {"gs_allow_raise", G_RAISE}, {"gs_arg", G_ARG}, {"gs_end", G_END}, {"gs_split", G_SPLIT}, {"gs_check_le", G_LE}, {"gs_prune", G_PRUNE}, {"gs_debug", G_DEBUG}, {"gs_limit", G_LIMIT}, {"gs_conc", G_CONC}};
static void initExt() {
  auto m = [&](const char* names, int id) { std::istringstream is(names); string s; while (is >> s) extTab[s] = id; };
  m("malloc valloc", X_MALLOC); m("calloc", X_CALLOC); m("realloc", X_REALLOC); m("free _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm _ZdlPvSt11align_val_t _ZdlPvmSt11align_val_t", X_FREE); m("_Znwm _Znam _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t", X_NEW);
  m("memcpy memmove llvm.memcpy llvm.memmove llvm.memcpy.inline", X_MEMCPY); m("memset llvm.memset", X_MEMSET);
  m("sqrt sqrtf llvm.sqrt __sqrt_finite", X_SQRT); m("fabs fabsf llvm.fabs", X_FABS); m("pow powf llvm.pow llvm.powi __pow_finite", X_POW); m("exp expf llvm.exp", X_EXP); m("log logf llvm.log", X_LOG); m("sin sinf llvm.sin", X_SIN); m("cos cosf llvm.cos", X_COS); m("tan tanf", X_TAN); m("atan atanf", X_ATAN); m("atan2 atan2f", X_ATAN2); m("tanh tanhf", X_TANH); m("erf", X_ERF); m("erfc", X_ERFC); m("acos acosf", X_ACOS); m("asin asinf", X_ASIN); m("sinh", X_SINH); m("cosh", X_COSH); m("atanh", X_ATANH); m("log10 log10f llvm.log10", X_LOG10); m("log2 llvm.log2", X_LOG2); m("exp2 llvm.exp2", X_EXP2);
  m("floor floorf llvm.floor", X_FLOOR); m("ceil ceilf llvm.ceil", X_CEIL); m("trunc truncf llvm.trunc", X_TRUNC); m("round roundf llvm.round", X_ROUND); m("rint nearbyint llvm.rint llvm.nearbyint llvm.roundeven", X_RINT); m("fmax fmaxf llvm.maxnum llvm.maximum", X_FMAX); m("fmin fminf llvm.minnum llvm.minimum", X_FMIN); m("fmod fmodf", X_FMOD); m("cbrt", X_CBRT); m("copysign llvm.copysign", X_COPYSIGN); m("fma llvm.fma llvm.fmuladd", X_FMA); m("hypot", X_HYPOT); m("ldexp llvm.ldexp", X_LDEXP);
  m("llvm.abs", X_IABS); m("llvm.smax", X_SMAX); m("llvm.smin", X_SMIN); m("llvm.umax", X_UMAX); m("llvm.umin", X_UMIN);
  m("llvm.lifetime.start llvm.lifetime.end llvm.assume llvm.dbg.value llvm.dbg.declare llvm.dbg.label llvm.experimental.noalias.scope.decl llvm.prefetch llvm.donothing llvm.invariant.start llvm.invariant.end llvm.va_end", X_IGN);
  m("llvm.ctlz", X_CTLZ); m("llvm.cttz", X_CTTZ); m("llvm.ctpop", X_CTPOP); m("llvm.bswap", X_BSWAP); m("llvm.uadd.with.overflow", X_UADDO); m("llvm.sadd.with.overflow", X_SADDO); m("llvm.umul.with.overflow", X_UMULO); m("llvm.smul.with.overflow", X_SMULO); m("llvm.usub.with.overflow", X_USUBO); m("llvm.ssub.with.overflow", X_SSUBO); m("llvm.usub.sat", X_USUBS); m("llvm.uadd.sat", X_UADDS); m("llvm.fshl", X_FSHL); m("llvm.fshr", X_FSHR);
  m("__assert_fail", X_ASSERT); m("abort _ZSt9terminatev __cxa_pure_virtual _ZSt20__throw_length_errorPKc _ZSt17__throw_bad_allocv _ZSt28__throw_bad_array_new_lengthv _ZSt19__throw_logic_errorPKc _ZSt20__throw_out_of_rangePKc _ZSt24__throw_out_of_range_fmtPKcz _ZSt16__throw_bad_castv _ZSt24__throw_invalid_argumentPKc _ZSt25__throw_bad_function_callv __cxa_throw __cxa_rethrow", X_ABORT); m("exit _exit", X_EXIT); m("llvm.trap llvm.ubsantrap", X_TRAP);
  m("llvm.stacksave", X_STACKSAVE); m("llvm.stackrestore", X_STACKREST); m("llvm.expect llvm.expect.with.probability llvm.launder.invariant.group llvm.strip.invariant.group", X_EXPECT); m("llvm.threadlocal.address", X_TLS); m("llvm.objectsize", X_OBJSIZE); m("llvm.is.constant", X_ISCONST); m("llvm.is.fpclass", X_ISFPC); m("__cxa_atexit atexit", X_ATEXIT); m("printf puts putchar fprintf vprintf fputs fputc fwrite_unlocked", X_PRINT);
  m("_ZNSo9_M_insertIdEERSoT_ _ZNSolsEd _ZNSolsEf _ZNSo9_M_insertIbEERSoT_ _ZNSolsEi _ZNSo9_M_insertIlEERSoT_ _ZNSo9_M_insertImEERSoT_ _ZNSolsEj _ZNSolsEl _ZNSolsEm _ZNSolsEb", X_OSTREAMD); m("lround lroundf llvm.lround", X_LROUND); m("__cxa_guard_acquire", X_GUARDA); m("__cxa_guard_release", X_GUARDR); }
static int extOf(const string& n0) {
  string n = n0; if (n.compare(0, 5, "llvm.") == 0) { // strip type suffixes
    while (true) { auto it = extTab.find(n); if (it != extTab.end()) return it->second; size_t p = n.rfind('.'); if (p == string::npos || p <= 4) return X_NONE; n = n.substr(0, p); } }
  auto it = extTab.find(n); if (it != extTab.end()) return it->second;
  auto g = gsTab.find(n); if (g != gsTab.end()) return X_GS + g->second;
  return X_NATIVE; }
static FI* getFI(Function* f) { auto it = fis.find(f); if (it != fis.end()) return it->second; FI* x = new FI; x->f = f; x->idx = fis.size(); x->name = f->getName().str(); fis[f] = x; return x; }
static void prep(FI* fi) {
  Function* f = fi->f; fi->ready = true;
  { vector<InvokeInst*> iv; for (auto& b : *f) if (auto* ii = dyn_cast<InvokeInst>(b.getTerminator())) iv.push_back(ii); for (auto* ii : iv) changeToCall(ii); if (!iv.empty()) removeUnreachableBlocks(*f); } // exceptions end the path
  std::unordered_map<Value*, int> reg; std::unordered_map<Constant*, int> cm; std::unordered_map<BasicBlock*, int> bi; int n = 0;
  for (auto& a : f->args()) { reg[&a] = n++; fi->byval.push_back(a.hasByValAttr() ? (int)DL->getTypeAllocSize(a.getParamByValType()) : 0); }
  for (auto& b : *f) { bi[&b] = bi.size(); for (auto& i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++; } fi->nregs = n;
  { int k = 0; for (auto& b : *f) bi[&b] = k++; }
  auto O = [&](Value* v) -> int { if (auto* c = dyn_cast<Constant>(v)) { auto it = cm.find(c); if (it != cm.end()) return it->second; fi->consts.push_back(evalConst(c)); return cm[c] = -(int)fi->consts.size(); } if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return -1; return reg.at(v); };
  fi->consts.push_back(V(0)); fi->blk.resize(bi.size());
  for (auto& b : *f) { Blk& B = fi->blk[bi[&b]];
    for (auto& phi : b.phis()) for (unsigned i = 0; i < phi.getNumIncomingValues(); i++) B.phi[bi[phi.getIncomingBlock(i)]].push_back({reg[&phi], O(phi.getIncomingValue(i))});
    for (auto& i : b) { if (isa<PHINode>(i)) continue;
      In x{}; x.op = i.getOpcode(); x.src = &i; x.ty = tinfo(i.getType()); x.dst = i.getType()->isVoidTy() ? -1 : reg[&i]; x.a = x.b = x.c = -1;
      switch (i.getOpcode()) {
        case Instruction::Br: { auto& br = cast<BranchInst>(i); if (br.isConditional()) { x.sub = 1; x.a = O(br.getCondition()); x.b = bi[br.getSuccessor(0)]; x.c = bi[br.getSuccessor(1)]; } else { x.sub = 0; x.b = bi[br.getSuccessor(0)]; } break; }
        case Instruction::Switch: { auto& s = cast<SwitchInst>(i); x.a = O(s.getCondition()); x.b = bi[s.getDefaultDest()]; x.c = s.getCondition()->getType()->getIntegerBitWidth(); for (auto c : s.cases()) { x.aux.push_back(c.getCaseValue()->getZExtValue()); x.ops.push_back(bi[c.getCaseSuccessor()]); } break; }
        case Instruction::Ret: x.a = cast<ReturnInst>(i).getReturnValue() ? O(cast<ReturnInst>(i).getReturnValue()) : 0; x.sub = cast<ReturnInst>(i).getReturnValue() != nullptr; break;
        case Instruction::Alloca: { auto& a = cast<AllocaInst>(i); x.a = O(a.getArraySize()); x.cst = DL->getTypeAllocSize(a.getAllocatedType()); x.b = std::max<uint64_t>(16, a.getAlign().value()); break; }
        case Instruction::Load: x.a = O(i.getOperand(0)); break;
        case Instruction::Store: x.a = O(i.getOperand(0)); x.b = O(i.getOperand(1)); x.ty = tinfo(i.getOperand(0)->getType()); break;
        case Instruction::GetElementPtr: { auto& g = cast<GetElementPtrInst>(i); x.a = O(g.getPointerOperand()); int64_t off = 0;
          for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value* v = it.getOperand(); if (auto* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); continue; }
            int64_t sz = DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(v)) off += ci->getSExtValue() * sz; else { x.ops.push_back(O(v)); x.aux.push_back(sz); x.aux.push_back(v->getType()->getIntegerBitWidth()); } }
          x.cst = off; break; }
        case Instruction::Call: { auto& c = cast<CallInst>(i); Function* cf = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts()); for (auto& a : c.args()) { x.ops.push_back(O(a.get())); TI t = tinfo(a->getType()); x.aux.push_back(t.k | (t.w << 8)); }
          if (c.isInlineAsm()) { x.sub = 3; break; }
          if (cf) { string nm = cf->getName().str(); int id = extOf(nm);
            if (nm.find("ExceptionHandler5raise") != string::npos) id = X_RAISE;
            if (id == X_NATIVE && !cf->isDeclaration()) { x.callee = getFI(cf); x.sub = 0; } else { x.sub = 1; x.extId = id; x.ext = cf; } }
          else { x.sub = 2; x.a = O(c.getCalledOperand()); } break; }
        case Instruction::ICmp: case Instruction::FCmp: x.sub = cast<CmpInst>(i).getPredicate(); x.a = O(i.getOperand(0)); x.b = O(i.getOperand(1)); x.ty = tinfo(i.getOperand(0)->getType()); break;
        case Instruction::ExtractValue: { x.a = O(i.getOperand(0)); for (auto k : cast<ExtractValueInst>(i).indices()) x.aux.push_back(k); break; }
        case Instruction::InsertValue: { x.a = O(i.getOperand(0)); x.b = O(i.getOperand(1)); for (auto k : cast<InsertValueInst>(i).indices()) x.aux.push_back(k); break; }
        case Instruction::ShuffleVector: { x.a = O(i.getOperand(0)); x.b = O(i.getOperand(1)); for (int k : cast<ShuffleVectorInst>(i).getShuffleMask()) x.aux.push_back(k); x.c = cast<FixedVectorType>(i.getOperand(0)->getType())->getNumElements(); break; }
        case Instruction::AtomicRMW: x.sub = cast<AtomicRMWInst>(i).getOperation(); x.a = O(i.getOperand(0)); x.b = O(i.getOperand(1)); break;
        default: if (i.getNumOperands() > 0) x.a = O(i.getOperand(0)); if (i.getNumOperands() > 1) x.b = O(i.getOperand(1)); if (i.getNumOperands() > 2) x.c = O(i.getOperand(2)); }
      B.ins.push_back(x); } } }

// ============================================================ arithmetic
static Expr* RE(Val v, TK k) { if (v.e) { if (v.e->sort != S_REAL) unsupported("integer bits used as a real"); return v.e; } double d = k == T_FLT ? (double)Fl(v.u) : D(v.u); if (d != d) unsupported("NaN mixed with a symbolic real"); return mkRealD(d); }
static Expr* IE(Val v, unsigned w) { if (v.e) { if (v.e->sort == S_REAL) unsupported("bits of a symbolic real"); return v.e; } return mkInt(w, v.u); }
static Val boolV(Expr* b) { return b->op == BCONST ? V(b->iv) : VE(boolToBV(b, 1)); }
static Val realV(Expr* e, TK k) { if (e->op == RCONST) { Model m; Evaluator v(m); double d = (double)v.r(e); /* keep exactness when the constant is not a double */ if (mpq_class(d) == *e->q || mkRealD(d) == e) return V(k == T_FLT ? UF((float)d) : U(d)); } return {0xAAAAAAAAAAAAAAAAull, e}; }
static Val fbin(unsigned op, Val a, Val b, TK k) {
  if (!a.e && !b.e) { if (k == T_DBL) { double x = D(a.u), y = D(b.u); switch (op) { case Instruction::FAdd: return V(U(x + y)); case Instruction::FSub: return V(U(x - y)); case Instruction::FMul: return V(U(x * y)); case Instruction::FDiv: return V(U(x / y)); case Instruction::FRem: return V(U(fmod(x, y))); } }
    else { float x = Fl(a.u), y = Fl(b.u); switch (op) { case Instruction::FAdd: return V(UF(x + y)); case Instruction::FSub: return V(UF(x - y)); case Instruction::FMul: return V(UF(x * y)); case Instruction::FDiv: return V(UF(x / y)); case Instruction::FRem: return V(UF(fmodf(x, y))); } } }
  Expr *x = RE(a, k), *y = RE(b, k);
  switch (op) { case Instruction::FAdd: return realV(rAdd(x, y), k); case Instruction::FSub: return realV(rSub(x, y), k); case Instruction::FMul: return realV(rMul(x, y), k);
    case Instruction::FDiv: require(bNot(rEq(y, mkReal(0))), S->div0, "div-by-zero"); return realV(rDiv(x, y), k); }
  unsupported("frem"); }
static Val ibin(unsigned op, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) { uint64_t x = a.u & maskW(w), y = b.u & maskW(w), r = 0;
    switch (op) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break; case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break; case Instruction::AShr: r = sx(x, w) >> (y >= w ? w - 1 : y); break;
      case Instruction::UDiv: if (!y) violationEnd("integer-div-by-zero", "abort"); r = x / y; break; case Instruction::URem: if (!y) violationEnd("integer-div-by-zero", "abort"); r = x % y; break;
      case Instruction::SDiv: if (!y) violationEnd("integer-div-by-zero", "abort"); r = sx(y, w) == -1 ? -x : sx(x, w) / sx(y, w); break; case Instruction::SRem: if (!y) violationEnd("integer-div-by-zero", "abort"); r = sx(y, w) == -1 ? 0 : sx(x, w) % sx(y, w); break; }
    return V(r & maskW(w)); }
  if ((a.e && a.e->sort == S_REAL) || (b.e && b.e->sort == S_REAL)) {
    if (w == 64 && a.e && !b.e) { if (op == Instruction::And && b.u == 0x7fffffffffffffffull) return realV(rAbs(a.e), T_DBL); if (op == Instruction::Xor && b.u == 0x8000000000000000ull) return realV(rNeg(a.e), T_DBL); }
    unsupported("integer operation on the bits of a symbolic real"); }
  Expr *x = IE(a, w), *y = IE(b, w); EOp e = IADD;
  switch (op) { case Instruction::Add: e = IADD; break; case Instruction::Sub: e = ISUB; break; case Instruction::Mul: e = IMUL; break; case Instruction::And: e = IAND; break; case Instruction::Or: e = IOR; break; case Instruction::Xor: e = IXOR; break; case Instruction::Shl: e = ISHL; break; case Instruction::LShr: e = ILSHR; break; case Instruction::AShr: e = IASHR; break;
    case Instruction::UDiv: e = IUDIV; break; case Instruction::URem: e = IUREM; break; case Instruction::SDiv: e = ISDIV; break; case Instruction::SRem: e = ISREM; break; }
  if (e == IUDIV || e == IUREM || e == ISDIV || e == ISREM) { Expr* nz = bNot(iCmp(IEQ, y, mkInt(w, 0))); if (!branch(nz)) violationEnd("integer-div-by-zero", "abort"); }
  return VE(iBin(e, x, y)); }
static Val icmp(unsigned p, Val a, Val b, unsigned w) {
  if (!a.e && !b.e) { uint64_t x = a.u & maskW(w), y = b.u & maskW(w); int64_t s = sx(x, w), t = sx(y, w);
    switch (p) { case CmpInst::ICMP_EQ: return V(x == y); case CmpInst::ICMP_NE: return V(x != y); case CmpInst::ICMP_UGT: return V(x > y); case CmpInst::ICMP_UGE: return V(x >= y); case CmpInst::ICMP_ULT: return V(x < y); case CmpInst::ICMP_ULE: return V(x <= y); case CmpInst::ICMP_SGT: return V(s > t); case CmpInst::ICMP_SGE: return V(s >= t); case CmpInst::ICMP_SLT: return V(s < t); default: return V(s <= t); } }
  Expr *x = IE(a, w), *y = IE(b, w);
  switch (p) { case CmpInst::ICMP_EQ: return boolV(iCmp(IEQ, x, y)); case CmpInst::ICMP_NE: return boolV(bNot(iCmp(IEQ, x, y))); case CmpInst::ICMP_UGT: return boolV(iCmp(IULT, y, x)); case CmpInst::ICMP_UGE: return boolV(iCmp(IULE, y, x)); case CmpInst::ICMP_ULT: return boolV(iCmp(IULT, x, y)); case CmpInst::ICMP_ULE: return boolV(iCmp(IULE, x, y)); case CmpInst::ICMP_SGT: return boolV(iCmp(ISLT, y, x)); case CmpInst::ICMP_SGE: return boolV(iCmp(ISLE, y, x)); case CmpInst::ICMP_SLT: return boolV(iCmp(ISLT, x, y)); default: return boolV(iCmp(ISLE, x, y)); } }
static Val fcmp(unsigned p, Val a, Val b, TK k) {
  if (!a.e && !b.e) { double x = k == T_FLT ? Fl(a.u) : D(a.u), y = k == T_FLT ? Fl(b.u) : D(b.u); bool un = x != x || y != y, r = false;
    switch (p & 7) { case 0: r = false; break; case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y && !un; break; case 7: r = !un; break; }
    if (p & 8) { if (p == CmpInst::FCMP_UNO) r = un; else if (p == CmpInst::FCMP_TRUE) r = true; else { switch (p & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y; break; } r = r || un; } }
    return V(r); }
  // symbolic reals are never NaN
  if (!a.e && D(a.u) != D(a.u) && k == T_DBL) return V(p >= 8); if (!b.e && D(b.u) != D(b.u) && k == T_DBL) return V(p >= 8);
  Expr *x = RE(a, k), *y = RE(b, k);
  switch (p) { case CmpInst::FCMP_FALSE: case CmpInst::FCMP_UNO: return V(0); case CmpInst::FCMP_TRUE: case CmpInst::FCMP_ORD: return V(1); default: break; }
  switch (p & 7) { case 1: return boolV(rEq(x, y)); case 2: return boolV(rLt(y, x)); case 3: return boolV(rLe(y, x)); case 4: return boolV(rLt(x, y)); case 5: return boolV(rLe(x, y)); default: return boolV(bNot(rEq(x, y))); } }
static Val selectV(Val c, Val a, Val b, const TI& t) {
  if (!c.e) return (c.u & 1) ? a : b;
  Expr* cb = toBool(c.e); if (cb->op == BCONST) return cb->iv ? a : b;
  if (!a.e && !b.e && a.u == b.u) return a;
  if (t.k == T_INT && t.w == 1) return boolV(bOr(bAnd(cb, toBool(IE(a, 1))), bAnd(bNot(cb), toBool(IE(b, 1)))));
  if (iteMode && t.k == T_INT && !(a.e && a.e->sort == S_REAL) && !(b.e && b.e->sort == S_REAL)) return VE(iIte(cb, IE(a, t.w), IE(b, t.w)));
  if (iteReal && t.k == T_DBL) return realV(rIte(cb, RE(a, T_DBL), RE(b, T_DBL)), T_DBL);
  return branch(cb) ? a : b; }
static Expr* ratPow(Expr* x, const mpq_class& p) {
  if (p.get_den() == 1 && abs(p.get_num()) <= 64) { if (p < 0) require(bNot(rEq(x, mkReal(0))), S->div0, "div-by-zero"); return rPowI(x, (int)p.get_num().get_si()); }
  if (p.get_den() <= 12 && abs(p.get_num()) <= 64) { unsigned q = p.get_den().get_ui(); int n = (int)p.get_num().get_si(); if (n < 0) require(rLt(mkReal(0), x), S->div0, "div-by-zero"); else require(rLe(mkReal(0), x), S->sqrtneg, "sqrt-of-negative"); Expr* r = rRoot(x, q); return rPowI(r, n); }
  require(rLt(mkReal(0), x), S->sqrtneg, "pow-of-nonpositive"); return rFun(F_POW, x, mkReal(p)); }
static Val mathX(int id, const Val* a, int n, TK k, const vector<int64_t>& aux) {
  bool sym = false; for (int i = 0; i < n; i++) if (a[i].e) sym = true;
  auto get = [&](int i) { TK t = (TK)(aux[i] & 0xff); if (t == T_INT) return (double)(int)a[i].u; return t == T_FLT ? (double)Fl(a[i].u) : D(a[i].u); };
  auto put = [&](double d) { return V(k == T_FLT ? UF((float)d) : U(d)); };
  if (!sym) { double x = get(0), y = n > 1 ? get(1) : 0;
    switch (id) { case X_SQRT: return put(sqrt(x)); case X_FABS: return put(fabs(x)); case X_POW: return put(k == T_FLT ? powf(x, y) : pow(x, y)); case X_EXP: return put(exp(x)); case X_LOG: return put(log(x)); case X_SIN: return put(sin(x)); case X_COS: return put(cos(x)); case X_TAN: return put(tan(x)); case X_ATAN: return put(atan(x)); case X_ATAN2: return put(atan2(x, y)); case X_TANH: return put(tanh(x)); case X_ERF: return put(erf(x)); case X_ERFC: return put(erfc(x)); case X_ACOS: return put(acos(x)); case X_ASIN: return put(asin(x)); case X_SINH: return put(sinh(x)); case X_COSH: return put(cosh(x)); case X_ATANH: return put(atanh(x)); case X_LOG10: return put(log10(x)); case X_LOG2: return put(log2(x)); case X_EXP2: return put(exp2(x)); case X_FLOOR: return put(floor(x)); case X_CEIL: return put(ceil(x)); case X_TRUNC: return put(trunc(x)); case X_ROUND: return put(round(x)); case X_RINT: return put(rint(x)); case X_FMAX: return put(fmax(x, y)); case X_FMIN: return put(fmin(x, y)); case X_FMOD: return put(fmod(x, y)); case X_CBRT: return put(cbrt(x)); case X_COPYSIGN: return put(copysign(x, y)); case X_FMA: return put(get(0) * get(1) + get(2)); case X_HYPOT: return put(hypot(x, y)); case X_LDEXP: return put(ldexp(x, (int)a[1].u)); } }
  Expr* x = RE(a[0], (TK)(aux[0] & 0xff)); Expr* y = nullptr; if (n > 1 && (aux[1] & 0xff) != T_INT) y = RE(a[1], (TK)(aux[1] & 0xff));
  auto R = [&](Expr* e) { return realV(e, k); }; Expr* ln10 = nullptr;
  switch (id) {
    case X_SQRT: require(rLe(mkReal(0), x), S->sqrtneg, "sqrt-of-negative"); return R(rRoot(x, 2));
    case X_CBRT: require(rLe(mkReal(0), x), S->sqrtneg, "sqrt-of-negative"); return R(rRoot(x, 3));
    case X_FABS: { if (gFacts.iv(x).lo >= 0) return R(x); if (gFacts.iv(x).hi <= 0) return R(rNeg(x)); if (iteReal) return R(rIte(rLe(mkReal(0), x), x, rNeg(x))); return branch(rLe(mkReal(0), x)) ? R(x) : R(rNeg(x)); }
    case X_POW: if (!y) return R(ratPow(x, mpq_class((int)a[1].u))); if (y->op == RCONST) return R(ratPow(x, *y->q)); if (x->op == RCONST && *x->q == 1) return R(x); require(rLt(mkReal(0), x), S->sqrtneg, "pow-of-nonpositive"); return R(rFun(F_POW, x, y));
    case X_EXP: return R(rFun(F_EXP, x)); case X_EXP2: return R(rFun(F_POW, mkReal(2), x));
    case X_LOG: case X_LOG10: case X_LOG2: require(rLt(mkReal(0), x), S->sqrtneg, "log-of-nonpositive"); if (id == X_LOG) return R(rFun(F_LOG, x)); if (id == X_LOG10 && x->op == RFUN && x->iv == F_POW && x->k[0]->op == RCONST && *x->k[0]->q == 10) return R(x->k[1]); return R(rDiv(rFun(F_LOG, x), rFun(F_LOG, mkReal(id == X_LOG10 ? 10 : 2))));
    case X_SIN: return R(rFun(F_SIN, x)); case X_COS: return R(rFun(F_COS, x)); case X_TAN: return R(rDiv(rFun(F_SIN, x), rFun(F_COS, x))); case X_ATAN: return R(rFun(F_ATAN, x)); case X_ATAN2: return R(rFun(F_ATAN2, x, y)); case X_TANH: return R(rFun(F_TANH, x)); case X_ERF: return R(rFun(F_ERF, x)); case X_ERFC: return R(rFun(F_ERFC, x)); case X_ACOS: return R(rFun(F_ACOS, x)); case X_ASIN: return R(rFun(F_ASIN, x)); case X_SINH: return R(rFun(F_SINH, x)); case X_COSH: return R(rFun(F_COSH, x)); case X_ATANH: return R(rFun(F_ATANH, x));
    case X_FLOOR: return R(mkReal(mpq_class(enumReal(x)))); case X_CEIL: return R(mkReal(mpq_class(-enumReal(rNeg(x)))));
    case X_TRUNC: return R(mkReal(mpq_class(branch(rLe(mkReal(0), x)) ? enumReal(x) : -enumReal(rNeg(x)))));
    case X_ROUND: { Expr* h = mkReal(mpq_class(1, 2)); return R(mkReal(mpq_class(branch(rLe(mkReal(0), x)) ? enumReal(rAdd(x, h)) : -enumReal(rAdd(rNeg(x), h))))); }
    case X_RINT: return R(mkReal(mpq_class(enumReal(rAdd(x, mkReal(mpq_class(1, 2)))))));
    case X_FMAX: if (iteReal) return R(rIte(rLt(x, y), y, x)); return branch(rLt(x, y)) ? R(y) : R(x); case X_FMIN: if (iteReal) return R(rIte(rLt(x, y), x, y)); return branch(rLt(x, y)) ? R(x) : R(y);
    case X_FMOD: { require(bNot(rEq(y, mkReal(0))), S->div0, "div-by-zero"); Expr* q = rDiv(x, y); long t = branch(rLe(mkReal(0), q)) ? enumReal(q) : -enumReal(rNeg(q)); return R(rSub(x, rMul(mkReal(mpq_class(t)), y))); }
    case X_COPYSIGN: { Expr* ax = branch(rLe(mkReal(0), x)) ? x : rNeg(x); return branch(rLe(mkReal(0), y)) ? R(ax) : R(rNeg(ax)); }
    case X_FMA: return R(rAdd(rMul(x, y), RE(a[2], k)));
    case X_HYPOT: return R(rRoot(rAdd(rMul(x, x), rMul(y, y)), 2));
    case X_LDEXP: { long ex = (int)conc(a[1]); mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 2, std::labs(ex)); return R(rMul(x, mkReal(ex >= 0 ? mpq_class(p) : mpq_class(1, p)))); } }
  (void)ln10; unsupported("math"); }

// ============================================================ harness interface
static const char* cstr(Val v) { return (const char*)conc(v); }
static size_t repPos = 0; static vector<Input> repIn;
static Input* repNext(const char* n) { if (repPos < repIn.size()) { auto& r = repIn[repPos++]; if (r.name != n) fprintf(stderr, "replay order mismatch %s vs %s\n", r.name.c_str(), n); return &r; } return nullptr; }
static void newVarWit(Expr* e) { (void)e; if (wit.empty() && !hasWit) { } for (auto& m : wit) { size_t o = m.size(); m.resize(gVars.size()); for (size_t i = o; i < m.size(); i++) m[i] = sampleVar(i); } resetEv(); }
static void afterCex(Expr* c) { Model m; bool g; for (size_t i = 0; i < wit.size(); i++) if (ev(i).b(c)) { assumeC(c, nullptr); return; } if (numSearch({c}, m, 200)) { assumeC(c, &m); } }
static void doCheck(const char* lab, Expr* c, Expr* ident) { // c must hold; ident: expression whose vanishing implies c
  Label* L = label(lab, 1); L->reached++;
  if (c->op == BCONST) { if (c->iv) { L->concrete++; return; } Model m = anyModel(); emitCex(lab, "check", m, nullptr); return; }
  if (gFacts.decide(c) == 1) { L->interval++; return; }
  Expr* n = bNot(c); 
  for (size_t i = 0; i < wit.size(); i++) if (ev(i).b(n) && Evaluator(wit[i]).b(n)) { emitCex(lab, "check", wit[i], c); afterCex(c); return; }
  if (ident) { Normalizer nz; bool ok; if (nz.zero(ident, &ok)) { L->ident++; return; } }
  Model m; if (numSearch({n}, m, 60)) { emitCex(lab, "check", m, c); afterCex(c); return; }
  Res r = solve({n}, m, opt.qms * 4);
  if (r == R_UNSAT) { L->smt++; return; }
  if (r == R_SAT) { if (!(okModel(m) && Evaluator(m).b(n))) { Model m2; if (numSearch({n}, m2, 3000)) m = m2; } emitCex(lab, "check", m, c); afterCex(c); return; }
  if (numSearch({n}, m, 6000)) { emitCex(lab, "check", m, c); afterCex(c); return; }
  L->unknown++; if (getenv("GSYM_BR")) { fprintf(stderr, "UNKNOWN check %s\n", lab); if (ident) { Normalizer nz; bool ok; nz.zero(ident, &ok); const RatFn& r = nz.nf(ident); fprintf(stderr, "  nf ok=%d terms=%zu dens=%zu\n", ok, r.num.t.size(), r.den.size()); int n = 0; for (auto& t : r.num.t) { if (n++ > 5) break; fprintf(stderr, "   %g", t.second.get_d()); for (auto& m : t.first) fprintf(stderr, " * %s^%d", show(gExprById[m.first], 3).c_str(), m.second); fprintf(stderr, "\n"); } } } }
static Val gsCall(int g, const Val* a, int n, const vector<int64_t>& aux) {
  switch (g) {
    case G_SYM: return V(opt.replay.empty());
    case G_ARG: { static uint64_t p = 0; if (!p) { p = aAlloc(opt.arg.size() + 1); strcpy((char*)p, opt.arg.c_str()); } return V(p); }
    case G_REAL: { const char* nm = cstr(a[0]); double lo = D(a[1].u), hi = D(a[2].u);
      if (!opt.replay.empty()) { Input* r = repNext(nm); double v = r ? r->d : lo; return V(U(v)); }
      Expr* e = mkVar(S_REAL, nm, lo, hi); inputs.push_back({'r', nm, e, 0, 0}); newVarWit(e); pushPC(rLe(mkReal(mpq_class(lo)), e)); pushPC(rLe(e, mkReal(mpq_class(hi)))); return VE(e); }
    case G_INT: { const char* nm = cstr(a[0]); long lo = (int)a[1].u, hi = (int)a[2].u;
      if (!opt.replay.empty()) { Input* r = repNext(nm); return V((uint32_t)(r ? r->i : lo)); }
      Expr* e = mkVar(32, nm, lo, hi); inputs.push_back({'i', nm, e, 0, 0}); newVarWit(e); pushPC(iCmp(ISLE, mkInt(32, lo), e)); pushPC(iCmp(ISLE, e, mkInt(32, hi))); return VE(e); }
    case G_CHOOSE: { const char* nm = cstr(a[0]); long k = (int)conc(a[1]); if (!opt.replay.empty()) { Input* r = repNext(nm); return V((uint32_t)(r ? r->i : 0)); }
      long v = 0; for (; v < k - 1; v++) { pid_t p = forkPath(); if (p == 0) break; } inputs.push_back({'i', nm, nullptr, 0, v}); return V(v); }
    case G_ASSUME: { if (!a[0].e) { if (!(a[0].u & 1)) endPath(1); return V(0); } Expr* c = toBool(a[0].e); if (c->op == BCONST) { if (!c->iv) endPath(1); return V(0); } int d = gFacts.decide(c); if (d == 1) return V(0); if (d == 0) endPath(1); Model m; bool gm; int f = feasible(c, m, gm); if (f == 0) endPath(1); assumeC(c, gm ? &m : nullptr); return V(0); }
    case G_CHECK: { const char* lab = cstr(a[0]); Expr* c = a[1].e ? toBool(a[1].e) : mkBool(a[1].u & 1); trace.push_back({lab, c, 0}); if (!opt.replay.empty() && c->op == BCONST && !c->iv) fprintf(stderr, "ENGINE-REPLAY-FAIL %s\n", lab); doCheck(lab, c, nullptr); return V(0); }
    case G_CLOSE: case G_LE: { const char* lab = cstr(a[0]); TK k = T_DBL; bool sym = a[1].e || a[2].e || a[3].e; 
      trace.push_back({lab, a[1].e, D(a[1].u)}); trace.push_back({lab, a[2].e, D(a[2].u)});
      if (!sym) { double x = D(a[1].u), y = D(a[2].u), s = D(a[3].u); bool ok = g == G_CLOSE ? fabs(x - y) <= 1e-7 * fabs(s) : x <= y + 1e-7 * fabs(s); if (!ok && !opt.replay.empty()) fprintf(stderr, "ENGINE-REPLAY-FAIL %s %g %g\n", lab, x, y); doCheck(lab, mkBool(ok), nullptr); return V(0); }
      Expr *x = RE(a[1], k), *y = RE(a[2], k), *s = RE(a[3], k); Expr* t = rMul(mkReal(mpq_class(1, 1000000)), s); Expr* d = rSub(x, y);
      Expr* c = g == G_CLOSE ? bAnd(rLe(d, t), rLe(rNeg(d), t)) : rLe(d, t); if (isConst(d) && d->op == RCONST && *d->q == 0) { Label* L = label(lab, 1); L->reached++; L->ident++; return V(0); }
      doCheck(lab, c, g == G_CLOSE ? d : nullptr); return V(0); }
    case G_COVER: label((string("cover:") + cstr(a[0])).c_str(), 2)->reached++; return V(0);
    case G_DIFF: { if (!a[0].e) return V(U(0.0)); if (!a[1].e || a[1].e->op != RVAR) unsupported("gs_diff needs a variable"); return realV(diff(a[0].e, a[1].e), T_DBL); }
    case G_ITE: iteMode = a[0].u & 1; iteReal = (a[0].u >> 1) & 1; return V(0);
    case G_DIV0: div0Policy = (int)a[0].u; return V(0);
    case G_RAISE: raisePolicy = (int)a[0].u; return V(0);
    case G_END: endPath(0);
    case G_SPLIT: { if (!a[0].e) return a[0]; return V(branch(toBool(a[0].e))); }
    case G_PRUNE: return V(0);
    case G_LIMIT: opt.maxInstr = (long)(int)a[0].u * 1000000L; return V(0);
    case G_CONC: { if (!a[0].e) return a[0]; return V(enumInt(a[0].e)); }
    case G_DEBUG: fprintf(stderr, "[%d] %s: %s\n", getpid(), cstr(a[0]), a[1].e ? show(a[1].e, 8).c_str() : fmt(D(a[1].u)).c_str()); return V(0); }
  return V(0); }

// ============================================================ native calls
static Val nativeCall(uint64_t addr, const string& name, FunctionType* ft, CallBase* cb, const Val* a, int n) {
  if (!addr || (addr >> 32) == 0x1200) unsupported("undefined function " + name);
  vector<ffi_type*> at(n); vector<uint64_t> st(n); vector<void*> av(n);
  for (int i = 0; i < n; i++) { Type* t = cb->getArgOperand(i)->getType(); at[i] = fty(t); if (!at[i]) unsupported("native argument type for " + name); if (cb->isByValArgument(i)) unsupported("byval argument to native " + name);
    Val v = a[i]; if (v.e) { if (v.e->sort == S_REAL) unsupported("symbolic real passed to native " + name); v.u = enumInt(v.e); }
    st[i] = v.u; av[i] = &st[i]; }
  ffi_type* rt = fty(cb->getType()); if (!rt) unsupported("native return type for " + name);
  ffi_cif cif; ffi_status s = ft->isVarArg() ? ffi_prep_cif_var(&cif, FFI_DEFAULT_ABI, ft->getNumParams(), n, rt, at.data()) : ffi_prep_cif(&cif, FFI_DEFAULT_ABI, n, rt, at.data()); if (s != FFI_OK) unsupported("ffi " + name);
  uint64_t ret[2] = {0, 0}; ffi_call(&cif, (void (*)())addr, ret, av.data());
  TI ti = tinfo(cb->getType()); if (ti.k == T_INT) return V(ret[0] & maskW(ti.w)); if (ti.k == T_FLT) return V(ret[0] & 0xffffffff);
  if (ti.k == T_DBL && (ret[0] >> 40) == 0x7FF4A5ull) return VE(gExprById[(uint32_t)(ret[0] >> 8)]);
  return V(ret[0]); }
static Val approxArg(Val v) { if (!v.e) return v; double d = wit.empty() ? 0 : v.e->sort == S_REAL ? (double)ev(0).r(v.e) : 0; if (v.e->sort == S_REAL) return V(U(d)); return V(wit.empty() ? 0 : ev(0).ev(v.e).i); }
static Val callExt(In& x, const Val* a, int n, uint64_t stTop0) {
  auto* cb = cast<CallBase>(x.src); int id = x.extId; unsigned w = x.ty.w; (void)stTop0;
  if (id > X_GS) return gsCall(id - X_GS, a, n, x.aux);
  if (id >= X_SQRT && id <= X_HYPOT) { if (x.ty.k == T_VEC) { Val* r = newAgg(x.ty.n); TI et = tinfo(elemTy(x.ty.t, 0)); vector<int64_t> au(n, et.k | et.w << 8); for (unsigned i = 0; i < x.ty.n; i++) { Val t[3]; for (int j = 0; j < n && j < 3; j++) t[j] = ((Val*)a[j].u)[i]; r[i] = mathX(id, t, n, et.k, au); } return V((uint64_t)r); } return mathX(id, a, n, x.ty.k, x.aux); }
  switch (id) {
    case X_LDEXP: return mathX(id, a, n, x.ty.k, x.aux);
    case X_IGN: return V(0);
    case X_MALLOC: case X_NEW: { uint64_t sz = conc(a[0]); if (sz > (1ull << 31)) { if (id == X_NEW) violationEnd("bad-alloc", "abort"); return V(0); } return V(hMalloc(sz)); }
    case X_CALLOC: { uint64_t sz = conc(a[0]) * conc(a[1]); uint64_t p = hMalloc(sz); memset((void*)p, 0, sz); return V(p); }
    case X_REALLOC: { uint64_t o = conc(a[0]), sz = conc(a[1]); uint64_t p = hMalloc(sz); if (o && heapSize.count(o)) { memMove(p, o, std::min(sz, heapSize[o])); killCells(o, heapSize[o]); memset(sh(o), 0, heapSize[o]); heapSize.erase(o); } return V(p); }
    case X_FREE: { uint64_t p = conc(a[0]); if (!p) return V(0); if (!inArena(p)) { free((void*)p); return V(0); } auto it = heapSize.find(p); if (it == heapSize.end()) memError("bad-free", p, 0); killCells(p, it->second); memset(sh(p), 0, it->second); if (it->second > (1 << 20)) madvise((void*)((p + 4095) & ~4095ull), it->second - 8192, MADV_DONTNEED); heapSize.erase(it); return V(0); }
    case X_MEMCPY: { uint64_t d = conc(a[0]), s = conc(a[1]), m = conc(a[2]); memMove(d, s, m); return V(d); }
    case X_MEMSET: { uint64_t d = conc(a[0]), m = conc(a[2]); uint8_t v = conc(a[1]); if (m) { if (inArena(d)) { uint8_t* p = sh(d); bool sy = false; for (uint64_t i = 0; i < m; i++) { if (!p[i]) memError("oob-write", d, m); if (p[i] == 2) sy = true; } if (sy) clearSym(d, m); } else if (d < 65536) memError("null-write", d, m); memset((void*)d, v, m); } return V(d); }
    case X_IABS: { if (a[0].e) { Expr* e = a[0].e; return branch(iCmp(ISLT, e, mkInt(w, 0))) ? VE(iBin(ISUB, mkInt(w, 0), e)) : a[0]; } int64_t s = sx(a[0].u, w); return V((uint64_t)(s < 0 ? -s : s) & maskW(w)); }
    case X_SMAX: case X_SMIN: case X_UMAX: case X_UMIN: { unsigned p = id == X_SMAX ? CmpInst::ICMP_SGT : id == X_SMIN ? CmpInst::ICMP_SLT : id == X_UMAX ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT; return selectV(icmp(p, a[0], a[1], w), a[0], a[1], x.ty); }
    case X_CTLZ: { uint64_t v = conc(a[0]) & maskW(w); return V(v ? __builtin_clzll(v) - (64 - w) : w); } case X_CTTZ: { uint64_t v = conc(a[0]) & maskW(w); return V(v ? __builtin_ctzll(v) : w); } case X_CTPOP: return V(__builtin_popcountll(conc(a[0]) & maskW(w)));
    case X_BSWAP: { uint64_t v = conc(a[0]); return V(w == 64 ? __builtin_bswap64(v) : w == 32 ? __builtin_bswap32(v) : __builtin_bswap16(v)); }
    case X_UADDO: case X_SADDO: case X_UMULO: case X_SMULO: case X_USUBO: case X_SSUBO: { unsigned ww = x.aux[0] >> 8; uint64_t p = conc(a[0]) & maskW(ww), q = conc(a[1]) & maskW(ww); __int128 r; bool sg = id == X_SADDO || id == X_SMULO || id == X_SSUBO; __int128 A = sg ? (__int128)sx(p, ww) : (__int128)p, B = sg ? (__int128)sx(q, ww) : (__int128)q; r = (id == X_UADDO || id == X_SADDO) ? A + B : (id == X_UMULO || id == X_SMULO) ? A * B : A - B; uint64_t lo = (uint64_t)r & maskW(ww); __int128 back = sg ? (__int128)sx(lo, ww) : (__int128)lo; Val* v = newAgg(2); v[0] = V(lo); v[1] = V(back != r); return V((uint64_t)v); }
    case X_USUBS: { uint64_t p = conc(a[0]), q = conc(a[1]); return V(p > q ? p - q : 0); } case X_UADDS: { uint64_t p = conc(a[0]), q = conc(a[1]), r = (p + q) & maskW(w); return V(r < p ? maskW(w) : r); }
    case X_FSHL: case X_FSHR: { uint64_t p = conc(a[0]), q = conc(a[1]), s = conc(a[2]) % w; uint64_t r; if (id == X_FSHL) r = s ? (p << s | (q & maskW(w)) >> (w - s)) : p; else r = s ? (p << (w - s) | (q & maskW(w)) >> s) : q; return V(r & maskW(w)); }
    case X_ASSERT: { string m = string("assert:") + (const char*)a[0].u; violationEnd(m, "abort"); }
    case X_ABORT: violationEnd("abort", "abort"); case X_TRAP: violationEnd("trap", "abort");
    case X_EXIT: if (raisePolicy) { S->allowedRaise++; endPath(0); } violationEnd("exit", "abort");
    case X_RAISE: if (raisePolicy) { S->allowedRaise++; label("cover:raise", 2)->reached++; endPath(0); } { string m; void* sp = (void*)a[n - 1].u; try { m = *(std::string*)sp; } catch (...) {} for (auto& c : m) if (c == '\n') c = ' '; violationEnd("raise:" + m.substr(0, 90), "raise"); }
    case X_STACKSAVE: return V(stTop); case X_STACKREST: { uint64_t p = a[0].u; if (p <= stTop) { killCells(p, stTop - p); memset(sh(p), 0, stTop - p); stTop = p; } return V(0); }
    case X_EXPECT: case X_TLS: return a[0]; case X_OBJSIZE: return V((a[1].u & 1) ? 0 : ~0ull); case X_ISCONST: return V(0);
    case X_ISFPC: { unsigned m = a[1].u; if (a[0].e) { bool N = m & 8, Z = m & 0x60, P = m & 0x100; if (N == Z && Z == P) return V(N); Expr* e = a[0].e; if (Z != N && N == P) return V(branch(rEq(e, mkReal(0))) ? Z : N); return V(branch(rEq(e, mkReal(0))) ? Z : branch(rLt(e, mkReal(0))) ? N : P); }
      double d = D(a[0].u); unsigned c; switch (std::fpclassify(d)) { case FP_NAN: c = 3; break; case FP_INFINITE: c = d < 0 ? 4 : 0x200; break; case FP_ZERO: c = std::signbit(d) ? 0x20 : 0x40; break; case FP_SUBNORMAL: c = d < 0 ? 0x10 : 0x80; break; default: c = d < 0 ? 8 : 0x100; } return V((m & c) != 0); }
    case X_ATEXIT: return V(0); case X_PRINT: return V(0); case X_GUARDA: return V(*(uint8_t*)a[0].u == 0); case X_GUARDR: *(uint8_t*)a[0].u = 1; return V(0);
    case X_LROUND: { if (!a[0].e) return V((uint64_t)lround(D(a[0].u))); Expr* h = mkReal(mpq_class(1, 2)); Expr* e = a[0].e; return V((uint64_t)(branch(rLe(mkReal(0), e)) ? enumReal(rAdd(e, h)) : -enumReal(rAdd(rNeg(e), h)))); }
    case X_OSTREAMD: { Val t[2] = {a[0], approxArg(a[1])}; return nativeCall(addrOf(x.ext), x.ext->getName().str(), cb->getFunctionType(), cb, t, n); }
    case X_NATIVE: return nativeCall(addrOf(x.ext), x.ext->getName().str(), cb->getFunctionType(), cb, a, n); }
  unsupported("intrinsic " + x.ext->getName().str()); }

// ============================================================ interpreter loop
static Val loadT(uint64_t a, const TI& t) {
  switch (t.k) { case T_INT: { unsigned n = t.size; Val v = loadN(a, n, n == 8); if (v.e) { if (v.e->sort != S_REAL && v.e->sort != t.w) return VE(iExtract(v.e, 0, t.w)); return v; } v.u &= maskW(t.w); return v; }
    case T_DBL: case T_PTR: return loadN(a, 8, true); case T_FLT: return loadN(a, 4, false);
    case T_AGG: case T_VEC: { Val* v = newAgg(t.n); for (unsigned i = 0; i < t.n; i++) v[i] = loadT(a + elemOff(t.t, i), tinfo(elemTy(t.t, i))); return V((uint64_t)v); }
    case T_X80: unsupported("x86_fp80"); default: unsupported("load type"); } }
static void storeT(uint64_t a, Val v, const TI& t) {
  switch (t.k) { case T_INT: if (!v.e) v.u &= maskW(t.w); storeN(a, t.size, v); return; case T_DBL: case T_PTR: storeN(a, 8, v); return; case T_FLT: storeN(a, 4, v); return;
    case T_AGG: case T_VEC: { Val* p = (Val*)v.u; for (unsigned i = 0; i < t.n; i++) storeT(a + elemOff(t.t, i), p[i], tinfo(elemTy(t.t, i))); return; } default: unsupported("store type"); } }
static Val castV(unsigned op, Val v, const TI& from, const TI& to) {
  switch (op) {
    case Instruction::ZExt: if (v.e) return VE(iZext(IE(v, from.w), to.w)); return V(v.u & maskW(from.w));
    case Instruction::SExt: if (v.e) return VE(iSext(IE(v, from.w), to.w)); return V((uint64_t)sx(v.u & maskW(from.w), from.w) & maskW(to.w));
    case Instruction::Trunc: if (v.e) return VE(iExtract(IE(v, from.w), 0, to.w)); return V(v.u & maskW(to.w));
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (to.k == T_INT && to.w < 64) return V(v.u & maskW(to.w)); return v;
    case Instruction::BitCast: case Instruction::Freeze: return v;
    case Instruction::FPExt: if (v.e) return v; return V(U((double)Fl(v.u))); case Instruction::FPTrunc: if (v.e) return v; return V(UF((float)D(v.u)));
    case Instruction::SIToFP: case Instruction::UIToFP: { bool sg = op == Instruction::SIToFP; if (v.e) { Expr* e = rFromBV(IE(v, from.w), sg); return realV(e, to.k); } if (to.k == T_FLT) return V(UF(sg ? (float)sx(v.u, from.w) : (float)(v.u & maskW(from.w)))); return V(U(sg ? (double)sx(v.u & maskW(from.w), from.w) : (double)(v.u & maskW(from.w)))); }
    case Instruction::FPToSI: case Instruction::FPToUI: { if (v.e) { Expr* e = v.e; long k; if (e->op == RFROMBV && e->k[0]->sort == to.w) return VE(e->k[0]); if (branch(rLe(mkReal(0), e))) k = enumReal(e); else k = -enumReal(rNeg(e)); return V((uint64_t)k & maskW(to.w)); } double d = from.k == T_FLT ? Fl(v.u) : D(v.u); if (op == Instruction::FPToUI) return V((uint64_t)d & maskW(to.w)); if (to.w == 32) return V((uint32_t)(int32_t)d); return V((uint64_t)(int64_t)d & maskW(to.w)); } }
  unsupported("cast"); }
static Val run(FI* f, Val* R, uint64_t stBase);
static Val callFI(FI* f, const Val* args, int n) {
  if (!f->ready) prep(f);
  if (f->idx < NFUN) S->fun[f->idx] = 1;
  if (callStack.size() > 20000) violationEnd("stack-overflow", "abort");
  Val* R = (Val*)malloc(sizeof(Val) * (f->nregs + 1)); uint64_t base = stTop;
  for (int i = 0; i < n && i < (int)f->f->arg_size(); i++) { R[i] = args[i]; if (f->byval[i]) { uint64_t p = (stTop + 31) & ~15ull; stTop = p + f->byval[i]; memset(sh(p), 1, f->byval[i]); memMove(p, args[i].u, f->byval[i]); R[i] = V(p); } }
  callStack.push_back(f); Val r = run(f, R, base); callStack.pop_back();
  if (stTop > base) { killCells(base, stTop - base); memset(sh(base), 0, stTop - base); stTop = base; }
  free(R); return r; }
static inline Val vecMap2(const TI& t, Val a, Val b, Val (*fn)(unsigned, Val, Val, const TI&), unsigned op) { Val* r = newAgg(t.n); TI et = tinfo(elemTy(t.t, 0)); Val *x = (Val*)a.u, *y = (Val*)b.u; for (unsigned i = 0; i < t.n; i++) r[i] = fn(op, x[i], y[i], et); return V((uint64_t)r); }
static Val run(FI* f, Val* R, uint64_t stBase) {
  int cur = 0, prev = -1; const Val* C = f->consts.data(); (void)stBase;
  auto O = [&](int o) -> Val { return o >= 0 ? R[o] : C[-o - 1]; };
  for (;;) {
    Blk& B = f->blk[cur];
    if (prev >= 0 && !B.phi.empty()) { auto it = B.phi.find(prev); if (it != B.phi.end()) { auto& ps = it->second; if (ps.size() == 1) R[ps[0].first] = O(ps[0].second); else { Val tmp[64]; vector<Val> big; Val* t = tmp; if (ps.size() > 64) { big.resize(ps.size()); t = big.data(); } for (size_t i = 0; i < ps.size(); i++) t[i] = O(ps[i].second); for (size_t i = 0; i < ps.size(); i++) R[ps[i].first] = t[i]; } } }
    myInstr += B.ins.size();
    if ((myInstr & 0xfff) < (long)B.ins.size()) { static long total = 0; static int owner = 0; (void)owner; total += 4096; checkDeadline(); if (total > opt.maxInstr) { S->hang++; if (!wit.empty() || gVars.empty()) emitCex("hang", "hang", anyModel(), nullptr); endPath(2); } }
    int next = -1;
    for (In& x : B.ins) {
      switch (x.op) {
        case Instruction::Br: if (!x.sub) next = x.b; else { Val c = O(x.a); bool t = c.e ? branch(toBool(c.e)) : (c.u & 1); next = t ? x.b : x.c; } break;
        case Instruction::Switch: { Val c = O(x.a); next = -1; if (c.e) { for (size_t i = 0; i < x.ops.size(); i++) if (branch(iCmp(IEQ, c.e, mkInt(x.c, x.aux[i])))) { next = x.ops[i]; break; } if (next < 0) next = x.b; } else { uint64_t v = c.u & maskW(x.c); for (size_t i = 0; i < x.ops.size(); i++) if ((uint64_t)x.aux[i] == v) { next = x.ops[i]; break; } if (next < 0) next = x.b; } break; }
        case Instruction::Ret: return x.sub ? O(x.a) : V(0);
        case Instruction::Unreachable: violationEnd("unreachable", "abort");
        case Instruction::Alloca: { uint64_t sz = conc(O(x.a)) * x.cst; uint64_t al = x.b; uint64_t p = (stTop + 32 + al - 1) & ~(al - 1); stTop = p + sz; if (stTop > stEnd) violationEnd("stack-overflow", "abort"); memset(sh(p), 1, sz); memset((void*)p, 0xFE, sz); R[x.dst] = V(p); break; }
        case Instruction::Load: { Val p = O(x.a); R[x.dst] = loadT(p.e ? enumInt(p.e) : p.u, x.ty); break; }
        case Instruction::Store: { Val p = O(x.b); storeT(p.e ? enumInt(p.e) : p.u, O(x.a), x.ty); break; }
        case Instruction::GetElementPtr: { Val p = O(x.a); if (!p.e) { uint64_t a = p.u + x.cst; bool sym = false; for (size_t i = 0; i < x.ops.size(); i++) { Val v = O(x.ops[i]); if (v.e) { sym = true; break; } a += sx(v.u & maskW(x.aux[2 * i + 1]), x.aux[2 * i + 1]) * x.aux[2 * i]; } if (!sym) { R[x.dst] = V(a); break; } }
          Expr* e = iBin(IADD, p.e ? p.e : mkInt(64, p.u), mkInt(64, x.cst)); for (size_t i = 0; i < x.ops.size(); i++) { Val v = O(x.ops[i]); e = iBin(IADD, e, iBin(IMUL, iSext(IE(v, x.aux[2 * i + 1]), 64), mkInt(64, x.aux[2 * i]))); } R[x.dst] = VE(e); break; }
        case Instruction::Call: {
          int n = x.ops.size(); Val tmp[24]; vector<Val> big; Val* a = tmp; if (n > 24) { big.resize(n); a = big.data(); } for (int i = 0; i < n; i++) a[i] = O(x.ops[i]);
          Val r = V(0);
          if (x.sub == 0) r = callFI(x.callee, a, n);
          else if (x.sub == 1) r = callExt(x, a, n, 0);
          else if (x.sub == 3) r = V(0);
          else { uint64_t p = conc(O(x.a)); if (p < 65536) memError("null-call", p, 0); auto it = fnByAddr.find(p); if (it != fnByAddr.end()) { if (it->second->name.find("ExceptionHandler5raise") != string::npos) { In y = x; y.extId = X_RAISE; r = callExt(y, a, n, 0); } else r = callFI(it->second, a, n); } else r = nativeCall(p, "indirect", cast<CallBase>(x.src)->getFunctionType(), cast<CallBase>(x.src), a, n); }
          if (x.dst >= 0) R[x.dst] = r; break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
          if (x.ty.k == T_VEC) R[x.dst] = vecMap2(x.ty, O(x.a), O(x.b), [](unsigned o, Val a, Val b, const TI& t) { return fbin(o, a, b, t.k); }, x.op);
          else if (x.op == Instruction::FRem) { Val t[2] = {O(x.a), O(x.b)}; R[x.dst] = mathX(X_FMOD, t, 2, x.ty.k, {x.ty.k, x.ty.k}); }
          else R[x.dst] = fbin(x.op, O(x.a), O(x.b), x.ty.k); break;
        case Instruction::FNeg: { auto neg = [](Val v, TK k) { if (v.e) return realV(rNeg(v.e), k); return V(k == T_FLT ? UF(-Fl(v.u)) : U(-D(v.u))); };
          if (x.ty.k == T_VEC) { TI et = tinfo(elemTy(x.ty.t, 0)); Val* r = newAgg(x.ty.n); Val* s = (Val*)O(x.a).u; for (unsigned i = 0; i < x.ty.n; i++) r[i] = neg(s[i], et.k); R[x.dst] = V((uint64_t)r); } else R[x.dst] = neg(O(x.a), x.ty.k); break; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
          if (x.ty.k == T_VEC) R[x.dst] = vecMap2(x.ty, O(x.a), O(x.b), [](unsigned o, Val a, Val b, const TI& t) { return ibin(o, a, b, t.w); }, x.op);
          else if (x.ty.k != T_INT) unsupported("wide integer"); else R[x.dst] = ibin(x.op, O(x.a), O(x.b), x.ty.w); break;
        case Instruction::ICmp: if (x.ty.k == T_VEC) { TI et = tinfo(elemTy(x.ty.t, 0)); Val* r = newAgg(x.ty.n); Val *p = (Val*)O(x.a).u, *q = (Val*)O(x.b).u; for (unsigned i = 0; i < x.ty.n; i++) r[i] = icmp(x.sub, p[i], q[i], et.w); R[x.dst] = V((uint64_t)r); } else R[x.dst] = icmp(x.sub, O(x.a), O(x.b), x.ty.w); break;
        case Instruction::FCmp: if (x.ty.k == T_VEC) { TI et = tinfo(elemTy(x.ty.t, 0)); Val* r = newAgg(x.ty.n); Val *p = (Val*)O(x.a).u, *q = (Val*)O(x.b).u; for (unsigned i = 0; i < x.ty.n; i++) r[i] = fcmp(x.sub, p[i], q[i], et.k); R[x.dst] = V((uint64_t)r); } else R[x.dst] = fcmp(x.sub, O(x.a), O(x.b), x.ty.k); break;
        case Instruction::Select: { Type* ct = x.src->getOperand(0)->getType(); if (ct->isVectorTy()) { TI et = tinfo(elemTy(x.ty.t, 0)); Val* r = newAgg(x.ty.n); Val *c = (Val*)O(x.a).u, *p = (Val*)O(x.b).u, *q = (Val*)O(x.c).u; for (unsigned i = 0; i < x.ty.n; i++) r[i] = selectV(c[i], p[i], q[i], et); R[x.dst] = V((uint64_t)r); } else R[x.dst] = selectV(O(x.a), O(x.b), O(x.c), x.ty); break; }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
          TI ft = tinfo(x.src->getOperand(0)->getType()); if (x.ty.k == T_VEC) { TI et = tinfo(elemTy(x.ty.t, 0)), ef = tinfo(elemTy(ft.t, 0)); Val* r = newAgg(x.ty.n); Val* s = (Val*)O(x.a).u; for (unsigned i = 0; i < x.ty.n; i++) r[i] = castV(x.op, s[i], ef, et); R[x.dst] = V((uint64_t)r); } else R[x.dst] = castV(x.op, O(x.a), ft, x.ty); break; }
        case Instruction::BitCast: { TI ft = tinfo(x.src->getOperand(0)->getType()); if ((ft.k == T_VEC) != (x.ty.k == T_VEC) || (ft.k == T_VEC && ft.n != x.ty.n)) { uint64_t p = (stTop + 63) & ~15ull; memset(sh(p), 1, 64); storeT(p, O(x.a), ft); R[x.dst] = loadT(p, x.ty); killCells(p, 64); memset(sh(p), 0, 64); } else R[x.dst] = O(x.a); break; }
        case Instruction::Freeze: R[x.dst] = O(x.a); break;
        case Instruction::ExtractValue: { Val v = O(x.a); for (auto k : x.aux) v = ((Val*)v.u)[k]; R[x.dst] = v; break; }
        case Instruction::InsertValue: { Val v = O(x.a); std::function<Val(Val, Type*, size_t)> ins = [&](Val o, Type* t, size_t d) -> Val { if (d == x.aux.size()) return O(x.b); TI ti = tinfo(t); Val* r = newAgg(ti.n); memcpy((void*)r, (void*)o.u, sizeof(Val) * ti.n); r[x.aux[d]] = ins(r[x.aux[d]], elemTy(t, x.aux[d]), d + 1); return V((uint64_t)r); }; R[x.dst] = ins(v, x.ty.t, 0); break; }
        case Instruction::ExtractElement: R[x.dst] = ((Val*)O(x.a).u)[conc(O(x.b))]; break;
        case Instruction::InsertElement: { Val* r = newAgg(x.ty.n); memcpy((void*)r, (void*)O(x.a).u, sizeof(Val) * x.ty.n); r[conc(O(x.c))] = O(x.b); R[x.dst] = V((uint64_t)r); break; }
        case Instruction::ShuffleVector: { Val* r = newAgg(x.ty.n); Val *p = (Val*)O(x.a).u, *q = (Val*)O(x.b).u; for (unsigned i = 0; i < x.ty.n; i++) { int64_t k = x.aux[i]; r[i] = k < 0 ? V(0) : k < x.c ? p[k] : q[k - x.c]; } R[x.dst] = V((uint64_t)r); break; }
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: { uint64_t p = conc(O(x.a)); Val o = loadT(p, x.ty), v = O(x.b); Val nw = o; switch (x.sub) { case AtomicRMWInst::Add: nw = ibin(Instruction::Add, o, v, x.ty.w); break; case AtomicRMWInst::Sub: nw = ibin(Instruction::Sub, o, v, x.ty.w); break; case AtomicRMWInst::Xchg: nw = v; break; default: unsupported("atomicrmw"); } storeT(p, nw, x.ty); R[x.dst] = o; break; }
        default: unsupported(string("instruction ") + x.src->getOpcodeName()); } }
    if (next < 0) unsupported("no terminator"); prev = cur; cur = next; } }

// ============================================================ driver
static void onSignal(int s) { static volatile int once = 0; if (once++) _exit(3); const char* n = s == SIGSEGV || s == SIGBUS ? "segv" : s == SIGABRT ? "abort-native" : "fpe"; note(string("signal ") + n + " at " + where()); violationEnd(n, "memory"); }
extern "C" __attribute__((visibility("default"))) void* gHostMalloc(size_t n) { return malloc(n); }
void operator delete(void* p) noexcept { if (inArena((uint64_t)p)) { auto it = heapSize.find((uint64_t)p); if (it != heapSize.end()) { killCells(it->first, it->second); memset(sh(it->first), 0, it->second); heapSize.erase(it); } return; } free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

static string jsonEsc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static void report(const char* harness, double t0) {
  FILE* f = fopen((opt.out + "/result.json").c_str(), "w"); if (!f) return;
  fprintf(f, "{\"harness\":\"%s\",\"arg\":\"%s\",\"wall\":%.3f,\"paths\":%ld,\"forks\":%ld,\"branches\":%ld,\"instrs\":%ld,\"truncated\":%ld,\"unsupported\":%ld,\"infeasible\":%ld,\"div0_excluded\":%ld,\"domain_excluded\":%ld,\"hang\":%ld,\"allowed_raise\":%ld,\"queries\":%ld,\"q_sat\":%ld,\"q_unsat\":%ld,\"q_unknown\":%ld,\"unknown_feasible\":%ld,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"cex\":%ld,\"traces\":%ld,", harness, opt.arg.c_str(), now() - t0, S->paths.load(), S->forks.load(), S->branches.load(), S->instrs.load(), S->truncated.load(), S->unsupported.load(), S->infeasible.load(), S->div0.load(), S->sqrtneg.load(), S->hang.load(), S->allowedRaise.load(), S->queries.load(), S->qsat.load(), S->qunsat.load(), S->qunk.load(), S->unkfeas.load(), S->qusec / 1e6, S->qmaxusec / 1e6, S->cex.load(), S->traces.load());
  fprintf(f, "\"labels\":["); bool first = true; for (int i = 0; i < NLAB; i++) if (S->lab[i].used == 2) { auto& l = S->lab[i]; fprintf(f, "%s{\"name\":\"%s\",\"kind\":%d,\"reached\":%ld,\"concrete\":%ld,\"identity\":%ld,\"interval\":%ld,\"smt\":%ld,\"cex\":%ld,\"unknown\":%ld}", first ? "" : ",", jsonEsc(l.name).c_str(), l.kind, l.reached.load(), l.concrete.load(), l.ident.load(), l.interval.load(), l.smt.load(), l.cex.load(), l.unknown.load()); first = false; }
  fprintf(f, "],\"functions\":["); first = true; for (auto& p : fis) if (p.second->idx < NFUN && S->fun[p.second->idx]) { fprintf(f, "%s\"%s\"", first ? "" : ",", jsonEsc(p.second->name).c_str()); first = false; }
  fprintf(f, "],\"messages\":["); for (int i = 0; i < S->nmsg; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jsonEsc(S->msg[i]).c_str()); fprintf(f, "]}\n"); fclose(f); }
static int realMain(int argc, char** argv) {
  vector<string> files; string entry = "gs_main";
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
    if (a == "-o") opt.out = nx(); else if (a == "-b") opt.bms = atoi(nx().c_str()); else if (a == "-j") opt.jobs = atoi(nx().c_str()); else if (a == "-t") opt.wall = atof(nx().c_str()); else if (a == "-q") opt.qms = atoi(nx().c_str()); else if (a == "-m") opt.maxInstr = atol(nx().c_str()) * 1000000; else if (a == "-traces") opt.maxTraces = atoi(nx().c_str()); else if (a == "-arg") opt.arg = nx(); else if (a == "-replay") opt.replay = nx(); else if (a == "-e") entry = nx(); else if (a == "-v") opt.verbose = true; else if (a == "-dump") gDumpQueries = true; else if (a == "-undef") entry = "?"; else if (a == "-seed") opt.seed = atoi(nx().c_str()); else files.push_back(a); }
  for (auto& fn : files) { SMDiagnostic err; auto m = parseIRFile(fn, err, Ctx); if (!m) { err.print("gsym", errs()); return 2; } m->setModuleIdentifier(fn); StripDebugInfo(*m); if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed %s\n", fn.c_str()); return 2; } }
  DL = &M->getDataLayout(); initExt();
  if (entry == "?") { // list undefined symbols that the process cannot supply
    for (auto& f : *M) if (f.isDeclaration() && !f.use_empty() && !f.isIntrinsic() && extOf(f.getName().str()) == X_NATIVE && !dlsym(RTLD_DEFAULT, f.getName().str().c_str())) printf("%s\n", f.getName().str().c_str());
    for (auto& g : M->globals()) if (g.isDeclaration() && !g.use_empty() && !dlsym(RTLD_DEFAULT, g.getName().str().c_str())) printf("%s\n", g.getName().str().c_str());
    return 0; }
  S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sem_init(&S->tok, 1, opt.jobs);
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST); pthread_mutex_init(&S->mx, &ma);
  double t0 = now(); S->deadline = t0 + opt.wall; S->live = 1; rng.seed(opt.seed); memInit();
  for (auto& f : *M) if (!f.isDeclaration()) getFI(&f);
  if (!opt.replay.empty()) { std::ifstream is(opt.replay); string line; while (std::getline(is, line)) { std::istringstream ls(line); string k, nm; ls >> k; if (k == "arg") { ls >> opt.arg; if (opt.arg == "-") opt.arg = ""; continue; } if (k != "r" && k != "i") continue; ls >> nm; Input in; in.kind = k[0]; in.name = nm; in.e = nullptr; in.d = 0; in.i = 0; string v; ls >> v; if (k == "r") in.d = strtod(v.c_str(), 0); else in.i = atol(v.c_str()); repIn.push_back(in); } }
  Function* mf = M->getFunction(entry); if (!mf || mf->isDeclaration()) { fprintf(stderr, "no %s\n", entry.c_str()); return 2; }
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    if (opt.replay.empty() && !opt.verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); }
    stack_t ss; ss.ss_sp = mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0);
    sem_wait(&S->tok); { Model m; for (int i = 0; i < 16; i++) wit.push_back(m); }
    if (auto* ctors = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(ctors->getInitializer())) { vector<std::pair<uint64_t, Function*>> v; for (auto& o : ca->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), fn}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& c : v) callFI(getFI(c.second), nullptr, 0); }
    callFI(getFI(mf), nullptr, 0);
    if (!opt.replay.empty()) for (auto& t : trace) printf("TRACE %s %s\n", t.lab.c_str(), fmt(t.e ? (double)t.e->iv : t.d).c_str());
    fflush(stdout); endPath(0); }
  // watch: hard stop some seconds after the deadline
  for (;;) { int st; pid_t w = waitpid(-1, &st, WNOHANG); if (w > 0) { if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st))) { S->truncated++; note("path process died, status " + std::to_string(st)); sem_post(&S->tok); } continue; } if (w < 0) break; if (now() > S->deadline + 12) { S->truncated++; note("hard stop"); kill(-p, SIGKILL); while (waitpid(-1, &st, 0) > 0) {} break; } usleep(2000); }
  report(entry.c_str(), t0);
  return 0; }
static int gArgc; static char** gArgv; static int gRet;
static void* thr(void*) { gRet = realMain(gArgc, gArgv); return nullptr; }
int main(int argc, char** argv) { gArgc = argc; gArgv = argv; rlimit rl{RLIM_INFINITY, RLIM_INFINITY}; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur < (1ull << 30) && !getenv("GSYM_STK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("GSYM_STK", "1", 1); execv("/proc/self/exe", argv); }
  gRet = realMain(argc, argv); return gRet; }
