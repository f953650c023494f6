#include "solver.h"
#include <z3++.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <poll.h>
#include <set>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using std::string; using std::vector;
bool gDumpQueries = false;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Enc {
  z3::context& c; z3::solver& s; std::unordered_map<uint32_t, z3::expr> memo; bool polyMode, linMode = false; Normalizer* nz; bool fail = false; bool hasBV = false;
  std::vector<std::pair<Expr*, z3::expr>> funs; std::unordered_map<uint32_t, z3::expr> atomMemo; int fresh = 0;
  Enc(z3::context& c_, z3::solver& s_, bool p, Normalizer* n) : c(c_), s(s_), polyMode(p), nz(n) {}
  z3::expr rv(const mpq_class& q) { return c.real_val(q.get_str().c_str()); }
  z3::expr freshR() { return c.real_const(("t!" + std::to_string(fresh++)).c_str()); }
  void bound(Expr* e, z3::expr v) {
    Ival i = gFacts.iv(e); auto put = [&](long double x, bool low) { if (!std::isfinite(x) || fabsl(x) > 1e30L) return; double d = (double)x; d = low ? std::nextafter(d, -INFINITY) : std::nextafter(d, INFINITY);
      if (x == 0) d = 0; mpq_class q(d); s.add(low ? v >= rv(q) : v <= rv(q)); };
    put(i.lo, true); put(i.hi, false); if (i.nz) { if (i.lo >= 0) s.add(v > 0); else if (i.hi <= 0) s.add(v < 0); else s.add(v != 0); } }
  z3::expr ipow(z3::expr v, unsigned n) { z3::expr r = v; for (unsigned i = 1; i < n; i++) r = r * v; return r; }
  std::map<string, z3::expr> monoMemo;
  template <class M> z3::expr mono(const M& m) { // a monomial as one opaque variable with interval bounds
    if (m.size() == 1 && m.begin()->second == 1) return atom(gExprById[m.begin()->first]);
    string key; Expr* e = nullptr; for (auto& x : m) { key += std::to_string(x.first) + "^" + std::to_string(x.second) + "*"; Expr* f = rPowI(gExprById[x.first], x.second); e = e ? rMul(e, f) : f; }
    auto it = monoMemo.find(key); if (it != monoMemo.end()) return it->second;
    z3::expr v = freshR(); bound(e, v); monoMemo.emplace(key, v); return v; }
  z3::expr poly(const Poly& p) {
    if (p.t.empty()) return c.real_val(0);
    z3::expr_vector sum(c);
    for (auto& t : p.t) { z3::expr_vector m(c); if (linMode && !t.first.empty()) { z3::expr x = mono(t.first); sum.push_back(t.second == 1 ? x : rv(t.second) * x); continue; } if (t.second != 1 || t.first.empty()) m.push_back(rv(t.second));
      for (auto& x : t.first) { z3::expr a = atom(gExprById[x.first]); for (int i = 0; i < x.second; i++) m.push_back(a); }
      if (m.size() == 1) sum.push_back(m[0]); else { z3::array<Z3_ast> arr(m); sum.push_back(z3::expr(c, Z3_mk_mul(c, arr.size(), arr.ptr()))); } }
    if (sum.size() == 1) return sum[0]; z3::array<Z3_ast> arr(sum); return z3::expr(c, Z3_mk_add(c, arr.size(), arr.ptr())); }
  z3::expr denP(const std::map<uint32_t, int>& den) { z3::expr r = c.real_val(1); bool f = true; for (auto& d : den) { z3::expr p = poly(denPoly(d.first)); for (int i = 0; i < d.second; i++) { r = f ? p : r * p; f = false; } } return r; }
  // value of an atom (variable, root, function, ite) in poly mode
  z3::expr atom(Expr* e) {
    auto it = atomMemo.find(e->id); if (it != atomMemo.end()) return it->second;
    z3::expr v = c.real_val(0);
    if (e->op == RVAR) v = c.real_const(("v" + std::to_string(e->iv)).c_str());
    else if (e->op == RROOT) { v = freshR(); atomMemo.emplace(e->id, v); s.add(v >= 0); const RatFn& a = nz->nf(e->k[0]); if (!a.ok) { fail = true; return v; }
      if (!linMode) s.add(ipow(v, e->iv) * denP(a.den) == poly(a.num)); bound(e, v); return v; }
    else if (e->op == RFUN) { v = freshR(); atomMemo.emplace(e->id, v); funs.push_back({e, v}); bound(e, v); return v; }
    else { v = tr(e); }
    atomMemo.emplace(e->id, v); return v; }
  z3::expr real(Expr* e) { // poly-mode translation of a real-sorted term to a fresh quotient
    const RatFn& a = nz->nf(e); if (!a.ok) { fail = true; return c.real_val(0); }
    if (a.den.empty()) return poly(a.num);
    z3::expr v = freshR(); s.add(v * denP(a.den) == poly(a.num)); return v; }
  z3::expr cmp(Expr* e) {
    if (!polyMode) { z3::expr a = tr(e->k[0]), b = tr(e->k[1]); return e->op == RLT ? a < b : e->op == RLE ? a <= b : a == b; }
    Expr* d = rSub(e->k[0], e->k[1]); nz->budget = 400000; const RatFn r = nz->nf(d);
    if (!r.ok || r.num.t.size() > 400) { fail = true; return c.bool_val(true); }
    z3::expr n = poly(r.num);
    if (e->op == REQ) return n == 0;
    // sign of the denominator
    int sg = 1; vector<uint32_t> odd;
    for (auto& q : r.den) { if (q.second % 2 == 0) continue; const Poly& p = denPoly(q.first); Expr* pe = mkReal(0);
      for (auto& t : p.t) { Expr* m = mkReal(t.second); for (auto& x : t.first) m = rMul(m, rPowI(gExprById[x.first], x.second)); pe = rAdd(pe, m); }
      Ival i = gFacts.iv(pe); if (i.lo >= 0) ; else if (i.hi <= 0) sg = -sg; else odd.push_back(q.first); }
    if (linMode && !odd.empty()) return c.bool_const(("o!" + std::to_string(fresh++)).c_str());
    for (auto o : odd) n = n * poly(denPoly(o));
    if (e->op == RLT) return sg > 0 ? n < 0 : n > 0;
    return sg > 0 ? n <= 0 : n >= 0; }
  z3::expr bvOf(z3::expr b) { return b; }
  z3::expr tr(Expr* e0) {
    { auto it = memo.find(e0->id); if (it != memo.end()) return it->second; }
    vector<Expr*> st{e0};
    while (!st.empty()) {
      Expr* e = st.back(); if (memo.count(e->id)) { st.pop_back(); continue; }
      bool isCmp = e->op == RLT || e->op == RLE || e->op == REQ; bool poly = polyMode && (isCmp);
      bool rdy = true; vector<z3::expr> k;
      if (!poly) for (int i = 0; i < e->nk; i++) { auto f = memo.find(e->k[i]->id); if (f == memo.end()) { st.push_back(e->k[i]); rdy = false; } else k.push_back(f->second); }
      if (!rdy) continue; st.pop_back();
      z3::expr v = c.bool_val(true);
      switch (e->op) {
        case RCONST: v = rv(*e->q); break;
        case RVAR: v = c.real_const(("v" + std::to_string(e->iv)).c_str()); break;
        case RADD: v = k[0] + k[1]; break; case RSUB: v = k[0] - k[1]; break; case RMUL: if (linMode && e->k[0]->op != RCONST && e->k[1]->op != RCONST) { v = freshR(); bound(e, v); } else v = k[0] * k[1]; break; case RNEG: v = -k[0]; break;
        case RDIV: v = freshR(); if (!linMode || e->k[1]->op == RCONST) s.add(v * k[1] == k[0]); bound(e, v); break;
        case RROOT: v = freshR(); s.add(v >= 0); if (!linMode) s.add(ipow(v, e->iv) == k[0]); bound(e, v); break;
        case RFUN: v = freshR(); funs.push_back({e, v}); bound(e, v); break;
        case RITE: v = z3::ite(k[0], k[1], k[2]); break;
        case RFROMBV: { hasBV = true; unsigned w = e->k[0]->sort; int lo = 0, hi = w; bool sg = e->iv;
          if (e->k[0]->op == IVAR) { auto& vi = gVars[e->k[0]->iv]; double m = std::max(fabs(vi.lo), fabs(vi.hi)); hi = std::min<int>(w, (int)std::ceil(std::log2(m + 2)) + 1); if (vi.lo >= 0) sg = false; }
          v = c.real_val(0); mpz_class p = 1; for (int b = lo; b < hi; b++) { z3::expr bit = k[0].extract(b, b) == c.bv_val(1, 1); mpz_class t = (sg && b == hi - 1) ? mpz_class(-p) : p; v = v + z3::ite(bit, rv(mpq_class(t)), c.real_val(0)); p *= 2; } break; }
        case BCONST: v = c.bool_val(e->iv != 0); break; case BVAR: v = c.bool_const(("v" + std::to_string(e->iv)).c_str()); break;
        case BNOT: v = !k[0]; break; case BAND: v = k[0] && k[1]; break; case BOR: v = k[0] || k[1]; break;
        case RLT: case RLE: case REQ: v = cmp(e); break;
        case IEQ: v = k[0] == k[1]; break; case IULT: v = z3::ult(k[0], k[1]); break; case IULE: v = z3::ule(k[0], k[1]); break;
        case ISLT: v = k[0] < k[1]; break; case ISLE: v = k[0] <= k[1]; break;
        case ICONST: v = c.bv_val((uint64_t)e->iv, e->sort); break;
        case IVAR: hasBV = true; v = c.bv_const(("v" + std::to_string(e->iv)).c_str(), e->sort); break;
        case IADD: v = k[0] + k[1]; break; case ISUB: v = k[0] - k[1]; break; case IMUL: v = k[0] * k[1]; break;
        case IUDIV: v = z3::udiv(k[0], k[1]); break; case ISDIV: v = k[0] / k[1]; break; case IUREM: v = z3::urem(k[0], k[1]); break; case ISREM: v = z3::srem(k[0], k[1]); break;
        case IAND: v = k[0] & k[1]; break; case IOR: v = k[0] | k[1]; break; case IXOR: v = k[0] ^ k[1]; break;
        case ISHL: v = z3::shl(k[0], k[1]); break; case ILSHR: v = z3::lshr(k[0], k[1]); break; case IASHR: v = z3::ashr(k[0], k[1]); break;
        case IZEXT: v = z3::zext(k[0], e->sort - e->k[0]->sort); break; case ISEXT: v = z3::sext(k[0], e->sort - e->k[0]->sort); break;
        case IEXTRACT: v = k[0].extract(e->iv + e->sort - 1, e->iv); break; case ICONCAT: v = z3::concat(k[0], k[1]); break;
        case IITE: v = z3::ite(k[0], k[1], k[2]); break; }
      memo.emplace(e->id, v); }
    return memo.at(e0->id); }
  void axioms() {
    for (size_t i = 0; i < funs.size() && i < 60; i++) { Expr* e = funs[i].first; z3::expr v = funs[i].second; Fn f = (Fn)e->iv;
      if (e->nk == 0) continue; z3::expr a = polyMode ? real(e->k[0]) : tr(e->k[0]);
      if (f == F_EXP) { s.add(v > 0); s.add(v >= 1 + a); s.add(z3::implies(a < 0, v < 1)); s.add(z3::implies(a > 0, v > 1)); }
      if (f == F_LOG) { s.add(v <= a - 1); s.add(z3::implies(a < 1, v < 0)); s.add(z3::implies(a > 1, v > 0)); s.add(z3::implies(a == 1, v == 0)); }
      if (f == F_POW) { s.add(v > 0); z3::expr b = polyMode ? real(e->k[1]) : tr(e->k[1]); s.add(z3::implies(a > 1 && b > 0, v > 1)); s.add(z3::implies(a < 1 && b > 0, v < 1)); s.add(z3::implies(a > 1 && b < 0, v < 1)); s.add(z3::implies(a < 1 && b < 0, v > 1)); s.add(z3::implies(a == 1 || b == 0, v == 1)); }
      if (f == F_TANH || f == F_ATAN || f == F_SINH || f == F_ERF) { s.add(z3::implies(a > 0, v > 0)); s.add(z3::implies(a < 0, v < 0)); s.add(z3::implies(a == 0, v == 0)); }
      for (size_t j = 0; j < i; j++) { Expr* g = funs[j].first; if (g->iv != e->iv && !((f == F_SIN && g->iv == F_COS) || (f == F_COS && g->iv == F_SIN))) continue; if (g->nk == 0) continue;
        if (g->iv != e->iv) { if (g->k[0] == e->k[0]) s.add(v * v + funs[j].second * funs[j].second == 1); continue; }
        z3::expr a2 = polyMode ? real(g->k[0]) : tr(g->k[0]); z3::expr v2 = funs[j].second;
        if (f == F_EXP || f == F_LOG || f == F_TANH || f == F_ATAN || f == F_ERF || f == F_SINH) { s.add(z3::implies(a < a2, v < v2)); s.add(z3::implies(a > a2, v > v2)); s.add(z3::implies(a == a2, v == v2)); }
        else if (e->nk == 1) s.add(z3::implies(a == a2, v == v2));
        else if (e->k[1] == g->k[1]) { s.add(z3::implies(a == a2, v == v2)); Ival i2 = gFacts.iv(e->k[1]); if (f == F_POW && i2.lo > 0) { s.add(z3::implies(a < a2, v < v2)); s.add(z3::implies(a > a2, v > v2)); } if (f == F_POW && i2.hi < 0) { s.add(z3::implies(a < a2, v > v2)); s.add(z3::implies(a > a2, v < v2)); } } } } }
};

static long double ratToLD(const string& s0) { // "p/q", "(/ p q)", "(- ..)", decimals with ?
  string s; for (char ch : s0) if (ch != '(' && ch != ')' && ch != '?') s += ch;
  bool neg = false; size_t i = 0; string t; for (; i < s.size(); i++) { if (s[i] == '-') neg = !neg; else if (s[i] == '/' && t.empty()) {} else t += s[i]; }
  size_t b = t.find_first_not_of(' '); if (b == string::npos) return 0; t = t.substr(b);
  long double v; size_t sl = t.find_first_of("/ "); if (sl != string::npos) { mpq_class q(mpz_class(t.substr(0, sl).substr(0, t.substr(0, sl).find('.'))), mpz_class(1));
      string d = t.substr(t.find_last_of("/ ") + 1); long double x = strtold(t.substr(0, sl).c_str(), 0), y = strtold(d.c_str(), 0); v = x / y; }
  else v = strtold(t.c_str(), 0);
  return neg ? -v : v; }

static char attempt(const vector<Expr*>& conj, int mode, int timeoutMs, const vector<uint32_t>& vars, vector<Val1>& vals) {
  try {
    z3::context c; bool polyMode = mode == 0, lin = mode < 0;
    auto build = [&](z3::solver& s, Enc& en) { for (Expr* e : conj) { s.add(en.tr(e)); if (en.fail) return false; } if (!lin) en.axioms(); return !en.fail; };
    Normalizer nz; z3::solver s0(c); Enc en(c, s0, polyMode, &nz); en.linMode = lin;
    if (mode == 0) { z3::solver sl(c, "QF_LRA"); Enc el(c, sl, true, &nz); el.linMode = true; bool ok = true; for (Expr* e : conj) { sl.add(el.tr(e)); if (el.fail) { ok = false; break; } }
      if (ok && !el.hasBV) { z3::params p(c); p.set("timeout", 300u); sl.set(p); if (sl.check() == z3::unsat) return 'n'; } }
    if (!build(s0, en)) return 'u';
    if (gDumpQueries) fprintf(stderr, "%s\n", s0.to_smt2().c_str());
    z3::check_result r = z3::unknown; z3::model m(c); 
    auto tryS = [&](z3::solver& s, int ms) { z3::params p(c); p.set("timeout", (unsigned)ms); s.set(p); r = s.check(); if (r == z3::sat) m = s.get_model(); };
    if (lin) { if (en.hasBV) tryS(s0, timeoutMs); else { z3::solver s1(c, "QF_LRA"); for (auto a : s0.assertions()) s1.add(a); tryS(s1, timeoutMs); } return r == z3::unsat ? 'n' : 'u'; }
    if (en.hasBV) { tryS(s0, timeoutMs); }
    else {
      z3::solver s1 = z3::tactic(c, "qfnra-nlsat").mk_solver(); for (auto a : s0.assertions()) s1.add(a);
      tryS(s1, polyMode ? timeoutMs : timeoutMs / 2);
      if (r == z3::unknown && !polyMode) { z3::solver s2(c, "QF_NRA"); for (auto a : s0.assertions()) s2.add(a); tryS(s2, timeoutMs / 2); } }
    if (r == z3::unsat) return 'n';
    if (r != z3::sat) return 'u';
    bool fr = true;
    for (size_t i = 0; i < vars.size(); i++) { auto& vi = gVars[vars[i]]; string nm = "v" + std::to_string(vars[i]); vals[i] = {0, 0};
      if (vi.sort == S_REAL) { z3::expr x = m.eval(c.real_const(nm.c_str()), true); string str = x.is_algebraic() || x.is_numeral() ? x.get_decimal_string(25) : "0"; if (x.is_numeral()) { string ns = Z3_get_numeral_string(c, x); try { mpq_class q(ns); q.canonicalize(); str.clear(); vals[i].r = 0; Expr* e = mkReal(q); Model mm; Evaluator ev(mm); vals[i].r = ev.r(e); } catch (...) {} } if (!str.empty()) vals[i].r = ratToLD(str); }
      else if (vi.sort == S_BOOL) vals[i].i = m.eval(c.bool_const(nm.c_str()), true).is_true();
      else { z3::expr x = m.eval(c.bv_const(nm.c_str(), vi.sort), true); uint64_t u = 0; x.is_numeral_u64(u); vals[i].i = u; } }
    (void)fr; return 's';
  } catch (z3::exception& e) { if (getenv("GSYM_DEBUG")) fprintf(stderr, "z3: %s\n", e.msg()); return 'u'; } catch (...) { return 'u'; } }

Res smtQuery(const vector<Expr*>& conj, Model* out, int timeoutMs, QStats* st) {
  for (Expr* e : conj) if (e->op == BCONST && !e->iv) return R_UNSAT;
  std::set<uint32_t> vs; size_t sz = 0; bool anyReal = false; for (Expr* e : conj) { for (auto v : varsOf(e)) { vs.insert(v); if (gVars[v].sort == S_REAL) anyReal = true; } sz += dagSize(e); }
  vector<uint32_t> vars(vs.begin(), vs.end()); vector<Val1> vals(vars.size());
  double t0 = now(); char ans = 'u';
  for (int mode = -1; mode < 2 && ans == 'u'; mode++) { // -1: linear abstraction (products, quotients, roots opaque), can only refute
    bool polyMode = mode == 0; if (mode < 0 && (!anyReal || sz > 20000)) continue; if (polyMode && (!anyReal || sz > 4000)) continue;
    int fd[2]; if (pipe(fd)) break; int tmo = mode < 0 ? 250 : polyMode ? std::max(200, timeoutMs / 2) : timeoutMs; if (mode > 0 && sz > 30000) break;
    pid_t p = fork();
    if (p == 0) { close(fd[0]); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); freopen("/dev/null", "w", stdout);
      char a = attempt(conj, mode, tmo, vars, vals); ssize_t w = write(fd[1], &a, 1); if (a == 's') w = write(fd[1], vals.data(), vals.size() * sizeof(Val1)); (void)w; _exit(0); }
    close(fd[1]); if (p < 0) { close(fd[0]); break; }
    pollfd pf{fd[0], POLLIN, 0}; int limit = tmo + 1500; char a = 'u';
    if (poll(&pf, 1, limit) > 0 && read(fd[0], &a, 1) == 1) { ans = a;
      if (a == 's') { size_t need = vals.size() * sizeof(Val1), got = 0; while (got < need) { ssize_t n = read(fd[0], (char*)vals.data() + got, need - got); if (n <= 0) { ans = 'u'; break; } got += n; } } }
    kill(p, SIGKILL); int ws; waitpid(p, &ws, 0); close(fd[0]); }

  double dt = now() - t0;
  if (st) { st->queries++; st->secs += dt; if (dt > st->maxsecs) st->maxsecs = dt; if (ans == 's') st->sat++; else if (ans == 'n') st->unsat++; else st->unknown++; }
  if (ans == 's' && out) for (size_t i = 0; i < vars.size(); i++) (*out)[vars[i]] = vals[i];
  return ans == 's' ? R_SAT : ans == 'n' ? R_UNSAT : R_UNKNOWN; }
