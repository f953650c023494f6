#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
using std::string; using std::vector;

const char* fnName[] = {"exp", "log", "sin", "cos", "tan", "atan", "atan2", "pow", "tanh", "erf", "erfc", "acos", "asin",
                        "pi", "sinh", "cosh", "atanh"};
vector<VarInfo> gVars; vector<Expr*> gVarExpr, gExprById; Facts gFacts;

// ------------------------------------------------------------------ interning
struct Key { uint16_t op, sort; uint32_t k[3]; uint64_t iv; const mpq_class* q;
  bool operator==(const Key& o) const { return op == o.op && sort == o.sort && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2] && iv == o.iv && q == o.q; } };
struct KeyH { size_t operator()(const Key& x) const {
  uint64_t h = x.op * 0x9E3779B97F4A7C15ull ^ x.sort; for (int i = 0; i < 3; i++) h = (h ^ x.k[i]) * 0xff51afd7ed558ccdull, h ^= h >> 29;
  h ^= x.iv * 0xc4ceb9fe1a85ec53ull; h ^= (uint64_t)x.q >> 3; h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); } };
static std::unordered_map<Key, Expr*, KeyH>& tab() { static std::unordered_map<Key, Expr*, KeyH> t; return t; }
static std::map<mpq_class, const mpq_class*>& qtab() { static std::map<mpq_class, const mpq_class*> t; return t; }
static const mpq_class* internQ(const mpq_class& q) {
  auto& t = qtab(); auto it = t.find(q); if (it != t.end()) return it->second;
  auto* p = new mpq_class(q); t[q] = p; return p; }
static Expr* mk(uint16_t op, uint16_t sort, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, uint64_t iv = 0, const mpq_class* q = nullptr) {
  Key k{op, sort, {a ? a->id + 1 : 0, b ? b->id + 1 : 0, c ? c->id + 1 : 0}, iv, q};
  auto& t = tab(); auto it = t.find(k); if (it != t.end()) return it->second;
  Expr* e = new Expr; e->op = op; e->sort = sort; e->id = gExprById.size(); e->k[0] = a; e->k[1] = b; e->k[2] = c;
  e->nk = c ? 3 : b ? 2 : a ? 1 : 0; e->iv = iv; e->q = q; gExprById.push_back(e); t[k] = e; return e; }

Expr* mkReal(const mpq_class& q) { return mk(RCONST, S_REAL, 0, 0, 0, 0, internQ(q)); }
Expr* mkPi() { return mk(RFUN, S_REAL, 0, 0, 0, F_PI); }
Expr* mkVar(uint16_t sort, const string& name, double lo, double hi) {
  uint64_t idx = gVars.size(); gVars.push_back({name, sort, lo, hi});
  Expr* e = mk(sort == S_REAL ? RVAR : sort == S_BOOL ? BVAR : IVAR, sort, 0, 0, 0, idx); gVarExpr.push_back(e); return e; }

static bool cfrac(long double x, long double relTol, mpq_class& out, double maxProd, double maxQ) {
  long double a = fabsl(x), v = a; mpz_class p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  for (int i = 0; i < 30; i++) {
    long double f = floorl(v); if (f > 1e12L) return false;
    mpz_class fi((double)f); mpz_class p2 = fi * p1 + p0, q2 = fi * q1 + q0; p0 = p1; q0 = q1; p1 = p2; q1 = q2;
    double pd = p1.get_d(), qd = q1.get_d(); if (qd > maxQ || pd * qd > maxProd) return false;
    if (qd > 0 && fabsl((long double)pd / qd - a) <= relTol * a) { out = mpq_class(p1, q1); if (x < 0) out = -out; return true; }
    long double fr = v - f; if (fr < 1e-18L) return false; v = 1 / fr; }
  return false; }
Expr* mkRealD(double d) {
  static std::unordered_map<uint64_t, Expr*> cache; uint64_t bits; memcpy(&bits, &d, 8);
  auto it = cache.find(bits); if (it != cache.end()) return it->second;
  Expr* r = nullptr;
  if (d == 0) r = mkReal(0);
  else if (!std::isfinite(d)) r = mkReal(mpq_class(d > 0 ? "1" + string(400, '0') : "-1" + string(400, '0')));
  else {
    mpq_class q(d);
    size_t nb = mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2);
    if (nb <= 40) r = mkReal(q);
    else {
      for (int dg = 1; dg <= 10 && !r; dg++) { char buf[64]; snprintf(buf, sizeof buf, "%.*e", dg - 1, d); double back = strtod(buf, 0);
        if (fabs(back - d) <= 4e-16 * fabs(d)) {
          string s = buf; size_t epos = s.find('e'); string man = s.substr(0, epos); int ex = atoi(s.c_str() + epos + 1);
          bool neg = man[0] == '-'; string digs; int fracd = 0; bool dot = false;
          for (char c : man) { if (c == '.') dot = true; else if (isdigit(c)) { digs += c; if (dot) fracd++; } }
          ex -= fracd; mpz_class p(digs, 10), t; mpz_ui_pow_ui(t.get_mpz_t(), 10, abs(ex));
          mpq_class v = ex >= 0 ? mpq_class(p * t) : mpq_class(p, t); v.canonicalize(); if (neg) v = -v; r = mkReal(v); } }
      mpq_class o;
      if (!r && cfrac(d, 4e-16L, o, 1e9, 1e6)) r = mkReal(o);
      if (!r) { static const long double PI = 3.141592653589793238462643383279502884L;
        for (int k = 1; k <= 6 && !r; k++) for (int sg = -1; sg <= 1 && !r; sg += 2) {
          long double f = powl(PI, 0.5L * k * sg);
          if (cfrac(d / f, 4e-16L, o, 1e7, 1e5) || cfrac(d / f, 4e-15L, o, 1e4, 1e2)) { // second: the code's own 15-digit pi
            Expr* base = (k % 2) ? mk(RROOT, S_REAL, mkPi(), 0, 0, 2) : nullptr; Expr* pw = base;
            for (int i = 0; i < k / 2; i++) pw = pw ? mk(RMUL, S_REAL, pw, mkPi()) : mkPi();
            r = sg > 0 ? rMul(mkReal(o), pw) : rDiv(mkReal(o), pw); } }
        for (int s = 2; s <= 11 && !r; s++) { if (s == 4 || s == 8 || s == 9) continue;
          if (cfrac(d / sqrtl((long double)s), 4e-16L, o, 1e6, 1e4)) r = rMul(mkReal(o), mk(RROOT, S_REAL, mkReal(s), 0, 0, 2)); } }
      if (!r) r = mkReal(q); } }
  cache[bits] = r; return r; }

// ------------------------------------------------------------------ reals
static inline bool isC(Expr* e, long v) { return e->op == RCONST && *e->q == v; }
Expr* rNeg(Expr* a) {
  if (a->op == RCONST) return mkReal(-*a->q);
  if (a->op == RNEG) return a->k[0];
  if (a->op == RSUB) return mk(RSUB, S_REAL, a->k[1], a->k[0]);
  if (a->op == RMUL && a->k[0]->op == RCONST) return rMul(mkReal(-*a->k[0]->q), a->k[1]);
  return mk(RNEG, S_REAL, a); }
// regularising constants (1e-20 and the like) added to a symbolic term are dropped: a documented approximation
static bool isTiny(Expr* e) { if (e->op != RCONST) return false; double d = e->q->get_d(); return d <= 1e-17 && d >= -1e-17; }
Expr* rAdd(Expr* a, Expr* b) {
  if (a->op == RCONST && b->op == RCONST) return mkReal(*a->q + *b->q);
  if (isC(a, 0) || isTiny(a)) return b; if (isC(b, 0) || isTiny(b)) return a;
  if (a == b) return rMul(mkReal(2), a);
  if (b->op == RNEG) return rSub(a, b->k[0]);
  if (a->op == RNEG) return rSub(b, a->k[0]);
  if (a->id > b->id) std::swap(a, b);
  return mk(RADD, S_REAL, a, b); }
Expr* rSub(Expr* a, Expr* b) {
  if (a == b) return mkReal(0);
  if (a->op == RCONST && b->op == RCONST) return mkReal(*a->q - *b->q);
  if (isC(b, 0) || isTiny(b)) return a; if (isC(a, 0)) return rNeg(b);
  if (b->op == RNEG) return rAdd(a, b->k[0]);
  auto other = [](Expr* s, Expr* x) -> Expr* { return s->op != RADD ? nullptr : s->k[0] == x ? s->k[1] : s->k[1] == x ? s->k[0] : nullptr; };
  if (Expr* o = other(a, b)) return o; if (Expr* o = other(b, a)) return rNeg(o);
  if (a->op == RADD && b->op == RADD) for (int i = 0; i < 2; i++) if (Expr* o = other(a, b->k[i])) return rSub(o, b->k[1 - i]);
  if (a->op == RSUB && a->k[0] == b) return rNeg(a->k[1]); if (b->op == RSUB && b->k[0] == a) return b->k[1];
  return mk(RSUB, S_REAL, a, b); }
Expr* rMul(Expr* a, Expr* b) {
  if (a->op == RCONST && b->op == RCONST) return mkReal(*a->q * *b->q);
  if (b->op == RCONST) std::swap(a, b);
  if (isC(a, 0)) return a; if (isC(a, 1)) return b; if (isC(a, -1)) return rNeg(b);
  if (a->op == RCONST && b->op == RMUL && b->k[0]->op == RCONST) return rMul(mkReal(*a->q * *b->k[0]->q), b->k[1]);
  if (a->op == RCONST && b->op == RNEG) return rMul(mkReal(-*a->q), b->k[0]);
  if (a == b && a->op == RROOT && a->iv == 2) return a->k[0];
  if (a->op != RCONST && a->id > b->id) std::swap(a, b);
  return mk(RMUL, S_REAL, a, b); }
Expr* rDiv(Expr* a, Expr* b) {
  if (b->op == RCONST && *b->q != 0) return rMul(mkReal(1 / *b->q), a);
  if (isC(a, 0)) return a;
  if (a == b) return mkReal(1);
  return mk(RDIV, S_REAL, a, b); }
static bool perfectRoot(const mpq_class& q, unsigned n, mpq_class& r) {
  if (q < 0) return false; mpz_class a, b;
  if (!mpz_root(a.get_mpz_t(), q.get_num_mpz_t(), n)) return false;
  if (!mpz_root(b.get_mpz_t(), q.get_den_mpz_t(), n)) return false;
  r = mpq_class(a, b); return true; }
Expr* rRoot(Expr* a, unsigned n) {
  if (n == 1) return a; mpq_class r;
  if (a->op == RCONST && perfectRoot(*a->q, n, r)) return mkReal(r);
  if (a->op == RMUL && a->k[0] == a->k[1] && n == 2) {
    Ival v = gFacts.iv(a->k[0]); if (v.lo >= 0) return a->k[0]; if (v.hi <= 0) return rNeg(a->k[0]); }
  if (a->op == RMUL && a->k[0]->op == RCONST && *a->k[0]->q > 0 && perfectRoot(*a->k[0]->q, n, r)) return rMul(mkReal(r), rRoot(a->k[1], n));
  if (a->op == RDIV && a->k[0]->op == RCONST && *a->k[0]->q > 0) return rDiv(rRoot(a->k[0], n), rRoot(a->k[1], n));
  return mk(RROOT, S_REAL, a, 0, 0, n); }
Expr* rFun(Fn f, Expr* a, Expr* b) {
  if (a && a->op == RCONST) {
    if (f == F_EXP && *a->q == 0) return mkReal(1);
    if (f == F_LOG && *a->q == 1) return mkReal(0);
    if (f == F_LOG && *a->q > 0) { int e2 = 0; mpq_class m = *a->q; while (m >= 2) { m /= 2; e2++; } while (m < 1) { m *= 2; e2--; } // within 1e-18 of the true value
      static const mpq_class ln2("69314718055994530941723212145817656808/100000000000000000000000000000000000000"); if (m == 1) return mkReal(mpq_class(ln2 * e2)); double hi = m.get_d(); mpq_class lo = m - mpq_class(hi); long double l = logl((long double)hi + (long double)lo.get_d()); double l1 = (double)l, l2 = (double)(l - l1); return mkReal(mpq_class(ln2 * e2 + mpq_class(l1) + mpq_class(l2))); }
    if ((f == F_SIN || f == F_TAN || f == F_ATAN || f == F_TANH || f == F_ERF || f == F_SINH || f == F_ATANH || f == F_ASIN) && *a->q == 0) return mkReal(0);
    if ((f == F_COS || f == F_COSH || f == F_ERFC) && *a->q == 0) return mkReal(1); }
  if (f == F_EXP && a->op == RFUN && a->iv == F_LOG) return a->k[0];
  if (f == F_LOG && a->op == RFUN && a->iv == F_EXP) return a->k[0];
  if (f == F_LOG && (a->op == RMUL || a->op == RDIV)) { // log of a product containing exponentials
    std::map<Expr*, int> fs; bool hasexp = false; std::function<void(Expr*, int)> fl = [&](Expr* x, int e) { if (x->op == RMUL) { fl(x->k[0], e); fl(x->k[1], e); } else if (x->op == RDIV) { fl(x->k[0], e); fl(x->k[1], -e); } else { fs[x] += e; if (x->op == RFUN && x->iv == F_EXP) hasexp = true; } };
    fl(a, 1);
    if (hasexp) { Expr *sum = mkReal(0), *rest = mkReal(1), *den = mkReal(1); vector<std::pair<Expr*, int>> v(fs.begin(), fs.end()); std::sort(v.begin(), v.end(), [](auto& p, auto& q) { return p.first->id < q.first->id; });
      for (auto& pr : v) { if (pr.first->op == RFUN && pr.first->iv == F_EXP) sum = rAdd(sum, rMul(mkReal(pr.second), pr.first->k[0])); else for (int i = 0; i < std::abs(pr.second); i++) { if (pr.second > 0) rest = rMul(rest, pr.first); else den = rMul(den, pr.first); } }
      return rAdd(sum, rFun(F_LOG, rDiv(rest, den))); } }
  if (a && a->op == RFUN && (f == F_COS || f == F_SIN)) {
    bool c = f == F_COS; Expr* x = a->k[0];
    if (a->iv == F_ATAN2) { Expr* h = rRoot(rAdd(rMul(a->k[0], a->k[0]), rMul(a->k[1], a->k[1])), 2); return rDiv(c ? a->k[1] : a->k[0], h); }
    if (a->iv == F_ATAN) { Expr* h = rRoot(rAdd(mkReal(1), rMul(x, x)), 2); return rDiv(c ? mkReal(1) : x, h); }
    if ((a->iv == F_ACOS && c) || (a->iv == F_ASIN && !c)) return x;
    if (a->iv == F_ACOS || a->iv == F_ASIN) return rRoot(rSub(mkReal(1), rMul(x, x)), 2); }
  return mk(RFUN, S_REAL, a, b, 0, f); }
Expr* rPowI(Expr* a, int n) {
  if (n < 0) return rDiv(mkReal(1), rPowI(a, -n));
  if (n == 0) return mkReal(1);
  if (n == 1) return a; Expr* h = rPowI(a, n / 2); Expr* s = rMul(h, h); return n % 2 ? rMul(s, a) : s; }
Expr* rIte(Expr* c, Expr* a, Expr* b) {
  if (c->op == BCONST) return c->iv ? a : b; if (a == b) return a;
  if (c->op == BNOT) return rIte(c->k[0], b, a);
  return mk(RITE, S_REAL, c, a, b); }
Expr* rAbs(Expr* a) {
  if (a->op == RCONST) return mkReal(abs(*a->q));
  Ival v = gFacts.iv(a); if (v.lo >= 0) return a; if (v.hi <= 0) return rNeg(a);
  return mk(RROOT, S_REAL, mk(RMUL, S_REAL, a, a), 0, 0, 2); }
Expr* rFromBV(Expr* e, bool sgn) {
  if (e->op == ICONST) return mkReal(sgn ? mpq_class((long)sx(e->iv, e->sort)) : mpq_class((unsigned long)e->iv));
  return mk(RFROMBV, S_REAL, e, 0, 0, sgn); }

// ------------------------------------------------------------------ booleans
Expr* mkBool(bool b) { return mk(BCONST, S_BOOL, 0, 0, 0, b); }
// c1*P*exp(x) against c2*P*exp(y) with P > 0 and c1, c2 > 0: compare x - y with log(c2/c1)
static bool stripExp(Expr*& a, Expr*& b) {
  if (a->op == RCONST && b->op == RCONST) return false;
  struct M { mpq_class c = 1; std::map<Expr*, int> o; Expr* e = mkReal(0); bool exp = false, ok = true; int n = 0; };
  std::function<void(Expr*, int, M&)> fl = [&](Expr* x, int s, M& m) { if (++m.n > 24) { m.ok = false; return; } if (x->op == RMUL) { fl(x->k[0], s, m); fl(x->k[1], s, m); } else if (x->op == RDIV) { fl(x->k[0], s, m); fl(x->k[1], -s, m); } else if (x->op == RCONST) { if (*x->q <= 0) m.ok = false; else m.c = s > 0 ? mpq_class(m.c * *x->q) : mpq_class(m.c / *x->q); } else if (x->op == RFUN && x->iv == F_EXP) { m.exp = true; m.e = s > 0 ? rAdd(m.e, x->k[0]) : rSub(m.e, x->k[0]); } else if ((m.o[x] += s) == 0) m.o.erase(x); };
  auto mono = [](Expr* x) { return x->op == RMUL || x->op == RDIV || x->op == RFUN || x->op == RCONST || x->op == RVAR; };
  if (!mono(a) || !mono(b)) return false;
  M p, q; fl(a, 1, p); if (!p.ok) return false; fl(b, 1, q); if (!q.ok || !(p.exp || q.exp) || p.o != q.o) return false;
  for (auto& f : p.o) { Ival v = gFacts.iv(f.first); if (!(v.lo > 0)) return false; }
  mpq_class r = q.c / p.c; b = rFun(F_LOG, mkReal(r)); a = rSub(p.e, q.e); return true; }
Expr* rLt(Expr* a, Expr* b) {
  if (a == b) return mkBool(false);
  stripExp(a, b);
  if (a->op == RCONST && b->op == RCONST) return mkBool(*a->q < *b->q);
  return mk(RLT, S_BOOL, a, b); }
Expr* rLe(Expr* a, Expr* b) {
  if (a == b) return mkBool(true);
  stripExp(a, b);
  if (a->op == RCONST && b->op == RCONST) return mkBool(*a->q <= *b->q);
  return mk(RLE, S_BOOL, a, b); }
Expr* rEq(Expr* a, Expr* b) {
  if (a == b) return mkBool(true);
  if (a->op == RCONST && b->op == RCONST) return mkBool(*a->q == *b->q);
  if (a->id > b->id) std::swap(a, b);
  return mk(REQ, S_BOOL, a, b); }
Expr* bNot(Expr* a) {
  if (a->op == BCONST) return mkBool(!a->iv);
  if (a->op == BNOT) return a->k[0];
  if (a->op == RLT) return rLe(a->k[1], a->k[0]);
  if (a->op == RLE) return rLt(a->k[1], a->k[0]);
  if (a->op == IULT) return iCmp(IULE, a->k[1], a->k[0]);
  if (a->op == IULE) return iCmp(IULT, a->k[1], a->k[0]);
  if (a->op == ISLT) return iCmp(ISLE, a->k[1], a->k[0]);
  if (a->op == ISLE) return iCmp(ISLT, a->k[1], a->k[0]);
  if (a->op == BAND) return bOr(bNot(a->k[0]), bNot(a->k[1]));
  if (a->op == BOR) return bAnd(bNot(a->k[0]), bNot(a->k[1]));
  return mk(BNOT, S_BOOL, a); }
Expr* bAnd(Expr* a, Expr* b) {
  if (a->op == BCONST) return a->iv ? b : a; if (b->op == BCONST) return b->iv ? a : b;
  if (a == b) return a; if (a->id > b->id) std::swap(a, b); return mk(BAND, S_BOOL, a, b); }
Expr* bOr(Expr* a, Expr* b) {
  if (a->op == BCONST) return a->iv ? a : b; if (b->op == BCONST) return b->iv ? b : a;
  if (a == b) return a; if (a->id > b->id) std::swap(a, b); return mk(BOR, S_BOOL, a, b); }

// ------------------------------------------------------------------ bit-vectors
Expr* mkInt(unsigned w, uint64_t v) { return mk(ICONST, w, 0, 0, 0, v & maskW(w)); }
static bool foldI(Op op, uint64_t a, uint64_t b, unsigned w, uint64_t& r) {
  switch (op) {
    case IADD: r = a + b; break; case ISUB: r = a - b; break; case IMUL: r = a * b; break;
    case IUDIV: if (!b) return false; r = a / b; break;
    case IUREM: if (!b) return false; r = a % b; break;
    case ISDIV: if (!b) return false; if (sx(b, w) == -1) r = -a; else r = sx(a, w) / sx(b, w); break;
    case ISREM: if (!b) return false; if (sx(b, w) == -1) r = 0; else r = sx(a, w) % sx(b, w); break;
    case IAND: r = a & b; break; case IOR: r = a | b; break; case IXOR: r = a ^ b; break;
    case ISHL: r = b >= w ? 0 : a << b; break; case ILSHR: r = b >= w ? 0 : a >> b; break;
    case IASHR: r = sx(a, w) >> (b >= w ? w - 1 : b); break;
    default: return false; }
  r &= maskW(w); return true; }
Expr* iBin(Op op, Expr* a, Expr* b) {
  unsigned w = a->sort; uint64_t r;
  if (a->op == ICONST && b->op == ICONST && foldI(op, a->iv, b->iv, w, r)) return mkInt(w, r);
  bool comm = op == IADD || op == IMUL || op == IAND || op == IOR || op == IXOR;
  if (comm && a->op == ICONST) std::swap(a, b);
  if (b->op == ICONST) { uint64_t v = b->iv;
    if (v == 0 && (op == IADD || op == ISUB || op == IOR || op == IXOR || op == ISHL || op == ILSHR || op == IASHR)) return a;
    if (v == 0 && (op == IMUL || op == IAND)) return b;
    if (v == 1 && (op == IMUL || op == IUDIV || op == ISDIV)) return a;
    if (op == IAND && v == maskW(w)) return a;
    if (op == ISUB) return iBin(IADD, a, mkInt(w, -v));
    if (op == IADD && a->op == IADD && a->k[1]->op == ICONST) return iBin(IADD, a->k[0], mkInt(w, a->k[1]->iv + v));
    if (w == 1 && op == IXOR && v == 1) return boolToBV(bNot(toBool(a)), 1); }
  if (w == 1 && (op == IAND || op == IOR)) return boolToBV(op == IAND ? bAnd(toBool(a), toBool(b)) : bOr(toBool(a), toBool(b)), 1);
  if (w == 1 && op == IXOR) { Expr *x = toBool(a), *y = toBool(b); return boolToBV(bOr(bAnd(x, bNot(y)), bAnd(bNot(x), y)), 1); }
  if (a == b) { if (op == ISUB || op == IXOR) return mkInt(w, 0); if (op == IAND || op == IOR) return a; }
  if (comm && b->op != ICONST && a->id > b->id) std::swap(a, b);
  return mk(op, w, a, b); }
Expr* iCmp(Op op, Expr* a, Expr* b) {
  unsigned w = a->sort;
  if (a->op == ICONST && b->op == ICONST) {
    switch (op) { case IEQ: return mkBool(a->iv == b->iv); case IULT: return mkBool(a->iv < b->iv); case IULE: return mkBool(a->iv <= b->iv);
      case ISLT: return mkBool(sx(a->iv, w) < sx(b->iv, w)); default: return mkBool(sx(a->iv, w) <= sx(b->iv, w)); } }
  if (a == b) return mkBool(op == IEQ || op == IULE || op == ISLE);
  if (op == IEQ) {
    if (a->op == ICONST) std::swap(a, b);
    if (b->op == ICONST) {
      if (a->op == IITE && (isConst(a->k[1]) || isConst(a->k[2])))
        return bOr(bAnd(a->k[0], iCmp(IEQ, a->k[1], b)), bAnd(bNot(a->k[0]), iCmp(IEQ, a->k[2], b)));
      if (a->op == IZEXT) { unsigned iw = a->k[0]->sort; if (b->iv > maskW(iw)) return mkBool(false); return iCmp(IEQ, a->k[0], mkInt(iw, b->iv)); }
      if (a->op == IADD && a->k[1]->op == ICONST) return iCmp(IEQ, a->k[0], mkInt(w, b->iv - a->k[1]->iv));
    } else if (a->id > b->id) std::swap(a, b); }
  else if (b->op == ICONST && a->op == IITE && (isConst(a->k[1]) && isConst(a->k[2])))
    return bOr(bAnd(a->k[0], iCmp(op, a->k[1], b)), bAnd(bNot(a->k[0]), iCmp(op, a->k[2], b)));
  else if (a->op == ICONST && b->op == IITE && (isConst(b->k[1]) && isConst(b->k[2])))
    return bOr(bAnd(b->k[0], iCmp(op, a, b->k[1])), bAnd(bNot(b->k[0]), iCmp(op, a, b->k[2])));
  if (op == IULT && b->op == ICONST && b->iv == 0) return mkBool(false);
  return mk(op, S_BOOL, a, b); }
Expr* iZext(Expr* e, unsigned w) { if (e->sort == w) return e; if (e->op == ICONST) return mkInt(w, e->iv);
  if (e->op == IITE && isConst(e->k[1]) && isConst(e->k[2])) return iIte(e->k[0], iZext(e->k[1], w), iZext(e->k[2], w));
  return mk(IZEXT, w, e); }
Expr* iSext(Expr* e, unsigned w) { if (e->sort == w) return e; if (e->op == ICONST) return mkInt(w, sx(e->iv, e->sort));
  if (e->op == IITE && isConst(e->k[1]) && isConst(e->k[2])) return iIte(e->k[0], iSext(e->k[1], w), iSext(e->k[2], w));
  return mk(ISEXT, w, e); }
Expr* iExtract(Expr* e, unsigned lo, unsigned w) {
  if (lo == 0 && e->sort == w) return e;
  if (e->op == ICONST) return mkInt(w, e->iv >> lo);
  if (e->op == IEXTRACT) return iExtract(e->k[0], lo + e->iv, w);
  if (e->op == ICONCAT) { unsigned lw = e->k[1]->sort; if (lo + w <= lw) return iExtract(e->k[1], lo, w); if (lo >= lw) return iExtract(e->k[0], lo - lw, w); }
  if (e->op == IZEXT || e->op == ISEXT) { unsigned iw = e->k[0]->sort; if (lo + w <= iw) return iExtract(e->k[0], lo, w);
    if (e->op == IZEXT && lo >= iw) return mkInt(w, 0); if (lo == 0 && w > iw) return e->op == IZEXT ? iZext(e->k[0], w) : iSext(e->k[0], w); }
  if (e->op == IITE && isConst(e->k[1]) && isConst(e->k[2])) return iIte(e->k[0], iExtract(e->k[1], lo, w), iExtract(e->k[2], lo, w));
  if (lo == 0 && (e->op == IADD || e->op == IMUL || e->op == IAND || e->op == IOR || e->op == IXOR)) return iBin((Op)e->op, iExtract(e->k[0], 0, w), iExtract(e->k[1], 0, w));
  return mk(IEXTRACT, w, e, 0, 0, lo); }
Expr* iConcat(Expr* h, Expr* l) {
  unsigned w = h->sort + l->sort;
  if (h->op == ICONST && l->op == ICONST) return mkInt(w, h->iv << l->sort | l->iv);
  if (h->op == ICONST && h->iv == 0) return iZext(l, w);
  if (h->op == IEXTRACT && l->op == IEXTRACT && h->k[0] == l->k[0] && h->iv == l->iv + l->sort) return iExtract(h->k[0], l->iv, w);
  return mk(ICONCAT, w, h, l); }
Expr* iIte(Expr* c, Expr* a, Expr* b) {
  if (c->op == BCONST) return c->iv ? a : b; if (a == b) return a;
  return mk(IITE, a->sort, c, a, b); }
Expr* toBool(Expr* e) {
  if (e->sort == S_BOOL) return e;
  if (e->op == IITE && isConst(e->k[1]) && isConst(e->k[2])) {
    bool a = e->k[1]->iv & 1, b = e->k[2]->iv & 1; if (a && !b) return e->k[0]; if (!a && b) return bNot(e->k[0]); return mkBool(a); }
  return iCmp(IEQ, e, mkInt(e->sort, 1)); }
Expr* boolToBV(Expr* b, unsigned w) { return iIte(b, mkInt(w, 1), mkInt(w, 0)); }

// ------------------------------------------------------------------ misc
const vector<uint32_t>& varsOf(Expr* e) {
  static std::unordered_map<uint32_t, vector<uint32_t>> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  vector<uint32_t> r;
  if (e->op == RVAR || e->op == IVAR || e->op == BVAR) r.push_back(e->iv);
  for (int i = 0; i < e->nk; i++) { const auto& v = varsOf(e->k[i]); vector<uint32_t> o; std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(o)); r.swap(o); }
  return memo[e->id] = r; }
size_t dagSize(Expr* e) { std::unordered_map<uint32_t, bool> s; vector<Expr*> st{e}; while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (s[x->id]) continue; s[x->id] = true; for (int i = 0; i < x->nk; i++) st.push_back(x->k[i]); } return s.size(); }

static long double qld(const mpq_class& q) {
  // correctly scaled conversion to long double
  mpz_class n = q.get_num(), d = q.get_den(); long en = mpz_sizeinbase(n.get_mpz_t(), 2), ed = mpz_sizeinbase(d.get_mpz_t(), 2);
  auto cv = [](const mpz_class& z, long bits) { mpz_class t = abs(z); long sh = bits > 64 ? bits - 64 : 0; t >>= sh; return ldexpl((long double)(unsigned long)t.get_ui(), (int)sh) * (z < 0 ? -1 : 1); };
  return cv(n, en) / cv(d, ed); }
static long double constVal(Expr* e) { static std::unordered_map<uint32_t, long double> m; auto it = m.find(e->id); if (it != m.end()) return it->second; return m[e->id] = qld(*e->q); }
static long double fnEval(Fn f, long double a, long double b) {
  switch (f) { case F_EXP: return expl(a); case F_LOG: return logl(a); case F_SIN: return sinl(a); case F_COS: return cosl(a); case F_TAN: return tanl(a);
    case F_ATAN: return atanl(a); case F_ATAN2: return atan2l(a, b); case F_POW: return powl(a, b); case F_TANH: return tanhl(a); case F_ERF: return erfl(a);
    case F_ERFC: return erfcl(a); case F_ACOS: return acosl(a); case F_ASIN: return asinl(a); case F_PI: return 3.141592653589793238462643383279502884L;
    case F_SINH: return sinhl(a); case F_COSH: return coshl(a); case F_ATANH: return atanhl(a); default: return 0; } }
static Val1 evalNode(Expr* e, const Val1* k) {
  Val1 r{0, 0};
  switch (e->op) {
    case RCONST: r.r = constVal(e); break;
    case RADD: r.r = k[0].r + k[1].r; break; case RSUB: r.r = k[0].r - k[1].r; break;
    case RMUL: r.r = k[0].r * k[1].r; break; case RDIV: r.r = k[0].r / k[1].r; break;
    case RNEG: r.r = -k[0].r; break;
    case RROOT: r.r = e->iv == 2 ? sqrtl(k[0].r) : k[0].r < 0 ? NAN : powl(k[0].r, 1.0L / e->iv); break;
    case RFUN: r.r = fnEval((Fn)e->iv, e->nk > 0 ? k[0].r : 0, e->nk > 1 ? k[1].r : 0); break;
    case RITE: r.r = k[0].i ? k[1].r : k[2].r; break;
    case RFROMBV: r.r = e->iv ? (long double)sx(k[0].i, e->k[0]->sort) : (long double)k[0].i; break;
    case BCONST: case ICONST: r.i = e->iv; break;
    case BNOT: r.i = !k[0].i; break; case BAND: r.i = k[0].i & k[1].i; break; case BOR: r.i = k[0].i | k[1].i; break;
    case RLT: r.i = k[0].r < k[1].r; break; case RLE: r.i = k[0].r <= k[1].r; break; case REQ: r.i = k[0].r == k[1].r; break;
    case IEQ: r.i = k[0].i == k[1].i; break; case IULT: r.i = k[0].i < k[1].i; break; case IULE: r.i = k[0].i <= k[1].i; break;
    case ISLT: { unsigned w = e->k[0]->sort; r.i = sx(k[0].i, w) < sx(k[1].i, w); break; }
    case ISLE: { unsigned w = e->k[0]->sort; r.i = sx(k[0].i, w) <= sx(k[1].i, w); break; }
    case IZEXT: r.i = k[0].i; break; case ISEXT: r.i = sx(k[0].i, e->k[0]->sort) & maskW(e->sort); break;
    case IEXTRACT: r.i = (k[0].i >> e->iv) & maskW(e->sort); break;
    case ICONCAT: r.i = k[0].i << e->k[1]->sort | k[1].i; break;
    case IITE: r.i = k[0].i ? k[1].i : k[2].i; break;
    default: foldI((Op)e->op, k[0].i, k[1].i, e->sort, r.i); }
  return r; }
Val1 Evaluator::ev(Expr* e0) {
  auto it = memo.find(e0->id); if (it != memo.end()) return it->second;
  vector<Expr*> st{e0};
  while (!st.empty()) {
    Expr* e = st.back(); if (memo.count(e->id)) { st.pop_back(); continue; }
    if (e->op == RVAR || e->op == IVAR || e->op == BVAR) { memo[e->id] = m[e->iv]; st.pop_back(); continue; }
    bool rdy = true; Val1 k[3];
    for (int i = 0; i < e->nk; i++) { auto f = memo.find(e->k[i]->id); if (f == memo.end()) { st.push_back(e->k[i]); rdy = false; } else k[i] = f->second; }
    if (!rdy) continue;
    memo[e->id] = evalNode(e, k); st.pop_back(); }
  return memo[e0->id]; }

// ------------------------------------------------------------------ facts
static const long double INF = INFINITY;
static Ival mkI(long double lo, long double hi, bool nz = false) {
  if (std::isnan((double)lo) || lo != lo) lo = -INF; if (hi != hi) hi = INF;
  return {lo, hi, nz || lo > 0 || hi < 0}; }
static long double dn(long double x) { return x == 0 || std::isinf(x) ? x : x - fabsl(x) * 2e-18L; }
static long double up(long double x) { return x == 0 || std::isinf(x) ? x : x + fabsl(x) * 2e-18L; }
static long double mulz(long double a, long double b) { return (a == 0 || b == 0) ? 0 : a * b; }
static Ival imul(Ival a, Ival b) {
  long double p[4] = {mulz(a.lo, b.lo), mulz(a.lo, b.hi), mulz(a.hi, b.lo), mulz(a.hi, b.hi)};
  return mkI(dn(*std::min_element(p, p + 4)), up(*std::max_element(p, p + 4)), a.nz && b.nz); }
Ival Facts::iv(Expr* e0) {
  { auto it = memo.find(e0->id); if (it != memo.end()) return it->second; }
  vector<Expr*> st{e0};
  while (!st.empty()) {
    Expr* e = st.back(); if (memo.count(e->id)) { st.pop_back(); continue; }
    bool rdy = true; Ival k[3];
    for (int i = 0; i < e->nk; i++) { if (e->k[i]->sort != S_REAL) continue; auto f = memo.find(e->k[i]->id); if (f == memo.end()) { st.push_back(e->k[i]); rdy = false; } else k[i] = f->second; }
    if (!rdy) continue; st.pop_back();
    Ival r{-INF, INF, false};
    switch (e->op) {
      case RCONST: { long double v = constVal(e); r = mkI(dn(v), up(v), *e->q != 0); if (*e->q == 0) r = {0, 0, false}; break; }
      case RADD: r = mkI(dn(k[0].lo + k[1].lo), up(k[0].hi + k[1].hi));
        if (k[0].lo >= 0 && k[1].lo >= 0 && (k[0].nz || k[1].nz)) r.nz = true;
        if (k[0].hi <= 0 && k[1].hi <= 0 && (k[0].nz || k[1].nz)) r.nz = true; break;
      case RSUB: r = mkI(dn(k[0].lo - k[1].hi), up(k[0].hi - k[1].lo));
        if (k[0].lo >= 0 && k[1].hi <= 0 && (k[0].nz || k[1].nz)) r.nz = true;
        if (k[0].hi <= 0 && k[1].lo >= 0 && (k[0].nz || k[1].nz)) r.nz = true; break;
      case RMUL: if (e->k[0] == e->k[1]) { Ival a = k[0]; long double h = std::max(fabsl(a.lo), fabsl(a.hi)), l = (a.lo <= 0 && a.hi >= 0) ? 0 : std::min(fabsl(a.lo), fabsl(a.hi)); r = mkI(dn(l * l), up(h * h), a.nz); }
        else r = imul(k[0], k[1]); break;
      case RDIV: if (k[1].lo >= 0 || k[1].hi <= 0) {
          Ival b = k[1]; bool neg = b.hi <= 0 && !(b.lo == 0); if (neg) { long double t = b.lo; b.lo = -b.hi; b.hi = -t; }
          Ival ib = mkI(std::isinf(b.hi) ? 0 : dn(1 / b.hi), b.lo == 0 ? INF : up(1 / b.lo), true); if (neg) { long double t = ib.lo; ib.lo = -ib.hi; ib.hi = -t; }
          r = imul(k[0], ib); } 
        r.nz |= k[0].nz; break;
      case RNEG: r = {-k[0].hi, -k[0].lo, k[0].nz}; break;
      case RROOT: { long double l = std::max(k[0].lo, 0.0L), h = std::max(k[0].hi, 0.0L), p = 1.0L / e->iv; r = mkI(std::isinf(l) ? l : dn(dn(dn(powl(l, p)))), std::isinf(h) ? h : up(up(up(powl(h, p)))), k[0].nz); break; }
      case RFUN: {
        const long double s = 1e-15L; auto lo = [&](long double x) { return x - fabsl(x) * s; }; auto hi = [&](long double x) { return x + fabsl(x) * s; };
        switch (e->iv) {
          case F_EXP: r = mkI(lo(expl(k[0].lo)), hi(expl(k[0].hi)), true); if (r.lo < 0) r.lo = 0; break;
          case F_LOG: if (k[0].lo > 0) r = mkI(lo(logl(k[0].lo)), hi(logl(k[0].hi))); else if (k[0].hi > 0) r = mkI(-INF, hi(logl(k[0].hi))); break;
          case F_SIN: case F_COS: case F_ERF: case F_TANH: r = mkI(-1, 1);
            if (e->iv == F_TANH) r = mkI(lo(tanhl(k[0].lo)), hi(tanhl(k[0].hi))); if (e->iv == F_ERF) r = mkI(lo(erfl(k[0].lo)), hi(erfl(k[0].hi))); break;
          case F_ERFC: r = mkI(lo(erfcl(k[0].hi)), hi(erfcl(k[0].lo)), true); break;
          case F_ATAN: r = mkI(lo(atanl(k[0].lo)), hi(atanl(k[0].hi))); break;
          case F_ATAN2: r = mkI(-3.1415926535897932385L, 3.1415926535897932385L); break;
          case F_ACOS: r = mkI(0, 3.1415926535897932385L); break;
          case F_ASIN: r = mkI(-1.5707963267948966193L, 1.5707963267948966193L); break;
          case F_PI: r = mkI(3.1415926535897932384L, 3.1415926535897932385L); break;
          case F_COSH: r = mkI(1, INF); break;
          case F_POW: if (k[0].lo > 0) { r = mkI(0, INF, true);
              long double c[4] = {powl(k[0].lo, k[1].lo), powl(k[0].lo, k[1].hi), powl(k[0].hi, k[1].lo), powl(k[0].hi, k[1].hi)};
              bool ok = true; for (auto x : c) if (!(x == x)) ok = false;
              if (ok && std::isfinite(k[0].hi) && std::isfinite(k[1].lo) && std::isfinite(k[1].hi)) { r = mkI(lo(*std::min_element(c, c + 4)), hi(*std::max_element(c, c + 4)), true); } }
            break; }
        break; }
      case RITE: r = {std::min(k[1].lo, k[2].lo), std::max(k[1].hi, k[2].hi), k[1].nz && k[2].nz}; break;
      case RFROMBV: { unsigned w = e->k[0]->sort; if (e->iv) r = mkI(-ldexpl(1, w - 1), ldexpl(1, w - 1)); else r = mkI(0, ldexpl(1, w));
        if (e->k[0]->op == IVAR) { auto& v = gVars[e->k[0]->iv]; r = mkI(v.lo, v.hi); } break; }
      default: break; }
    auto b = base.find(e->id); if (b != base.end()) { r.lo = std::max(r.lo, b->second.lo); r.hi = std::min(r.hi, b->second.hi); r.nz |= b->second.nz; }
    if (r.lo > 0 || r.hi < 0) r.nz = true;
    memo[e->id] = r; }
  return memo[e0->id]; }
void Facts::narrow(Expr* e, long double lo, long double hi, bool nz, int depth) {
  if (e->op == RCONST || depth > 12) return;
  auto it = base.find(e->id);
  if (it == base.end()) base[e->id] = {lo, hi, nz};
  else { if (it->second.lo >= lo && it->second.hi <= hi && (it->second.nz || !nz)) return; it->second.lo = std::max(it->second.lo, lo); it->second.hi = std::min(it->second.hi, hi); it->second.nz |= nz; }
  memo.clear();
  auto cv = [&](Expr* c) { return constVal(c); };
  if (e->op == RNEG) narrow(e->k[0], -hi, -lo, nz, depth + 1);
  else if (e->op == RMUL && e->k[0]->op == RCONST) { long double c = cv(e->k[0]); long double a = lo / c, b = hi / c; if (c < 0) std::swap(a, b); narrow(e->k[1], dn(dn(a)), up(up(b)), nz, depth + 1); }
  else if (e->op == RADD) { Ival a = iv(e->k[0]), b = iv(e->k[1]);
    auto sl = [](long double x, long double y) { return (fabsl(x) + fabsl(y)) * 4e-18L; };
    if (std::isfinite(lo) || std::isfinite(hi)) {
      if (std::isfinite(b.hi) || std::isfinite(b.lo)) { long double l = lo - b.hi, h = hi - b.lo; if (l != l) l = -INF; if (h != h) h = INF; if (l > a.lo || h < a.hi) narrow(e->k[0], std::isfinite(l) ? l - sl(lo, b.hi) : l, std::isfinite(h) ? h + sl(hi, b.lo) : h, false, depth + 1); }
      if (std::isfinite(a.hi) || std::isfinite(a.lo)) { long double l = lo - a.hi, h = hi - a.lo; if (l != l) l = -INF; if (h != h) h = INF; if (l > b.lo || h < b.hi) narrow(e->k[1], std::isfinite(l) ? l - sl(lo, a.hi) : l, std::isfinite(h) ? h + sl(hi, a.lo) : h, false, depth + 1); } } }
  else if (e->op == RSUB) { Ival a = iv(e->k[0]), b = iv(e->k[1]);
    auto sl = [](long double x, long double y) { return (fabsl(x) + fabsl(y)) * 4e-18L; };
    if (std::isfinite(lo) || std::isfinite(hi)) {   // lo <= a-b <= hi : a in [lo+b.lo, hi+b.hi], b in [a.lo-hi, a.hi-lo]
      { long double l = lo + b.lo, h = hi + b.hi; if (l != l) l = -INF; if (h != h) h = INF; if (l > a.lo || h < a.hi) narrow(e->k[0], std::isfinite(l) ? l - sl(lo, b.lo) : l, std::isfinite(h) ? h + sl(hi, b.hi) : h, false, depth + 1); }
      { long double l = a.lo - hi, h = a.hi - lo; if (l != l) l = -INF; if (h != h) h = INF; if (l > b.lo || h < b.hi) narrow(e->k[1], std::isfinite(l) ? l - sl(a.lo, hi) : l, std::isfinite(h) ? h + sl(a.hi, lo) : h, false, depth + 1); } } }
  else if (e->op == RROOT) { if (lo > 0 || std::isfinite(hi) || nz) narrow(e->k[0], lo > 0 ? powl(lo, e->iv) * (1 - 1e-17L) : 0, std::isfinite(hi) ? powl(hi, e->iv) * (1 + 1e-17L) : INF, nz, depth + 1); }
  else if (e->op == RMUL && e->k[0] == e->k[1]) { if (std::isfinite(hi)) narrow(e->k[0], -sqrtl(hi) * (1 + 1e-17L), sqrtl(hi) * (1 + 1e-17L), nz || lo > 0, depth + 1); else if (nz || lo > 0) narrow(e->k[0], -INF, INF, true, depth + 1); }
  else if (e->op == RMUL) { if (nz || lo > 0 || hi < 0) { narrow(e->k[0], -INF, INF, true, depth + 1); narrow(e->k[1], -INF, INF, true, depth + 1); }
    for (int s = 0; s < 2; s++) { Ival o = iv(e->k[s]); if (o.lo >= 0 && o.nz) { if (lo >= 0) narrow(e->k[1 - s], 0, INF, lo > 0 || nz, depth + 1); else if (hi <= 0) narrow(e->k[1 - s], -INF, 0, hi < 0 || nz, depth + 1); } } }
  else if (e->op == RDIV) { if (nz || lo > 0 || hi < 0) narrow(e->k[0], -INF, INF, true, depth + 1);
    Ival o = iv(e->k[1]); if (o.lo >= 0) { if (lo >= 0) narrow(e->k[0], 0, INF, lo > 0 || nz, depth + 1); else if (hi <= 0) narrow(e->k[0], -INF, 0, hi < 0 || nz, depth + 1); } } }
void Facts::learn(Expr* c, bool pos) {
  if (c->op == BCONST) return;
  if (c->op == BNOT) { learn(c->k[0], !pos); return; }
  known[c->id] = pos;
  if ((c->op == BAND && pos) || (c->op == BOR && !pos)) { learn(c->k[0], pos); learn(c->k[1], pos); return; }
  if (c->op == RLT || c->op == RLE) {
    Expr *a = c->k[0], *b = c->k[1]; bool strict = (c->op == RLT) == pos; if (!pos) std::swap(a, b);  // a < b or a <= b
    known[(strict ? rLt(a, b) : rLe(a, b))->id] = 1; if (strict) { known[rLe(a, b)->id] = 1; }
    Ival ia = iv(a), ib = iv(b);
    if (std::isfinite(ib.hi)) narrow(a, -INF, ib.hi, strict && ib.hi <= 0);
    if (std::isfinite(ia.lo)) narrow(b, ia.lo, INF, strict && ia.lo >= 0);
    if (!isConst(a) && !isConst(b)) { Expr* d = rSub(a, b); if (!isConst(d)) narrow(d, -INF, 0, strict); Expr* d2 = rSub(b, a); if (!isConst(d2)) narrow(d2, 0, INF, strict); }
    return; }
  if (c->op == REQ) { Expr *a = c->k[0], *b = c->k[1];
    if (pos) { Ival ia = iv(a), ib = iv(b); narrow(a, ib.lo, ib.hi, ib.nz); narrow(b, ia.lo, ia.hi, ia.nz); }
    else { if (isC(a, 0)) narrow(b, -INF, INF, true); else if (isC(b, 0)) narrow(a, -INF, INF, true); else { narrow(rSub(a, b), -INF, INF, true); narrow(rSub(b, a), -INF, INF, true); } } } }
int Facts::decide(Expr* c) {
  if (c->op == BCONST) return c->iv;
  auto it = known.find(c->id); if (it != known.end()) return it->second;
  switch (c->op) {
    case BNOT: { int r = decide(c->k[0]); return r < 0 ? r : !r; }
    case BAND: { int a = decide(c->k[0]), b = decide(c->k[1]); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; return -1; }
    case BOR: { int a = decide(c->k[0]), b = decide(c->k[1]); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; return -1; }
    case RLT: case RLE: { Expr *a = c->k[0], *b = c->k[1]; bool st = c->op == RLT;
      auto n = known.find(rLe(b, a)->id); if (st && n != known.end() && n->second == 1) return 0;
      n = known.find(rLt(b, a)->id); if (n != known.end() && n->second == 1) return 0;
      if (!st) { n = known.find(rLt(a, b)->id); if (n != known.end() && n->second == 1) return 1; }
      Ival x = iv(a), y = iv(b);
      if (x.hi < y.lo) return 1; if (x.lo > y.hi) return 0;
      if (!st && x.hi <= y.lo) return 1; if (st && x.lo >= y.hi) return 0;
      if (isC(b, 0)) { if (x.hi <= 0 && x.nz) return 1; if (x.lo >= 0 && x.nz) return 0; return -1; }
      if (isC(a, 0)) { if (y.lo >= 0 && y.nz) return 1; if (y.hi <= 0 && y.nz) return 0; return -1; }
      Ival d = iv(rSub(a, b)); if (d.hi < 0 || (d.hi <= 0 && (d.nz || !st))) return 1; if (d.lo > 0 || (d.lo >= 0 && (d.nz || st))) return 0;
      return -1; }
    case REQ: { Ival x = iv(c->k[0]), y = iv(c->k[1]); if (x.hi < y.lo || x.lo > y.hi) return 0;
      if (isC(c->k[1], 0) && x.nz) return 0; if (isC(c->k[0], 0) && y.nz) return 0;
      if (x.lo == x.hi && y.lo == y.hi && x.lo == y.lo && x.lo == 0) return 1;
      if (iv(rSub(c->k[0], c->k[1])).nz) return 0; return -1; } }
  return -1; }

// ------------------------------------------------------------------ polynomial normal form
static vector<Poly>& dens() { static vector<Poly> d; return d; }
static string polyKey(const Poly& p) { string s; for (auto& t : p.t) { s += t.second.get_str(62); s += ':'; for (auto& m : t.first) { s += std::to_string(m.first) + "^" + std::to_string(m.second) + "."; } s += ';'; } return s; }
static uint32_t internPoly(const Poly& p) { static std::unordered_map<string, uint32_t> t; string k = polyKey(p); auto it = t.find(k); if (it != t.end()) return it->second; dens().push_back(p); return t[k] = dens().size() - 1; }
const Poly& denPoly(uint32_t id) { return dens()[id]; }
static RatFn bad() { RatFn r; r.ok = false; return r; }
static Mono mmul(const Mono& a, const Mono& b) {
  Mono r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { r.push_back({a[i].first, (uint16_t)(a[i].second + b[j].second)}); i++; j++; } }
  return r; }
bool Normalizer::pmul(const Poly& a, const Poly& b, Poly& r) {
  if ((double)a.t.size() * b.t.size() > budget) return false; budget -= (long)(a.t.size() * b.t.size());
  for (auto& x : a.t) for (auto& y : b.t) { auto& c = r.t[mmul(x.first, y.first)]; c += x.second * y.second; }
  for (auto it = r.t.begin(); it != r.t.end();) if (it->second == 0) it = r.t.erase(it); else ++it;
  return r.t.size() <= limit; }
static RatFn cst(const mpq_class& q) { RatFn r; if (q != 0) r.num.t[Mono()] = q; return r; }
RatFn Normalizer::atom(Expr* e) { RatFn r; r.num.t[Mono{{e->id, 1}}] = 1; return r; }
string Normalizer::key(const RatFn& f) { string s = polyKey(f.num) + "/"; for (auto& d : f.den) s += std::to_string(d.first) + "^" + std::to_string(d.second) + ","; return s; }
void Normalizer::cancel(RatFn& f) {
  if (f.num.t.empty()) { f.den.clear(); return; }
  for (auto it = f.den.begin(); it != f.den.end();) {
    const Poly& d = denPoly(it->first);
    if (d.t.size() == 1) { // single atom
      uint32_t a = d.t.begin()->first[0].first; uint16_t mn = 65535;
      for (auto& t : f.num.t) { uint16_t ex = 0; for (auto& m : t.first) if (m.first == a) ex = m.second; mn = std::min(mn, ex); if (!mn) break; }
      uint16_t c = std::min<int>(mn, it->second);
      if (c) { Poly n; for (auto& t : f.num.t) { Mono m; for (auto& x : t.first) if (x.first == a) { if (x.second > c) m.push_back({a, (uint16_t)(x.second - c)}); } else m.push_back(x); n.t[m] = t.second; }
        f.num.t.swap(n.t); it->second -= c; }
    } else if (f.num.t.size() >= d.t.size() && f.num.t.size() < 3000) { // exact division
      while (it->second > 0) {
        Poly rem = f.num, quo; const Mono& lm = d.t.rbegin()->first; const mpq_class& lc = d.t.rbegin()->second; bool ok = true; size_t steps = 0;
        // lexicographic order on Mono vectors is not a monomial order; use greedy division with total-degree guard
        while (!rem.t.empty() && ok) {
          // find a term of rem divisible by lm, largest first
          const Mono& m = rem.t.rbegin()->first; Mono qm; size_t i = 0; bool div = true;
          for (auto& x : m) { if (i < lm.size() && lm[i].first == x.first) { if (x.second < lm[i].second) { div = false; break; } if (x.second > lm[i].second) qm.push_back({x.first, (uint16_t)(x.second - lm[i].second)}); i++; } else qm.push_back(x); }
          if (!div || i < lm.size()) { ok = false; break; }
          mpq_class c = rem.t.rbegin()->second / lc; quo.t[qm] += c; if (++steps > f.num.t.size()) { ok = false; break; }
          budget -= d.t.size();
          for (auto& y : d.t) { auto key = mmul(qm, y.first); auto z = rem.t.find(key); if (z == rem.t.end()) rem.t[key] = -c * y.second; else { z->second -= c * y.second; if (z->second == 0) rem.t.erase(z); } }
          if (rem.t.size() > 2 * f.num.t.size() + 50) ok = false; }
        if (!ok) break; f.num.t.swap(quo.t); it->second--; if (f.num.t.size() < d.t.size()) break; } }
    if (it->second <= 0) it = f.den.erase(it); else ++it; } }
// replace s^q by its argument for every root atom s in num (and den)
RatFn Normalizer::reduce(RatFn f) {
  if (!f.ok) return f;
  for (int guard = 0; guard < 200; guard++) {
    cancel(f);
    // denominators: single root atoms with exponent >= q
    bool changed = false;
    for (auto& d : f.den) { const Poly& p = denPoly(d.first); if (p.t.size() != 1) continue; Expr* a = gExprById[p.t.begin()->first[0].first];
      if (a->op == RROOT && d.second >= (int)a->iv) { int k = d.second / a->iv; uint32_t id = d.first; f.den[id] -= k * a->iv; if (f.den[id] == 0) f.den.erase(id);
        RatFn x = inv(nf(a->k[0])); if (!x.ok) return bad(); x = powi(x, k); RatFn g = mul(f, x); if (!g.ok) return g; f = g; changed = true; break; } }
    if (changed) continue;
    uint32_t ra = 0; bool found = false; uint16_t mx = 0;
    for (auto& t : f.num.t) for (auto& m : t.first) { Expr* a = gExprById[m.first]; if (a->op == RROOT && m.second >= a->iv) { if (!found || m.first > ra) { ra = m.first; found = true; } } }
    if (!found) return f;
    Expr* a = gExprById[ra]; unsigned q = a->iv; std::map<unsigned, Poly> parts; // by k = floor(exp/q)
    for (auto& t : f.num.t) { unsigned k = 0; Mono m; for (auto& x : t.first) if (x.first == ra) { k = x.second / q; unsigned rm = x.second % q; if (rm) m.push_back({ra, (uint16_t)rm}); mx = std::max(mx, x.second); } else m.push_back(x);
      parts[k].t[m] += t.second; }
    const RatFn base = nf(a->k[0]); if (!base.ok) return bad();
    RatFn sum; bool first = true;
    for (auto& p : parts) { RatFn x; x.num = p.second; for (auto it = x.num.t.begin(); it != x.num.t.end();) if (it->second == 0) it = x.num.t.erase(it); else ++it;
      if (p.first) { RatFn b = powi(base, p.first); if (!b.ok) return b; RatFn g; Poly pr; if (!pmul(x.num, b.num, pr)) return bad(); g.num = pr; g.den = b.den; x = g; }
      if (first) { sum = x; first = false; } else { sum = add(sum, x, 1); if (!sum.ok) return sum; } }
    for (auto& d : f.den) sum.den[d.first] += d.second;
    f = sum; }
  return bad(); }
RatFn Normalizer::add(const RatFn& a, const RatFn& b, int sgn) {
  if (!a.ok || !b.ok) return bad();
  RatFn r; r.den = a.den; for (auto& d : b.den) { int& e = r.den[d.first]; e = std::max(e, d.second); }
  Poly pa = a.num, pb = b.num;
  for (auto& d : r.den) {
    auto ia = a.den.find(d.first), ib = b.den.find(d.first); int ea = d.second - (ia == a.den.end() ? 0 : ia->second), eb = d.second - (ib == b.den.end() ? 0 : ib->second);
    for (; ea > 0; ea--) { Poly t; if (!pmul(pa, denPoly(d.first), t)) return bad(); pa.t.swap(t.t); }
    for (; eb > 0; eb--) { Poly t; if (!pmul(pb, denPoly(d.first), t)) return bad(); pb.t.swap(t.t); } }
  for (auto& t : pb.t) { auto& c = pa.t[t.first]; c += sgn > 0 ? t.second : mpq_class(-t.second); if (c == 0) pa.t.erase(t.first); }
  budget -= pb.t.size(); if (budget < 0) return bad();
  r.num.t.swap(pa.t); return reduce(r); }
RatFn Normalizer::mul(const RatFn& a, const RatFn& b) {
  if (!a.ok || !b.ok) return bad();
  RatFn r; if (!pmul(a.num, b.num, r.num)) return bad();
  r.den = a.den; for (auto& d : b.den) r.den[d.first] += d.second;
  return reduce(r); }
RatFn Normalizer::powi(const RatFn& a, unsigned n) { if (n == 0) return cst(1); RatFn r = a; for (unsigned i = 1; i < n; i++) { r = mul(r, a); if (!r.ok) return r; } return r; }
RatFn Normalizer::inv(const RatFn& a) {
  if (!a.ok || a.num.t.empty()) return bad();
  RatFn r; mpq_class c = a.num.t.rbegin()->second; // make monic in leading stored term
  Poly p; for (auto& t : a.num.t) p.t[t.first] = t.second / c;
  // monomial content
  std::map<uint32_t, uint16_t> cont; bool first = true;
  for (auto& t : p.t) { if (first) { for (auto& m : t.first) cont[m.first] = m.second; first = false; } else { for (auto it = cont.begin(); it != cont.end();) { uint16_t ex = 0; for (auto& m : t.first) if (m.first == it->first) ex = m.second; it->second = std::min(it->second, ex); if (!it->second) it = cont.erase(it); else ++it; } } }
  if (!cont.empty()) { Poly n; for (auto& t : p.t) { Mono m; for (auto& x : t.first) { auto f = cont.find(x.first); uint16_t ex = x.second - (f == cont.end() ? 0 : f->second); if (ex) m.push_back({x.first, ex}); } n.t[m] = t.second; } p = n; }
  r.num.t[Mono()] = 1 / c;
  for (auto& x : cont) { Poly s; s.t[Mono{{x.first, 1}}] = 1; r.den[internPoly(s)] += x.second; }
  if (p.t.size() > 1) r.den[internPoly(p)] += 1;
  else if (p.t.begin()->second != 1) r.num.t[Mono()] /= p.t.begin()->second;
  for (auto& d : a.den) { for (int i = 0; i < d.second; i++) { Poly t; if (!pmul(r.num, denPoly(d.first), t)) return bad(); r.num.t.swap(t.t); } }
  return reduce(r); }
RatFn Normalizer::build(Expr* e) {
  switch (e->op) {
    case RCONST: return cst(*e->q);
    case RVAR: case RFROMBV: return atom(e);
    case RADD: return add(nf(e->k[0]), nf(e->k[1]), 1);
    case RSUB: return add(nf(e->k[0]), nf(e->k[1]), -1);
    case RNEG: return mul(cst(-1), nf(e->k[0]));
    case RMUL: return mul(nf(e->k[0]), nf(e->k[1]));
    case RDIV: { RatFn i = inv(nf(e->k[1])); return mul(nf(e->k[0]), i); }
    case RROOT: case RFUN: {
      string s = std::to_string(e->op) + "." + std::to_string(e->iv); 
      if (e->op == RROOT) { const RatFn& a = nf(e->k[0]); if (!a.ok) return bad();
        // constants and pure even powers
        if (a.num.t.size() == 1 && a.num.t.begin()->first.empty() && a.den.empty()) { Expr* c = rRoot(mkReal(a.num.t.begin()->second), e->iv); if (c->op == RCONST) return cst(*c->q); }
        if (a.num.t.empty()) return cst(0);
        // a monomial of non-negative atoms: product of the roots of its atoms
        if (a.num.t.size() == 1 && a.num.t.begin()->second > 0) { bool all = true; unsigned q = e->iv;
          for (auto& m : a.num.t.begin()->first) if (!gFacts.nonneg(gExprById[m.first])) all = false;
          for (auto& d : a.den) { const Poly& dp = denPoly(d.first); if (dp.t.size() != 1 || !gFacts.nonneg(gExprById[dp.t.begin()->first[0].first])) all = false; }
          int natoms = a.num.t.begin()->first.size() + a.den.size();
          if (all && natoms <= 8) { mpq_class c = a.num.t.begin()->second, rc; RatFn out = cst(1);
            if (perfectRoot(c, q, rc)) out = cst(rc);
            else { mpz_class np = c.get_num(), dn = c.get_den(), k = np; for (unsigned i = 1; i < q; i++) k *= dn; // root(n/d) = root(n d^(q-1))/d
              Expr* r0 = rRoot(mkReal(mpq_class(k)), q); out = mul(cst(mpq_class(1) / mpq_class(dn)), r0->op == RCONST ? cst(*r0->q) : atom(r0)); }
            RatFn num = a; bool ok = true;
            auto pw = [&](Expr* at, unsigned ex, bool inverse) { if (!ok) return; RatFn f = cst(1); unsigned w = ex / q, rm = ex % q; if (w) f = mul(f, powi(atom(at), w));
              if (rm) { Expr* r = at; if (at->op == RROOT) { r = mk(RROOT, S_REAL, at->k[0], 0, 0, at->iv * q); RatFn x = r->k[0] ? nf(r->k[0]) : bad(); (void)x; } else r = mk(RROOT, S_REAL, at, 0, 0, q);
                f = mul(f, powi(atom(r), rm)); }
              if (inverse) f = inv(f); out = mul(out, f); if (!out.ok) ok = false; };
            auto mm = num.num.t.begin()->first; auto dd = num.den;
            for (auto& m : mm) pw(gExprById[m.first], m.second, false);
            for (auto& d : dd) pw(gExprById[denPoly(d.first).t.begin()->first[0].first], d.second, true);
            if (ok) return reduce(out); return bad(); } }
        // extract perfect powers of atoms known non-negative
        if (a.num.t.size() == 1) { RatFn out = cst(1), in; mpq_class rc; mpq_class c = a.num.t.begin()->second; bool any = false; Mono rest; unsigned q = e->iv; Mono pulled;
          if (perfectRoot(c, q, rc)) { if (c != 1) any = true; out.num.t[Mono()] = rc; c = 1; }
          for (auto& m : a.num.t.begin()->first) { if (m.second >= q && gFacts.nonneg(gExprById[m.first])) { pulled.push_back({m.first, (uint16_t)(m.second / q)}); any = true; if (m.second % q) rest.push_back({m.first, (uint16_t)(m.second % q)}); } else rest.push_back(m); }
          RatFn ri; ri.num.t[rest] = c;
          RatFn pf; pf.num.t[pulled] = 1; out = mul(out, pf);
          for (auto& d : a.den) { const Poly& dp = denPoly(d.first); int k = d.second / q; 
            bool nn = dp.t.size() == 1 && gFacts.nonneg(gExprById[dp.t.begin()->first[0].first]);
            if (k && nn) { any = true; out.den[d.first] += k; if (d.second % q) ri.den[d.first] = d.second % q; } else ri.den[d.first] = d.second; }
          if (any) { if (ri.den.empty() && rest.empty() && c == 1) return reduce(out);
            string k2 = "R" + s + "|" + key(ri); auto it = atoms_.find(k2);
            if (it == atoms_.end()) { Expr* arg = mkReal(c); for (auto& m : rest) for (int i = 0; i < m.second; i++) arg = rMul(arg, gExprById[m.first]);
              for (auto& d : ri.den) { Expr* dp = mkReal(0); for (auto& t : denPoly(d.first).t) { Expr* mm = mkReal(t.second); for (auto& m : t.first) for (int i = 0; i < m.second; i++) mm = rMul(mm, gExprById[m.first]); dp = rAdd(dp, mm); } for (int i = 0; i < d.second; i++) arg = rDiv(arg, dp); }
              atoms_[k2] = mk(RROOT, S_REAL, arg, 0, 0, q)->id; it = atoms_.find(k2); }
            return mul(out, atom(gExprById[it->second])); } }
        s = "R" + s + "|" + key(a); }
      else for (int i = 0; i < e->nk; i++) { const RatFn& a = nf(e->k[i]); if (!a.ok) return bad(); s += "|" + key(a); }
      auto it = atoms_.find(s); if (it == atoms_.end()) { atoms_[s] = e->id; return atom(e); }
      return atom(gExprById[it->second]); }
    case RITE: return atom(e); }
  return bad(); }
const RatFn& Normalizer::nf(Expr* e0) {
  auto it = memo.find(e0->id); if (it != memo.end()) return it->second;
  vector<Expr*> st{e0};
  while (!st.empty()) {
    Expr* e = st.back(); if (memo.count(e->id)) { st.pop_back(); continue; }
    bool rdy = true;
    if (e->op != RITE && e->op != RFROMBV) for (int i = 0; i < e->nk; i++) if (e->k[i]->sort == S_REAL && !memo.count(e->k[i]->id)) { st.push_back(e->k[i]); rdy = false; }
    if (!rdy) continue; st.pop_back();
    RatFn r = budget > 0 ? build(e) : bad(); memo[e->id] = r; }
  return memo[e0->id]; }
bool Normalizer::zero(Expr* e, bool* ok) { budget = 3000000; const RatFn& r = nf(e); *ok = r.ok; return r.ok && r.num.t.empty(); }

// ------------------------------------------------------------------ differentiation
static Expr* diffM(Expr* e, Expr* v, std::unordered_map<uint32_t, Expr*>& memo) {
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  Expr* r = mkReal(0);
  const auto& vs = varsOf(e);
  if (e == v) r = mkReal(1);
  else if (std::binary_search(vs.begin(), vs.end(), (uint32_t)v->iv)) {
    Expr* a = e->k[0]; Expr* b = e->k[1]; auto D = [&](Expr* x) { return diffM(x, v, memo); };
    switch (e->op) {
      case RADD: r = rAdd(D(a), D(b)); break; case RSUB: r = rSub(D(a), D(b)); break;
      case RMUL: r = rAdd(rMul(D(a), b), rMul(a, D(b))); break;
      case RDIV: r = rDiv(rSub(D(a), rMul(e, D(b))), b); break;
      case RNEG: r = rNeg(D(a)); break;
      case RROOT: r = rDiv(rMul(e, D(a)), rMul(mkReal(e->iv), a)); break;
      case RITE: r = rIte(e->k[0], D(e->k[1]), D(e->k[2])); break;
      case RFUN: { Expr* da = D(a);
        switch (e->iv) {
          case F_EXP: r = rMul(e, da); break; case F_LOG: r = rDiv(da, a); break;
          case F_SIN: r = rMul(rFun(F_COS, a), da); break; case F_COS: r = rNeg(rMul(rFun(F_SIN, a), da)); break;
          case F_TAN: r = rMul(rAdd(mkReal(1), rMul(e, e)), da); break; case F_ATAN: r = rDiv(da, rAdd(mkReal(1), rMul(a, a))); break;
          case F_TANH: r = rMul(rSub(mkReal(1), rMul(e, e)), da); break; case F_SINH: r = rMul(rFun(F_COSH, a), da); break;
          case F_COSH: r = rMul(rFun(F_SINH, a), da); break;
          case F_ERF: r = rMul(rDiv(rMul(mkReal(2), rFun(F_EXP, rNeg(rMul(a, a)))), mk(RROOT, S_REAL, mkPi(), 0, 0, 2)), da); break;
          case F_ERFC: r = rNeg(rMul(rDiv(rMul(mkReal(2), rFun(F_EXP, rNeg(rMul(a, a)))), mk(RROOT, S_REAL, mkPi(), 0, 0, 2)), da)); break;
          case F_POW: r = rMul(e, rAdd(rDiv(rMul(b, da), a), rMul(rFun(F_LOG, a), D(b)))); break;
          default: r = nullptr; } break; }
      default: r = nullptr; } 
    if (!r) { fprintf(stderr, "gsym: cannot differentiate\n"); r = mkReal(0); } }
  return memo[e->id] = r; }
Expr* diff(Expr* e, Expr* v) { std::unordered_map<uint32_t, Expr*> memo; return diffM(e, v, memo); }

// ------------------------------------------------------------------ printing
static const char* opn[] = {"const", "var", "+", "-", "*", "/", "neg", "root", "fn", "ite", "i2r", "b", "bvar", "not", "and", "or", "<", "<=", "=", "=", "u<", "u<=", "s<", "s<=",
  "int", "ivar", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>", "a>>", "zext", "sext", "extract", "concat", "ite"};
string show(Expr* e, int depth) {
  if (e->op == RCONST) { char b[64]; snprintf(b, sizeof b, "%.10g", (double)constVal(e)); return b; }
  if (e->op == ICONST) return std::to_string(sx(e->iv, e->sort));
  if (e->op == BCONST) return e->iv ? "true" : "false";
  if (e->op == RVAR || e->op == IVAR || e->op == BVAR) return gVars[e->iv].name;
  if (depth <= 0) return "..";
  string s = "("; s += e->op == RFUN ? fnName[e->iv] : opn[e->op]; if (e->op == RROOT) s += std::to_string(e->iv);
  for (int i = 0; i < e->nk; i++) s += " " + show(e->k[i], depth - 1); return s + ")"; }
