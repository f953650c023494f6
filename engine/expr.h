// gsym - expression DAG, simplifier, polynomial normal form, evaluation, differentiation
#pragma once
#include <cstdint>
#include <cstring>
#include <gmpxx.h>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

enum Op : uint16_t {
  RCONST, RVAR, RADD, RSUB, RMUL, RDIV, RNEG, RROOT, RFUN, RITE, RFROMBV,
  BCONST, BVAR, BNOT, BAND, BOR, RLT, RLE, REQ, IEQ, IULT, IULE, ISLT, ISLE,
  ICONST, IVAR, IADD, ISUB, IMUL, IUDIV, ISDIV, IUREM, ISREM, IAND, IOR, IXOR, ISHL, ILSHR, IASHR,
  IZEXT, ISEXT, IEXTRACT, ICONCAT, IITE
};
enum : uint16_t { S_BOOL = 0, S_REAL = 100 };  // 1..64: bit-vector of that width

// functions of reals kept uninterpreted for the solver (plus axioms), numerically evaluable
enum Fn : uint16_t { F_EXP, F_LOG, F_SIN, F_COS, F_TAN, F_ATAN, F_ATAN2, F_POW, F_TANH, F_ERF, F_ERFC, F_ACOS, F_ASIN,
                     F_PI, F_SINH, F_COSH, F_ATANH, F_NFN };
extern const char* fnName[];

struct Expr {
  uint16_t op, sort;
  uint32_t id;
  uint16_t nk;
  Expr* k[3];
  uint64_t iv;            // integer constant / variable index / function / root degree / signedness
  const mpq_class* q;     // RCONST
};
struct VarInfo { std::string name; uint16_t sort; double lo, hi; };
extern std::vector<VarInfo> gVars;     // indexed by Expr::iv of xVAR
extern std::vector<Expr*> gVarExpr;
extern std::vector<Expr*> gExprById;

struct Val1 { long double r; uint64_t i; };
typedef std::vector<Val1> Model;              // by variable index

Expr* mkReal(const mpq_class& q);
Expr* mkRealD(double d);              // double constant -> the ideal constant it stands for
Expr* mkPi();
Expr* mkVar(uint16_t sort, const std::string& name, double lo, double hi);
Expr* rAdd(Expr*, Expr*); Expr* rSub(Expr*, Expr*); Expr* rMul(Expr*, Expr*); Expr* rDiv(Expr*, Expr*);
Expr* rNeg(Expr*); Expr* rRoot(Expr*, unsigned q); Expr* rFun(Fn f, Expr* a, Expr* b = nullptr);
Expr* rPowI(Expr*, int); Expr* rIte(Expr* c, Expr* a, Expr* b); Expr* rAbs(Expr*);
Expr* rFromBV(Expr*, bool sgn);
Expr* rLt(Expr*, Expr*); Expr* rLe(Expr*, Expr*); Expr* rEq(Expr*, Expr*);
Expr* mkBool(bool); Expr* bNot(Expr*); Expr* bAnd(Expr*, Expr*); Expr* bOr(Expr*, Expr*);
Expr* mkInt(unsigned w, uint64_t v);
Expr* iBin(Op op, Expr* a, Expr* b);
Expr* iCmp(Op op, Expr* a, Expr* b);
Expr* iZext(Expr*, unsigned w); Expr* iSext(Expr*, unsigned w); Expr* iExtract(Expr*, unsigned lo, unsigned w);
Expr* iConcat(Expr* hi, Expr* lo); Expr* iIte(Expr* c, Expr* a, Expr* b);
Expr* toBool(Expr* bv1);
Expr* boolToBV(Expr* b, unsigned w);

inline bool isConst(Expr* e) { return e->op == RCONST || e->op == BCONST || e->op == ICONST; }
inline uint64_t maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
const std::vector<uint32_t>& varsOf(Expr* e);  // sorted variable indices
size_t dagSize(Expr* e);

struct Evaluator {                             // memo shared over several expressions, one model
  const Model& m; std::unordered_map<uint32_t, Val1> memo;
  Evaluator(const Model& m_) : m(m_) {}
  Val1 ev(Expr* e);
  bool b(Expr* e) { return ev(e).i & 1; }
  long double r(Expr* e) { return ev(e).r; }
};

struct Ival { long double lo, hi; bool nz; };  // closed interval; nz: known non-zero
struct Facts {
  std::unordered_map<uint32_t, Ival> base;
  std::unordered_map<uint32_t, Ival> memo;
  std::unordered_map<uint32_t, int> known;     // bool expr id -> 0/1
  void add(Expr* c) { learn(c, true); }
  Ival iv(Expr* e);
  int decide(Expr* b);                         // 1 true, 0 false, -1 unknown
  bool nonneg(Expr* e) { return iv(e).lo >= 0; }
 private:
  void narrow(Expr* e, long double lo, long double hi, bool nz, int depth = 0);
  void learn(Expr* c, bool pos);
};
extern Facts gFacts;

typedef std::vector<std::pair<uint32_t, uint16_t>> Mono;   // (atom expr id, exponent), sorted
struct Poly { std::map<Mono, mpq_class> t; };
struct RatFn { Poly num; std::map<uint32_t, int> den; bool ok = true; };  // den: interned poly id -> exponent
struct Normalizer {
  size_t limit = 20000;
  long budget = 3000000;
  std::unordered_map<uint32_t, RatFn> memo;
  const RatFn& nf(Expr* e);
  bool zero(Expr* e, bool* ok);                // normal form is identically zero
  RatFn add(const RatFn& a, const RatFn& b, int sgn);
  RatFn mul(const RatFn& a, const RatFn& b);
 private:
  bool pmul(const Poly& a, const Poly& b, Poly& r);
  RatFn build(Expr* e);
  RatFn inv(const RatFn& a);
  RatFn powi(const RatFn& a, unsigned n);
  RatFn reduce(RatFn p);
  RatFn atom(Expr* e);
  void cancel(RatFn&);
  std::string key(const RatFn&);
  std::map<std::string, uint32_t> atoms_;
};
const Poly& denPoly(uint32_t id);

Expr* diff(Expr* e, Expr* var);
std::string show(Expr* e, int depth = 6);
