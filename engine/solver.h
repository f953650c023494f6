// gsym - SMT back end (z3), run in a forked child with a hard wall-clock limit
#pragma once
#include "expr.h"
enum Res { R_SAT, R_UNSAT, R_UNKNOWN };
struct QStats { long queries = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0, maxsecs = 0; };
// conj: the sliced conjunction; on SAT `out` receives values for the variables that occur (others untouched)
Res smtQuery(const std::vector<Expr*>& conj, Model* out, int timeoutMs, QStats* st);
extern bool gDumpQueries;
