#pragma once
#include "expr.h"
#include <memory>
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, modelhits = 0, cachehits = 0, trivial = 0; double time = 0, maxtime = 0; u64 mismatches = 0; };
extern SolverStats g_ss;
enum SRes { SAT, UNSAT, UNKNOWN };
// pc /\ cond satisfiable?  base: a model of pc (may be null).  On SAT *out is a model of pc /\ cond.
SRes solve(const std::vector<E>& pc, E cond, const std::shared_ptr<Model>& base, std::shared_ptr<Model>* out);
extern unsigned g_query_timeout_ms;
