// irv: path condition + SMT back ends.
#pragma once
#include "term.h"
#include <chrono>
#include <cstdlib>

namespace irv {
// Integer linear inequality  sum(k[i] * a[i]) + c >= 0  over the unsigned
// values of the atoms.
struct LinFact {
    std::vector<std::pair<T, __int128>> m; // sorted by term id
    __int128 c = 0;
};
struct PC {
    T cond;
    const PC * parent;
    unsigned depth;
    mutable bool factsDone = false;
    mutable std::vector<std::pair<T, T>> eqs; // numbers the condition fixes
    mutable std::vector<LinFact> facts; // derived from cond given the facts of the ancestors
    PC(T c, const PC * p, unsigned d) : cond(c), parent(p), depth(d) {}
};
enum class Res { SAT, UNSAT, UNKNOWN };

struct SolverStats {
    uint64_t queries = 0, z3inc = 0, z3fresh = 0, cvc5 = 0, modelHits = 0, unknown = 0, linear = 0, crosschecked = 0, pool = 0;
    double seconds = 0;
    double slowest = 0;
};

class Solver {
  public:
    Solver();
    ~Solver();
    // Satisfiability of pc /\ extra; fills *m when satisfiable.
    Res check(const PC * pc, T extra, std::shared_ptr<Model> * m, bool hard = false);
    SolverStats stats;
    int timeoutMs = 3000;
    int hardTimeoutMs = 60000;
    int quickTimeoutMs = 40;
    bool quick = false;
    bool useCvc5 = true;
    bool crosscheck = getenv("IRV_CROSSCHECK") != nullptr; // confirm every linear step with z3
    std::string lastOutput;
    std::string dumpDir;

  private:
    bool linUnsat(const PC * pc, T q);
    std::vector<std::shared_ptr<Model>> pool;
    struct Impl;
    Impl * p;
};
} // namespace irv
