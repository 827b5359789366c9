#ifndef SIM_SOLVER_H
#define SIM_SOLVER_H
#include <string>
#include <vector>
namespace sim {
// What the simulated solver does at each call: "ok", "roundoff" (throws), "invalid" (throws),
// "early" (stops after one step), "oom" (throws bad_alloc), "stay" (returns the start point)
struct SolverCtl {
    std::vector<std::string> script;    // one entry per optimize call; past the end: "ok"
    std::string rest = "ok";
    unsigned calls = 0, invalids = 0, roundoffs = 0, soft = 0;   // soft: early stops
    unsigned infeasible = 0;
    // what the last successful call returned, and the problem it was given
    std::vector<double> x, lb, ub; double value = 0; bool isMax = false; unsigned nCons = 0;
    double worstEq = 0, worstIneq = 0;  // constraint values at the returned point
    std::vector<std::vector<double>> at, f;   // the functions' values (objective, constraints) at the origin and some other points
    double gradErr = 0;                 // worst disagreement between reported gradients and finite differences
};
extern thread_local SolverCtl SC;
}
#endif
