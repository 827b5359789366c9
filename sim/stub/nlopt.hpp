// Stand-in for NLopt's C++ interface, backed by the simulator's solver
// (sim/solver.cpp), which can be told to fail.
#ifndef SIM_NLOPT_HPP
#define SIM_NLOPT_HPP
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <limits>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>
namespace nlopt {
enum algorithm {
    GN_DIRECT = 0, GN_DIRECT_L, GN_DIRECT_L_RAND, GN_DIRECT_NOSCAL, GN_DIRECT_L_NOSCAL, GN_DIRECT_L_RAND_NOSCAL, GN_ORIG_DIRECT, GN_ORIG_DIRECT_L,
    GD_STOGO, GD_STOGO_RAND, LD_LBFGS_NOCEDAL, LD_LBFGS, LN_PRAXIS, LD_VAR1, LD_VAR2, LD_TNEWTON, LD_TNEWTON_RESTART, LD_TNEWTON_PRECOND,
    LD_TNEWTON_PRECOND_RESTART, GN_CRS2_LM, GN_MLSL, GD_MLSL, GN_MLSL_LDS, GD_MLSL_LDS, LD_MMA, LN_COBYLA, LN_NEWUOA, LN_NEWUOA_BOUND,
    LN_NELDERMEAD, LN_SBPLX, LN_AUGLAG, LD_AUGLAG, LN_AUGLAG_EQ, LD_AUGLAG_EQ, LN_BOBYQA, GN_ISRES, AUGLAG, AUGLAG_EQ, G_MLSL, G_MLSL_LDS,
    LD_SLSQP, LD_CCSAQ, GN_ESCH, NUM_ALGORITHMS
};
enum result { FAILURE = -1, INVALID_ARGS = -2, OUT_OF_MEMORY = -3, ROUNDOFF_LIMITED = -4, FORCED_STOP = -5,
              SUCCESS = 1, STOPVAL_REACHED = 2, FTOL_REACHED = 3, XTOL_REACHED = 4, MAXEVAL_REACHED = 5, MAXTIME_REACHED = 6 };
class roundoff_limited : public std::runtime_error { public: roundoff_limited() : std::runtime_error("nlopt roundoff-limited") {} };
class forced_stop : public std::runtime_error { public: forced_stop() : std::runtime_error("nlopt forced stop") {} };
typedef double (*func)(unsigned n, const double* x, double* grad, void* data);
typedef double (*vfunc)(const std::vector<double>& x, std::vector<double>& grad, void* data);
class opt {
public:
    struct Fun { func c; vfunc v; void* data; bool eq; double tol; };
    opt() : n(0), alg(LD_SLSQP), isMax(false), last(FAILURE), lastValue(0) { clear(); }
    opt(algorithm a, unsigned n_) : n(n_), alg(a), isMax(false), last(FAILURE), lastValue(0) { clear(); }
    algorithm get_algorithm() const { return alg; }
    const char* get_algorithm_name() const { return "simulated"; }
    unsigned get_dimension() const { return n; }
    void set_min_objective(vfunc f, void* d) { set(0, f, d, false); }
    void set_max_objective(vfunc f, void* d) { set(0, f, d, true); }
    void set_min_objective(func f, void* d) { set(f, 0, d, false); }
    void set_max_objective(func f, void* d) { set(f, 0, d, true); }
    void add_equality_constraint(vfunc f, void* d, double tol = 0) { add(0, f, d, true, tol); }
    void add_inequality_constraint(vfunc f, void* d, double tol = 0) { add(0, f, d, false, tol); }
    void add_equality_constraint(func f, void* d, double tol = 0) { add(f, 0, d, true, tol); }
    void add_inequality_constraint(func f, void* d, double tol = 0) { add(f, 0, d, false, tol); }
    void remove_equality_constraints() { remove(true); }
    void remove_inequality_constraints() { remove(false); }
    void set_lower_bounds(const std::vector<double>& v) { check(v); lb = v; }
    void set_upper_bounds(const std::vector<double>& v) { check(v); ub = v; }
    void set_lower_bounds(double v) { lb.assign(n, v); }
    void set_upper_bounds(double v) { ub.assign(n, v); }
    void get_lower_bounds(std::vector<double>& v) const { v = lb; }
    void get_upper_bounds(std::vector<double>& v) const { v = ub; }
    std::vector<double> get_lower_bounds() const { return lb; }
    std::vector<double> get_upper_bounds() const { return ub; }
    // stopping criteria and tuning have no meaning for an exact solver
    void set_maxeval(int m) { maxeval = m; }
    int get_maxeval() const { return maxeval; }
    void set_maxtime(double t) { maxtime = t; }
    double get_maxtime() const { return maxtime; }
    void set_stopval(double v) { stopval = v; }
    double get_stopval() const { return stopval; }
    void set_ftol_rel(double v) { ftolRel = v; }
    double get_ftol_rel() const { return ftolRel; }
    void set_ftol_abs(double v) { ftolAbs = v; }
    double get_ftol_abs() const { return ftolAbs; }
    void set_xtol_rel(double v) { xtolRel = v; }
    double get_xtol_rel() const { return xtolRel; }
    void set_xtol_abs(double v) { xtolAbs.assign(n, v); }
    void set_xtol_abs(const std::vector<double>& v) { check(v); xtolAbs = v; }
    std::vector<double> get_xtol_abs() const { return xtolAbs; }
    void set_initial_step(double) {}
    void set_initial_step(const std::vector<double>& v) { check(v); }
    void set_default_initial_step(const std::vector<double>& v) { check(v); }
    void set_population(unsigned) {}
    void set_vector_storage(unsigned) {}
    void set_local_optimizer(const opt&) {}
    void force_stop() {}
    void set_force_stop(int) {}
    int get_force_stop() const { return 0; }
    result optimize(std::vector<double>& x, double& value);
    std::vector<double> optimize(const std::vector<double>& x0) { std::vector<double> x(x0); double v; optimize(x, v); return x; }
    result last_optimize_result() const { return last; }
    double last_optimum_value() const { return lastValue; }
    unsigned n; algorithm alg; bool isMax; result last; double lastValue; Fun obj;
    std::vector<double> lb, ub, xtolAbs; std::vector<Fun> cons; int maxeval; double maxtime, stopval, ftolRel, ftolAbs, xtolRel;
private:
    void clear() { obj = make(0, 0, 0, false, 0); maxeval = 0; maxtime = stopval = ftolRel = ftolAbs = xtolRel = 0; }
    static Fun make(func c, vfunc v, void* d, bool eq, double tol) { Fun f; f.c = c; f.v = v; f.data = d; f.eq = eq; f.tol = tol; return f; }
    void set(func c, vfunc v, void* d, bool max) { obj = make(c, v, d, false, 0); isMax = max; }
    void add(func c, vfunc v, void* d, bool eq, double tol) { cons.push_back(make(c, v, d, eq, tol)); }
    void remove(bool eq) { std::vector<Fun> k; for (size_t i = 0; i < cons.size(); i++) if (cons[i].eq != eq) k.push_back(cons[i]); cons.swap(k); }
    void check(const std::vector<double>& v) const { if (v.size() != n) throw std::invalid_argument("nlopt invalid argument"); }
};
inline void srand(unsigned long) {}
inline void srand_time() {}
inline int version_major() { return 2; }
}
#endif
