// A small exact solver for the optimiser's (piecewise linear) problems, with fault injection.
#include "core.h"
#include "solver.h"
#include "stub/nlopt.hpp"
#include <new>

namespace sim { thread_local SolverCtl SC; }
using namespace sim;

namespace {
typedef std::vector<double> V;
struct Lin { V g; double c; };      // f(x) = g.x + c
bool solveLin(std::vector<V> A, V b, V& x) {
    int n = b.size();
    for (int i = 0; i < n; i++) {
        int p = i; for (int r = i + 1; r < n; r++) if (std::fabs(A[r][i]) > std::fabs(A[p][i])) p = r;
        if (std::fabs(A[p][i]) < 1e-13) return false;
        std::swap(A[p], A[i]); std::swap(b[p], b[i]);
        for (int r = 0; r < n; r++) if (r != i) { double f = A[r][i] / A[i][i]; for (int c = i; c < n; c++) A[r][c] -= f * A[i][c]; b[r] -= f * b[i]; }
    }
    x.resize(n); for (int i = 0; i < n; i++) x[i] = b[i] / A[i][i];
    return true;
}
}

namespace nlopt {
result opt::optimize(std::vector<double>& x, double& value) {
    int lib = t_lib; HarnessScope hs;
    SC.calls++;
    if (x.size() != n) throw std::invalid_argument("nlopt invalid argument");
    if (lb.size() != n) lb.assign(n, -1e300);
    if (ub.size() != n) ub.assign(n, 1e300);
    for (unsigned i = 0; i < n; i++) if (!(x[i] >= lb[i] && x[i] <= ub[i]) || !(lb[i] <= ub[i])) throw std::invalid_argument("bounds");
    std::string what = SC.calls <= SC.script.size() ? SC.script[SC.calls - 1] : SC.rest;
    if (what == "roundoff") { SC.roundoffs++; fired(F_SOLVER_ROUNDOFF); logEvent("solver roundoff"); for (unsigned i = 0; i < n; i++) x[i] = lb[i] + (ub[i] - lb[i]) * 0.37; throw roundoff_limited(); }
    if (what == "invalid") { SC.invalids++; fired(F_SOLVER_INVALID); logEvent("solver invalid"); throw std::invalid_argument("nlopt invalid argument"); }
    if (what == "oom") { fired(F_ALLOC); logEvent("solver oom"); throw std::bad_alloc(); }
    auto eval = [&](const Fun& f, const V& at, V* g) { V gr; if (g) gr.assign(n, 1e77); V copy = at; double r; { int o = t_lib; t_lib = lib; r = f.v ? f.v(copy, gr, f.data) : f.c(n, copy.data(), g ? gr.data() : nullptr, f.data); t_lib = o; } if (g) *g = gr; return r; };
    auto lin = [&](const Fun& f, const V& at) { Lin l; double v = eval(f, at, &l.g); l.c = v; for (unsigned i = 0; i < n; i++) l.c -= l.g[i] * at[i]; return l; };
    V zero(n, 0.0), cur(n, 0.0);
    for (unsigned i = 0; i < n; i++) cur[i] = zero[i] < lb[i] ? lb[i] : zero[i] > ub[i] ? ub[i] : 0.0;
    // linearise at the origin (inside the bounds) and visit every vertex
    Lin o = lin(obj, cur); std::vector<Lin> cs; for (auto& c : cons) cs.push_back(lin(c, cur));
    double tot = 0; for (auto& c : cs) for (double g : c.g) tot += g; for (double g : o.g) tot += g;
    // do the reported gradients describe the functions? (away from clamps the functions are linear)
    {
        double worst = 0; double h = 1e-4;
        for (unsigned k = 0; k <= cs.size(); k++) for (unsigned i = 0; i < n; i++) {
            V p = cur, q = cur; p[i] += h * (ub[i] - lb[i]); q[i] -= h * (ub[i] - lb[i]);
            const Fun& f = k ? cons[k - 1] : obj;
            double fd = (eval(f, p, 0) - eval(f, q, 0)) / (p[i] - q[i]); double g = k ? cs[k - 1].g[i] : o.g[i];
            double e = std::fabs(fd - g) / (1e-9 + std::fabs(fd) + std::fabs(g)); if (std::fabs(fd - g) > 1e-9 && e > worst) worst = e;
        }
        if (worst > SC.gradErr) SC.gradErr = worst;
    }
    V best; double bestV = 0; double bestViol = 1e300;
    std::vector<std::pair<V, double>> planes;      // a.x = b
    for (unsigned i = 0; i < n; i++) { V a(n, 0.0); a[i] = 1; planes.push_back({a, lb[i]}); planes.push_back({a, ub[i]}); }
    unsigned nb = planes.size(); for (auto& c : cs) planes.push_back({c.g, -c.c});
    std::vector<unsigned> must; for (unsigned k = 0; k < cs.size(); k++) if (cons[k].eq) must.push_back(nb + k);
    std::vector<int> pick(n); unsigned P = planes.size();
    std::vector<unsigned> idx;
    std::function<void(unsigned)> rec = [&](unsigned from) {
        if (idx.size() == n) {
            std::vector<V> A; V b; for (unsigned i : idx) { A.push_back(planes[i].first); b.push_back(planes[i].second); }
            V s; if (!solveLin(A, b, s)) return;
            double viol = 0; for (unsigned i = 0; i < n; i++) { double w = 1e-9 * (ub[i] - lb[i]); if (s[i] < lb[i] - w || s[i] > ub[i] + w) return; s[i] = std::min(std::max(s[i], lb[i]), ub[i]); }
            for (unsigned k = 0; k < cs.size(); k++) { double v = cs[k].c; for (unsigned i = 0; i < n; i++) v += cs[k].g[i] * s[i]; viol += cons[k].eq ? std::max(0.0, std::fabs(v) - 1e-9) : std::max(0.0, v - 1e-9); }
            double v = o.c; for (unsigned i = 0; i < n; i++) v += o.g[i] * s[i]; if (isMax) v = -v;
            if (viol < bestViol - 1e-12 || (viol < bestViol + 1e-12 && v < bestV)) { best = s; bestV = v; bestViol = viol; }
            return;
        }
        for (unsigned i = from; i < P; i++) { idx.push_back(i); rec(i + 1); idx.pop_back(); }
    };
    rec(0);
    if (best.empty()) best = cur;
    if (bestViol > 1e-7) SC.infeasible++;
    if (what == "stay" || what == "early") SC.soft++;
    if (what == "stay") { best = x; fired(F_SOLVER_EARLY); }
    if (what == "early") { for (unsigned i = 0; i < n; i++) best[i] = x[i] + 0.5 * (best[i] - x[i]); fired(F_SOLVER_EARLY); }
    // a bound of exactly zero for the objective multiplier would make velocities undefined
    x = best; V no; value = eval(obj, x, 0);
    SC.x = x; SC.lb = lb; SC.ub = ub; SC.value = value; SC.isMax = isMax; SC.nCons = cs.size();
    SC.at.clear(); SC.f.clear();
    auto sample = [&](const V& p) { V f{eval(obj, p, 0)}; for (auto& c : cons) f.push_back(eval(c, p, 0)); SC.at.push_back(p); SC.f.push_back(f); };
    sample(zero); sample(x); for (unsigned v = 0; v < 1u << n && v < 16; v++) { V p(n); for (unsigned i = 0; i < n; i++) p[i] = v >> i & 1 ? ub[i] : 0.6 * lb[i]; sample(p); }
    SC.worstEq = SC.worstIneq = 0;
    for (unsigned k = 0; k < cs.size(); k++) { double v = eval(cons[k], x, 0); if (cons[k].eq) SC.worstEq = std::max(SC.worstEq, std::fabs(v)); else SC.worstIneq = std::max(SC.worstIneq, v); }
    logEvent("solver ok value=%.12g", value);
    lastValue = value;
    return last = what == "ok" ? XTOL_REACHED : MAXEVAL_REACHED;
}
}
