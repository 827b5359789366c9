// Checkers for velocity extension and gradients (C15), sensitivities (C16), the optimiser (C14) and thermal noise (C08).
#include "hist.h"
#include "ref.h"
#include "solver.h"
#include <algorithm>
#include <cmath>
#include <map>

namespace sim {
using namespace slsm;
typedef std::vector<double> V;
static Plan start(const char* id, uint64_t seed, Rng& r) { Plan p; p.add("prop").set("id", id).setU("seed", seed); genKnobs(p, r); return p; }
static Rng rngFor(const char* id, uint64_t seed) { return Rng(mix64(seed * 31 + hashBytes(id, strlen(id)))); }
static bool same(const V& a, const V& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
static bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
static void runChecked(const Plan& p, Checker& c, const char* where) {
    std::vector<Checker*> cs{&c}; ExecOpt o; o.nodes = {0}; o.checkers = &cs;
    for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
    ProcResult r = runHistory(p, o, where); judgeEnd(r, where);
}

// ---------------------------------------------------------------- C15
// fifth order WENO, from Osher and Fedkiw's formulas
static double weno(double a, double b, double c, double d, double e) {
    double q0 = a / 3 - 7 * b / 6 + 11 * c / 6, q1 = -b / 6 + 5 * c / 6 + d / 3, q2 = c / 3 + 5 * d / 6 - e / 6;
    auto sq = [](double x) { return x * x; };
    double s0 = 13. / 12 * sq(a - 2 * b + c) + sq(a - 4 * b + 3 * c) / 4, s1 = 13. / 12 * sq(b - 2 * c + d) + sq(b - d) / 4, s2 = 13. / 12 * sq(c - 2 * d + e) + sq(3 * c - 4 * d + e) / 4;
    double w0 = 0.1 / sq(s0 + 1e-6), w1 = 0.6 / sq(s1 + 1e-6), w2 = 0.3 / sq(s2 + 1e-6);
    return (w0 * q0 + w1 * q1 + w2 * q2) / (w0 + w1 + w2);
}
struct FieldChecker : Checker {
    V sd, vel; bool have = false;
    void before(App& a, const Line&) override { have = (bool)a.ls; if (have) { sd = a.ls->signedDistance; vel = a.ls->velocity; } }
    void after(App& a, const Line& op, const Outcome& r) override {
        std::string w = op.str("do"); if (!have) return;
        if (w == "vel" || w == "noise" || w == "grad") { R->checks++; if (!same(sd, a.ls->signedDistance)) { fail("field-state", "%s changed the signed distance", w.c_str()); return; } }
        if (r.st != ST_OK) return;
        if (w == "vel" || w == "noise") { judgeVel(a); probe(1); R->nontrivial = 1; }
        if (w == "grad") { if (!same(vel, a.ls->velocity)) { fail("field-state", "computing gradients changed the velocities"); return; } judgeGrad(a); probe(2); }
    }
    void judgeVel(App& a) {
        LevelSet& L = *a.ls; int W = a.cfg.w + 1, N = W * (a.cfg.h + 1); const V& out = L.velocity; R->checks++;
        V num(N, 0), den(N, 0); std::vector<std::vector<double>> exact(N); std::vector<char> fuzzy(N, 0);
        double bmin = 1e300, bmax = -1e300;
        auto give = [&](int i, double x, double y, double v, double limit) {
            double r2 = (i % W - x) * (i % W - x) + (i / W - y) * (i / W - y);
            if (std::fabs(r2 - 1e-6) < 1e-11) fuzzy[i] = 1;
            if (r2 < 1e-6) exact[i].push_back(v);
            else if (r2 <= limit) { num[i] += v / r2; den[i] += 1 / r2; }
            else if (r2 <= limit + 1e-12) fuzzy[i] = 1;
        };
        for (auto& p : a.b->points) {
            double x = p.coord.x, y = p.coord.y; bmin = std::min(bmin, p.velocity); bmax = std::max(bmax, p.velocity);
            double fx = x - std::floor(x), fy = y - std::floor(y);
            // a point half way along an edge: both ends are as close, and each is the other's neighbour
            int cx = (int)std::floor(x + 0.5), cy = (int)std::floor(y + 0.5); cx = std::min(std::max(cx, 0), a.cfg.w); cy = std::min(std::max(cy, 0), a.cfg.h); (void)fx; (void)fy;
            give(cy * W + cx, x, y, p.velocity, 1e9);
            if (cx) give(cy * W + cx - 1, x, y, p.velocity, 1); if (cx < a.cfg.w) give(cy * W + cx + 1, x, y, p.velocity, 1);
            if (cy) give((cy - 1) * W + cx, x, y, p.velocity, 1); if (cy < a.cfg.h) give((cy + 1) * W + cx, x, y, p.velocity, 1);
        }
        V v0(N, 0), vlo(N, 0), vhi(N, 0);
        for (int i = 0; i < N; i++) {
            if (exact[i].size()) { vlo[i] = *std::min_element(exact[i].begin(), exact[i].end()); vhi[i] = *std::max_element(exact[i].begin(), exact[i].end()); v0[i] = exact[i].back(); }
            else v0[i] = vlo[i] = vhi[i] = den[i] > 0 ? num[i] / den[i] : 0;
        }
        std::vector<char> active(N), fr = ref::frozenNodes(sd, a.cfg.w, a.cfg.h); for (int i = 0; i < N; i++) active[i] = L.mesh.nodes[i].isActive;
        double scale = std::max({std::fabs(bmin), std::fabs(bmax), 1e-30}); bool unset = false, open = false;
        for (int i = 0; i < N; i++) if (fr[i]) {
            if (fuzzy[i] || vhi[i] > vlo[i] + 1e-9 * scale) { open = true; v0[i] = out[i]; if (fuzzy[i]) continue; }
            if (exact[i].empty() && den[i] == 0) unset = true;
            if (active[i] && !(out[i] >= vlo[i] - 1e-9 * scale && out[i] <= vhi[i] + 1e-9 * scale)) { fail("velocity-interface", "node (%d,%d) next to the interface has velocity %.12g instead of %.12g", i % W, i / W, out[i], v0[i]); return; }
        }
        double lo0 = bmin, hi0 = bmax; if (unset) { lo0 = std::min(lo0, 0.0); hi0 = std::max(hi0, 0.0); }
        if (open) probe(22);
        bool dz = false; std::vector<char> frozen; std::vector<V> marched(1); V lo = ref::extend(sd, v0, active, a.cfg.w, a.cfg.h, 0, 1, dz, &frozen, &marched[0]), hi = lo;
        // (a node whose neighbours are all masked or kept still, and not next to the interface, is out of reach)
        for (int i = 0; i < N; i++) if (active[i] && frozen[i] && !(out[i] >= lo0 - 1e-9 * scale && out[i] <= hi0 + 1e-9 * scale)) { fail("velocity-range", "node (%d,%d) has velocity %.12g although the boundary's velocities lie between %.12g and %.12g", i % W, i / W, out[i], bmin, bmax); return; }
        auto bad = [&]() { for (int i = 0; i < N; i++) { double t = 1e-7 * (scale + std::fabs(out[i])); if (active[i] && frozen[i] && !(out[i] >= lo[i] - t && out[i] <= hi[i] + t)) return i; } return -1; };
        int b = bad();
        static const double eps[] = {1e-15, 1e-14, 1e-13, 1e-12, 1e-11};
        for (int k = 0; k < 60 && b >= 0; k++) { bool z; V m, v = ref::extend(sd, v0, active, a.cfg.w, a.cfg.h, eps[k % 5], k + 2, z, nullptr, &m); marched.push_back(m); for (int i = 0; i < N; i++) { lo[i] = std::min(lo[i], v[i]); hi[i] = std::max(hi[i], v[i]); } if (k % 10 == 9) { b = bad(); if (b < 0) probe(20); } }
        if (b >= 0) {
            // symmetric shapes: whatever the order, a node's value is the mean, weighted with the distances along the
            // two axes, of its nearer neighbours' values
            bool all = true; double miss = 1e300;
            for (int i = 0; i < N && all; i++) {
                double t = 1e-7 * (scale + std::fabs(out[i])); if (!active[i] || !frozen[i] || (out[i] >= lo[i] - t && out[i] <= hi[i] + t)) continue;
                miss = 1e300; int x = i % W, y = i / W, nb[2][2] = {{x ? i - 1 : -1, x < a.cfg.w ? i + 1 : -1}, {y ? i - W : -1, y < a.cfg.h ? i + W : -1}}; bool ok = false;
                for (size_t k = 0; k < marched.size() && !ok && !fr[i]; k++) {
                    const V& m = marched[k]; double d = std::fabs(m[i]);
                    for (int s0 = -1; s0 < 2 && !ok; s0++) for (int s1 = -1; s1 < 2 && !ok; s1++) {
                        int pick[2] = {s0, s1}; double nu = 0, de = 0; bool can = true;
                        for (int q = 0; q < 2 && can; q++) {
                            int n = pick[q] < 0 ? -1 : nb[q][pick[q]];
                            if (pick[q] < 0) { for (int o : nb[q]) if (o >= 0 && (fr[o] || frozen[o]) && std::fabs(m[o]) < d - 0.25) can = false; continue; }
                            if (n < 0 || !(fr[n] || frozen[n]) || std::fabs(m[n]) > d + 0.25) { can = false; break; }
                            int o = nb[q][1 - pick[q]]; if (o >= 0 && (fr[o] || frozen[o]) && std::fabs(m[o]) < std::fabs(m[n]) - 0.25) can = false;
                            double w1 = std::fabs(m[i] - m[n]); nu += w1 * out[n]; de += w1;
                        }
                        if (can && de > 0) { miss = std::min(miss, std::fabs(nu / de - out[i]) / scale); if (miss <= 3e-2) ok = true; }
                    }
                }
                if (!ok) { all = false; b = i; }
            }
            if (all) { probe(21); return; }
            fail("velocity-extension", "node (%d,%d) at signed distance %.9g has velocity %.12g instead of %.12g to %.12g, nor is it the mean of nearer neighbours' (%.3g away)", b % W, b / W, sd[b], out[b], lo[b], hi[b], miss); return;
        }
        if (hi0 - lo0 < 1e-12 * scale) { probe(3); for (int i = 0; i < N; i++) if (active[i] && frozen[i] && !close(out[i], bmin, 1e-9 * scale)) { fail("velocity-uniform", "node (%d,%d) has velocity %.12g although the whole boundary moves with %.12g", i % W, i / W, out[i], bmin); return; } }
    }
    void judgeGrad(App& a) {
        LevelSet& L = *a.ls; int w = a.cfg.w, h = a.cfg.h, W = w + 1, N = W * (h + 1); R->checks++;
        std::vector<char> in(N, 0); for (unsigned k = 0; k < L.nNarrowBand; k++) in[L.narrowBand[k]] = 1;
        for (int i = 0; i < N; i++) {
            double got = L.gradient[i]; int x = i % W, y = i / W;
            if (!in[i]) { if (got != 0) { fail("gradient-band", "node (%d,%d) outside the band has gradient %.12g", x, y, got); return; } continue; }
            auto at = [&](int u, int v) { return sd[v * W + u]; };
            auto side = [&](bool horizontal, bool forward) {
                int c = horizontal ? x : y, m = horizontal ? w : h;
                auto D = [&](int k) { k = std::min(std::max(k, 0), m - 1); return horizontal ? at(k + 1, y) - at(k, y) : at(x, k + 1) - at(x, k); };
                return forward ? weno(D(c + 2), D(c + 1), D(c), D(c - 1), D(c - 2)) : weno(D(c - 3), D(c - 2), D(c - 1), D(c), D(c + 1));
            };
            double s = L.velocity[i] < 0 ? -1 : 1, g = 0;
            for (int d = 0; d < 2; d++) { double f = s * side(d == 0, true), b = s * side(d == 0, false); if (f < 0) g += f * f; if (b > 0) g += b * b; }
            g = std::sqrt(g); double alt = g;
            if ((x == 0 || x == w) && (y == 0 || y == h)) {
                int u = x ? x - 1 : 1, v = y ? y - 1 : 1; double e1 = std::fabs(at(u, y) - at(x, y)), e2 = std::fabs(at(x, v) - at(x, y)), c = std::sqrt(2.0) * std::fabs(at(x, y) - at(u, v));
                double m = std::max(e1, e2); if (m < 1e-6 + 1e-14) alt = c; if (m < 1e-6 - 1e-14) { g = c; probe(4); }
            }
            if (!(got >= 0 && got < 1e300) || (!close(got, g, 1e-8 * (1 + g)) && !close(got, alt, 1e-8 * (1 + alt)))) { fail("gradient", "node (%d,%d) with velocity %.6g has gradient %.12g instead of %.12g", x, y, L.velocity[i], got, g); return; }
        }
    }
};
Plan genC15(uint64_t seed, int tier) {
    Rng r = rngFor("C15", seed); Plan p = start("C15", seed, r);
    SimOpt o; o.pField = 0.3; o.maxSteps = tier ? 10 : 6; o.g.pHuge = 0.0015; o.g.maxW = tier ? 30 : 22; o.g.minW = 4; o.g.pMask = 0.5; o.g.pLattice = 0.3; o.g.pFixed = 0.3; o.pMaskMid = 0.12; o.pArea = 0.2; o.pFmm = o.pSens = 0; o.pIto = 0.1; o.pNormals = 0.1; o.pOptimise = 0.2; o.pSave = 0; o.pThrow = 0; o.g.pDomainHoles = 0.5; o.g.pNarrow = 0.2;
    maybeLong(o, r, 0.03); genCfg(p, r, 0, o.g); genSim(p, r, 0, o); if (r.chance(0.3)) genFaults(p, r, r.uni(0.02, 0.2));
    return p;
}
void execC15(const Plan& p) { FieldChecker c; runChecked(p, c, "a simulation"); }

// ---------------------------------------------------------------- C16
struct SensChecker : Checker {
    uint64_t dig = 0; bool have = false; std::vector<BoundaryPoint> pts; V sd;
    void before(App& a, const Line&) override { have = a.b && a.ls; if (!have) return; dig = digestBoundary(*a.b, 7); pts = a.b->points; sd = a.ls->signedDistance; }
    static bool bits(double a, double b) { return memcmp(&a, &b, 8) == 0; }
    void after(App& a, const Line& op, const Outcome& r) override {
        std::string w = op.str("do"); if (!have || r.st == ST_SKIP || (w != "sens" && w != "ito")) return;
        R->checks++; if (!same(sd, a.ls->signedDistance)) { fail("sens-state", "%s changed the signed distance", w.c_str()); return; }
        auto& P = a.b->points;
        if (w == "sens") {
            if (digestBoundary(*a.b, 7) != dig) {
                for (size_t i = 0; i < P.size() && i < pts.size(); i++) if (!bits(P[i].coord.x, pts[i].coord.x) || !bits(P[i].coord.y, pts[i].coord.y)) { fail("sens-state", "computing sensitivities (ended with %d) moved boundary point %zu from (%.12g,%.12g) to (%.12g,%.12g)", (int)r.st, i, pts[i].coord.x, pts[i].coord.y, P[i].coord.x, P[i].coord.y); return; }
                fail("sens-state", "computing sensitivities (ended with %d) changed the boundary", (int)r.st); return;
            }
            double d = op.dbl("delta", 1e-4); std::map<int, std::vector<App::SensCall>> by; for (auto& c : a.sensCalls) { if (!c.clean) { fail("sens-argument", "the function was not called with boundary point %d of an otherwise unchanged boundary", c.point); return; } by[c.point].push_back(c); }
            for (auto& o : a.sensOut) {
                auto& c = by[o.first]; auto& p = pts[o.first]; if (c.size() != 2) { fail("sens-calls", "the function was called %zu times for boundary point %d", c.size(), o.first); return; }
                double px = p.coord.x + d * p.normal.x, py = p.coord.y + d * p.normal.y, mx = p.coord.x - d * p.normal.x, my = p.coord.y - d * p.normal.y, fp = 0, fm = 0; const double E = 1e-13 * (1 + std::fabs(p.coord.x) + std::fabs(p.coord.y));
                auto at = [&](const App::SensCall& q, double x, double y) { return close(q.x, x, E) && close(q.y, y, E); };
                if (at(c[0], px, py) && at(c[1], mx, my)) { fp = c[0].f; fm = c[1].f; } else if (at(c[1], px, py) && at(c[0], mx, my)) { fp = c[1].f; fm = c[0].f; }
                else { fail("sens-displacement", "boundary point (%.12g,%.12g) with normal (%g,%g) was displaced to (%.12g,%.12g) and (%.12g,%.12g)", p.coord.x, p.coord.y, p.normal.x, p.normal.y, c[0].x, c[0].y, c[1].x, c[1].y); return; }
                double want = (fp - fm) / (2 * d) / p.length;
                if (!close(o.second, want, 1e-9 * std::fabs(want) + 1e-14 * (std::fabs(fp) + std::fabs(fm)) / d / p.length)) { fail("sens-value", "the sensitivity of boundary point (%.9g,%.9g) is %.15g instead of %.15g", p.coord.x, p.coord.y, o.second, want); return; }
                probe(1);
            }
            if (r.st == ST_OK) { size_t n = 0; for (auto& p : pts) n += p.length > 1e-6; if (a.sensOut.size() != n) { fail("sens-calls", "sensitivities of %zu of %zu points", a.sensOut.size(), n); return; } R->nontrivial = 1; }
            else if (r.st == ST_EXC) { if (!a.sensThrew) { fail("sens-exception", "an exception came from nowhere"); return; } probe(2); R->nontrivial = 1; }
            else if (r.st == ST_BADALLOC) probe(5);
            if (r.st == ST_OK && a.sensThrew) { fail("sens-exception", "the function's exception was swallowed"); return; }
        } else {
            double T = op.dbl("T", 0.01), d = op.has("d") ? op.dbl("d") : 1e-4;
            if (P.size() != pts.size()) { fail("ito-state", "the correction for noise changed the number of boundary points"); return; }
            if (T == 0) { probe(3); if (digestBoundary(*a.b, 7) != dig) fail("ito-zero", "at temperature zero the correction for noise changed the boundary"); return; }
            for (size_t i = 0; i < P.size(); i++) {
                auto &p = P[i], &q = pts[i];
                // everything but the normal and the sensitivity of the objective
                BoundaryPoint k = p; k.normal = q.normal; k.sensitivities[0] = q.sensitivities[0];
                Boundary x, y; x.points = {k}; y.points = {q}; x.nPoints = y.nPoints = 1; x.nSegments = y.nSegments = 0; x.length = y.length = 0;
                if (digestBoundary(x, 1) != digestBoundary(y, 1)) { fail("ito-state", "the correction for noise changed boundary point (%.12g,%.12g)", q.coord.x, q.coord.y); return; }
                if (r.st != ST_OK) continue;
                auto per = [&](double s) { double X = q.coord.x + s * d * p.normal.x, Y = q.coord.y + s * d * p.normal.y, t = 0; for (unsigned j = 0; j < q.nNeighbours; j++) t += std::hypot(X - pts[q.neighbours[j]].coord.x, Y - pts[q.neighbours[j]].coord.y); return t; };
                double want = q.sensitivities[0] - T * ((per(1) - per(-1)) / (2 * d) / q.length) / (2 * q.length);
                double tol = 1e-9 * (std::fabs(want) + std::fabs(q.sensitivities[0])) + T * 1e-13 / d / (q.length * q.length);
                if (!close(p.sensitivities[0], want, tol)) { fail("ito-value", "the correction for noise of boundary point (%.9g,%.9g) at temperature %g turned sensitivity %.12g into %.12g instead of %.12g", q.coord.x, q.coord.y, T, q.sensitivities[0], p.sensitivities[0], want); return; }
                probe(4);
            }
        }
    }
};
Plan genC16(uint64_t seed, int tier) {
    Rng r = rngFor("C16", seed); Plan p = start("C16", seed, r);
    SimOpt o; o.pField = 0.3; o.maxSteps = tier ? 8 : 4; o.g.maxW = tier ? 26 : 18; o.g.minW = 4; o.g.pMask = 0.4; o.g.pLattice = 0.3; o.g.pFixed = 0.2; o.pMaskMid = 0.1; o.pArea = 0.2; o.pFmm = 0; o.pSens = 0.8; o.pIto = 0.7; o.pPerim = 0.3; o.pNormals = 0.5; o.pOptimise = 0.2; o.pSave = 0; o.pThrow = 0.4; o.g.pDomainHoles = 0.4;
    maybeLong(o, r, 0.03); genCfg(p, r, 0, o.g); genSim(p, r, 0, o);
    for (auto& l : p.lines) if (l.kind == "op" && l.str("do") == "ito") { if (r.chance(0.4)) l.set("pre", 1); if (r.chance(0.4)) l.set("d", r.logUni(1e-5, 0.1)); if (r.chance(0.1)) l.set("T", 0.0); }
    if (r.chance(0.4)) genFaults(p, r, r.uni(0.02, 0.3));
    return p;
}
void execC16(const Plan& p) { SensChecker c; runChecked(p, c, "a simulation"); }

// ---------------------------------------------------------------- C14
struct OptChecker : Checker {
    double l0 = 0;
    void after(App& a, const Line& op, const Outcome& r) override {
        if (op.str("do") != "optimise" || r.st == ST_SKIP) return;
        auto& o = a.opt; R->checks++;
        if (SC.invalids) { fail("optimise-invalid", "the solver rejected its arguments but solving carried on"); return; }
        if (r.st == ST_BADALLOC) {
            probe(4); if (o.lambdas.size() != o.nc + 1) { fail("optimise-lambdas", "%zu multipliers are left of %u after running out of memory", o.lambdas.size(), o.nc + 1); return; }
            for (double l : o.lambdas) if (l != o.l0) { fail("optimise-lambdas", "running out of memory changed a multiplier from %.12g to %.12g", o.l0, l); return; }
            return;
        }
        if (r.st != ST_OK) { fail("optimise-exception", "the optimiser failed with an unexpected exception"); return; }
        R->nontrivial = 1; probe(1);
        auto& P = a.b->points; unsigned n = o.nc + 1; size_t np = P.size(); double md = o.maxDisp;
        std::vector<bool> eq = o.eq; eq.resize(o.nc, false);
        if (o.lambdas.size() != n) { fail("optimise-lambdas", "%zu multipliers are returned for %u functions", o.lambdas.size(), n); return; }
        for (size_t i = 0; i < np; i++) if (!(std::fabs(o.vel[i]) <= 1e308) || (o.dt == 0 && o.vel[i] != 0)) { fail("optimise-velocity", "with a time step of %.9g, the velocity of point %zu is %.9g", o.dt, i, o.vel[i]); return; }
        if (o.dt == 0) probe(9);
        if (o.dt != std::fabs(o.lambdas[0])) { fail("optimise-step", "the time step %.15g is not the size of the objective's multiplier %.15g", o.dt, o.lambdas[0]); return; }
        V maxS(n, 0); bool clamps = false;
        for (auto& p : P) if (!p.isFixed) { for (unsigned k = 0; k < n; k++) maxS[k] = std::max(maxS[k], std::fabs(p.sensitivities[k])); if (p.isDomain) clamps = true; }
        V lim(n); for (unsigned k = 0; k < n; k++) { lim[k] = md / maxS[k]; if (!(std::fabs(o.lambdas[k]) <= lim[k] * (1 + 1e-9))) { fail("optimise-limit", "multiplier %u is %.12g, beyond %.12g", k, o.lambdas[k], lim[k]); return; } }
        auto disp = [&](const V& l, size_t i) { double z = 0; for (unsigned k = 0; k < n; k++) z += l[k] * P[i].sensitivities[k]; if (P[i].isDomain && z < P[i].negativeLimit) z = P[i].negativeLimit; return z; };
        double ret = 0, mag = 0; V act(n, 0);
        for (size_t i = 0; i < np; i++) {
            auto& p = P[i];
            if (p.isFixed) { if (o.dt > 0 && o.vel[i] != 0) { fail("optimise-fixed", "the fixed boundary point (%.9g,%.9g) has velocity %.9g", p.coord.x, p.coord.y, o.vel[i]); return; } continue; }
            double z = disp(o.lambdas, i), tot = 0; for (unsigned k = 0; k < n; k++) tot += std::fabs(o.lambdas[k] * p.sensitivities[k]);
            double tol = 1e-9 * tot + 1e-13;
            if (o.dt > 1e-30) {
                double got = o.vel[i] * o.dt;
                if (!close(got, z, tol)) { fail("optimise-velocity", "boundary point (%.9g,%.9g) moves by %.12g instead of %.12g", p.coord.x, p.coord.y, got, z); return; }
                if (!(std::fabs(got) <= md * (1 + 1e-9))) { fail("optimise-limit", "boundary point (%.9g,%.9g) moves by %.12g, further than %.12g", p.coord.x, p.coord.y, got, md); return; }
                if (p.isDomain && got < p.negativeLimit - 1e-12) { fail("optimise-domain", "boundary point (%.9g,%.9g) moves out of the domain by %.12g", p.coord.x, p.coord.y, got); return; }
            }
            ret += z * p.sensitivities[0] * p.length; mag += tot * std::fabs(p.sensitivities[0]) * p.length;
            for (unsigned k = 0; k < n; k++) act[k] += z * p.sensitivities[k] * p.length;
        }
        if (!close(o.ret, ret, 1e-8 * mag + 1e-13)) { fail("optimise-objective", "the returned change of the objective is %.12g, the displacements make it %.12g", o.ret, ret); return; }
        if (!clamps && SC.gradErr > 1e-5) { fail("optimise-gradient", "the gradients given to the solver differ from the functions by a factor of %.3g", SC.gradErr); return; }
        judgeOptimum(a, eq, lim, clamps);
    }
    // The functions handed to the solver must be the changes the multipliers make (less the targets), up to scale.
    void judgeFunctions(App& a, const std::vector<unsigned>& on, const V& lim, const V& t) {
        auto& P = a.b->points; std::vector<unsigned> var{0}; for (unsigned k : on) var.push_back(k); unsigned m = var.size();
        if (SC.at.empty() || SC.ub.size() != m || SC.nCons + 1 != m) { if (!SC.at.empty()) fail("optimise-problem", "the solver was given %zu variables and %u constraints where %zu constraints need attention", SC.ub.size(), SC.nCons, on.size()); return; }
        for (double u : SC.ub) if (!(u > 0)) return;
        for (unsigned k = 0; k < m; k++) {
            V c, size; for (auto& x : SC.at) {
                double s = 0, tot = 0;
                for (auto& p : P) if (!p.isFixed) { double z = 0, az = 0; for (unsigned j = 0; j < m; j++) { double l = x[j] * lim[var[j]] / SC.ub[j]; z += l * p.sensitivities[var[j]]; az += std::fabs(l * p.sensitivities[var[j]]); } if (p.isDomain && z < p.negativeLimit) z = p.negativeLimit; s += z * p.sensitivities[var[k]] * p.length; tot += az * std::fabs(p.sensitivities[var[k]]) * p.length; }
                if (k) { s -= t[var[k] - 1]; tot += std::fabs(t[var[k] - 1]); } c.push_back(s); size.push_back(tot);
            }
            double num = 0, den = 0, big = 0; for (size_t i = 0; i < c.size(); i++) { num += SC.f[i][k] * c[i]; den += c[i] * c[i]; big = std::max(big, size[i]); }
            if (!(den > 0) || !(std::sqrt(den) > 1e-6 * big)) continue;
            double q = num / den; probe(7);
            if (!(q > 0)) { fail("optimise-problem", "function %u given to the solver has nothing to do with the change it stands for", var[k]); return; }
            for (size_t i = 0; i < c.size(); i++) if (!close(SC.f[i][k], q * c[i], 1e-7 * q * big)) { fail("optimise-problem", "function %u given to the solver is %.12g (in the scale of its inputs) where the change less its target is %.12g", var[k], SC.f[i][k] / q, c[i]); return; }
        }
    }
    // The linear programme the optimiser stands for, solved from its definition.
    void judgeOptimum(App& a, const std::vector<bool>& eq, const V& lim, bool clamps) {
        auto& o = a.opt; auto& P = a.b->points; unsigned n = o.nc + 1; size_t np = P.size();
        std::vector<V> G(n, V(n, 0)); for (auto& p : P) if (!p.isFixed) for (unsigned j = 0; j < n; j++) for (unsigned k = 0; k < n; k++) G[j][k] += p.sensitivities[j] * p.sensitivities[k] * p.length;
        std::vector<unsigned> on; for (unsigned k = 1; k < n; k++) on.push_back(k);
        V t = o.cd; bool close_ = false;
        for (;;) {
            // the largest changes of every constraint the multipliers can make
            V mn(n, 1e300), mx(n, -1e300); unsigned d = on.size() + 1;
            for (unsigned v = 0; v < 1u << d; v++) {
                V l(n, 0); l[0] = v & 1 ? lim[0] : -lim[0]; for (unsigned j = 0; j < on.size(); j++) l[on[j]] = v >> (j + 1) & 1 ? lim[on[j]] : -lim[on[j]];
                V c(n, 0);
                if (!clamps) { for (unsigned k : on) for (unsigned j = 0; j < n; j++) c[k] += G[k][j] * l[j]; }
                else for (size_t i = 0; i < np; i++) if (!P[i].isFixed) { double z = 0; for (unsigned k = 0; k < n; k++) z += l[k] * P[i].sensitivities[k]; if (P[i].isDomain && z < P[i].negativeLimit) z = P[i].negativeLimit; for (unsigned k : on) c[k] += z * P[i].sensitivities[k] * P[i].length; }
                for (unsigned k : on) { mn[k] = std::min(mn[k], c[k]); mx[k] = std::max(mx[k], c[k]); }
            }
            std::vector<unsigned> keep;
            for (unsigned k : on) {
                double cd = o.cd[k - 1], e = 1e-9 * (std::fabs(mx[k]) + std::fabs(mn[k])); if (close(cd, 0.99 * mn[k], e) || close(cd, 0.99 * mx[k], e)) close_ = true;
                if (cd < 0) { if (cd < 0.99 * mn[k]) t[k - 1] = 0.99 * mn[k]; keep.push_back(k); }
                else if (cd > 0.99 * mx[k]) { if (eq[k - 1]) { t[k - 1] = 0.99 * mx[k]; keep.push_back(k); } }
                else keep.push_back(k);
            }
            bool same_ = keep.size() == on.size(); on = keep; if (same_ || on.empty()) break;
        }
        if (close_) return;
        for (unsigned k = 1; k < n; k++) if (std::find(on.begin(), on.end(), k) == on.end()) { probe(5); if (o.lambdas[k] != 0) { fail("optimise-inactive", "constraint %u needs no attention but has multiplier %.12g", k, o.lambdas[k]); return; } }
        if (SC.roundoffs >= 100) return;
        for (unsigned q = 0; q < SC.roundoffs; q++) for (auto& x : t) x *= 0.7;
        judgeFunctions(a, on, lim, t);
        if (clamps || SC.soft) return;
        // vertices
        std::vector<unsigned> var{0}; for (unsigned k : on) var.push_back(k); unsigned m = var.size();
        std::vector<std::pair<V, double>> pl; for (unsigned i = 0; i < m; i++) { V e(m, 0); e[i] = 1; pl.push_back({e, lim[var[i]]}); pl.push_back({e, -lim[var[i]]}); }
        V size; for (unsigned k : on) { V e; double s = 0; for (unsigned j : var) { e.push_back(G[k][j]); s += std::fabs(G[k][j]) * lim[j]; } pl.push_back({e, t[k - 1]}); size.push_back(s); }
        double objSize = 0; for (unsigned j : var) objSize += std::fabs(G[0][j]) * lim[j];
        std::vector<std::pair<double, V>> verts; std::vector<unsigned> idx; bool shaky = false;
        std::function<void(unsigned)> rec = [&](unsigned from) {
            if (idx.size() == m) {
                std::vector<V> A; V b; for (unsigned i : idx) { A.push_back(pl[i].first); b.push_back(pl[i].second); }
                for (unsigned i = 0; i < m; i++) { double s = 0; for (unsigned j = 0; j < m; j++) s = std::max(s, std::fabs(A[i][j]) * lim[var[j]]); for (unsigned j = 0; j < m; j++) A[i][j] *= lim[var[j]] / s; b[i] /= s; }   // scaled to [-1,1]
                V x(m); for (unsigned c = 0; c < m; c++) { unsigned p = c; for (unsigned q = c + 1; q < m; q++) if (std::fabs(A[q][c]) > std::fabs(A[p][c])) p = q; if (std::fabs(A[p][c]) < 1e-12) return; if (std::fabs(A[p][c]) < 1e-6) shaky = true; std::swap(A[p], A[c]); std::swap(b[p], b[c]); for (unsigned q = 0; q < m; q++) if (q != c) { double f = A[q][c] / A[c][c]; for (unsigned k = 0; k < m; k++) A[q][k] -= f * A[c][k]; b[q] -= f * b[c]; } }
                for (unsigned i = 0; i < m; i++) { x[i] = b[i] / A[i][i]; if (std::fabs(x[i]) > 1 + 1e-8) return; x[i] *= lim[var[i]]; }
                for (unsigned k = 0; k < on.size(); k++) { double v = -t[on[k] - 1]; for (unsigned j = 0; j < m; j++) v += G[on[k]][var[j]] * x[j]; double e = 1e-8 * size[k] + 1e-12; if (eq[on[k] - 1] ? std::fabs(v) > e : v > e) return; }
                double f = 0; for (unsigned j = 0; j < m; j++) f += G[0][var[j]] * x[j]; verts.push_back({a.opt.isMax ? -f : f, x}); return;
            }
            for (unsigned i = from; i < pl.size(); i++) { idx.push_back(i); rec(i + 1); idx.pop_back(); }
        };
        rec(0);
        if (verts.empty()) { probe(6); return; }      // the constraints cannot be met together
        if (shaky) return;
        std::sort(verts.begin(), verts.end(), [](const std::pair<double, V>& p, const std::pair<double, V>& q) { return p.first < q.first; });
        for (auto& v : verts) { double dist = 0; for (unsigned i = 0; i < m; i++) dist = std::max(dist, std::fabs(v.second[i] - verts[0].second[i]) / lim[var[i]]); if (dist > 1e-6 && v.first < verts[0].first + 1e-6 * objSize) return; }   // more than one optimum
        V l(n, 0); for (unsigned i = 0; i < m; i++) l[var[i]] = verts[0].second[i];
        double worst = 0; for (auto& p : P) if (!p.isFixed) { double z = 0; for (unsigned k = 0; k < n; k++) z += l[k] * p.sensitivities[k]; worst = std::max(worst, std::fabs(z)); }
        bool cut = worst > a.opt.maxDisp; if (cut) for (auto& x : l) x *= a.opt.maxDisp / worst;
        probe(cut ? 2 : 3);
        for (unsigned k = 0; k < n; k++) if (!close(l[k], o.lambdas[k], 1e-5 * lim[k])) { fail("optimise-optimum", "multiplier %u is %.12g, but at the optimum it is %.12g (limit %.12g)", k, o.lambdas[k], l[k], lim[k]); return; }
    }
};
Plan genC14(uint64_t seed, int tier) {
    Rng r = rngFor("C14", seed); Plan p = start("C14", seed, r);
    SimOpt o; o.pField = 0.3; o.maxSteps = tier ? 10 : 6; o.g.maxW = tier ? 26 : 18; o.g.minW = 4; o.g.pMask = 0.5; o.g.pLattice = 0.2; o.g.pFixed = 0.2; o.pMaskMid = 0.1; o.pArea = 0.1; o.pFmm = o.pSens = o.pSave = 0; o.pIto = 0.2; o.pPerim = 0; o.pNormals = 0.1; o.pOptimise = 1; o.pThrow = 0; o.g.pDomainHoles = 0.3;
    maybeLong(o, r, 0.03); genCfg(p, r, 0, o.g); genSim(p, r, 0, o); if (r.chance(0.3)) genFaults(p, r, r.uni(0.02, 0.3));
    return p;
}
void execC14(const Plan& p) { OptChecker c; runChecked(p, c, "a simulation"); }

// ---------------------------------------------------------------- C08
// The noise is judged by its distribution, not by the numbers the present generator happens to yield: every
// deviate is normalised with the variance the law prescribes and the sample must look like independent standard
// normal numbers. Every test has a threshold of about seven standard deviations (1e-11).
struct NoiseChecker : Checker {
    struct Sample { double z, len; int call, idx; bool domain, fixed, scaled; };
    std::vector<Sample> zs; std::map<unsigned, int> seeds; V sd, vel, len; double dt0 = 0; bool have = false, repeated = false, stale = false; int calls = 0;
    uint64_t rngBefore = 0;
    void before(App& a, const Line& op) override {
        have = a.b && a.ls && a.rng; if (!have) return;
        vel.clear(); len.clear(); for (auto& p : a.b->points) { vel.push_back(p.velocity); len.push_back(p.length); }
        dt0 = a.lastDt >= 0 ? a.lastDt : 0.5; sd = a.ls->signedDistance;
        if (op.str("do") == "seed") { stale = seeds[(unsigned)op.u64("s", 1)]++ > 0; if (stale) repeated = true; }
    }
    void after(App& a, const Line& op, const Outcome& r) override {
        std::string w = op.str("do"); if (!have || w == "build") return; if (R->failed) return;
        if (w == "twin" && r.st == ST_BADALLOC) stale = repeated = true;       // seeded or not
        if (w == "twin" && r.st == ST_OK) { stale = seeds[(unsigned)op.u64("s", 1)]++ > 0; if (stale) repeated = true; judgeTwin(a); return; }
        if (w == "vel" && r.st == ST_OK) { R->checks++; for (size_t i = 0; i < vel.size() && i < a.b->points.size(); i++) if (memcmp(&vel[i], &a.b->points[i].velocity, 8)) { fail("noise-uncalled", "the velocity of point %zu changed although no noise was asked for", i); return; } if (a.lastDt != dt0) { fail("noise-uncalled", "the time step changed although no noise was asked for"); return; } }
        if (w != "noise" || (r.st != ST_OK && r.st != ST_BADALLOC)) return;
        R->checks++; auto& P = a.b->points; if (P.size() != vel.size()) { fail("noise-points", "drawing noise changed the number of boundary points"); return; }
        bool moved = false; for (size_t i = 0; i < P.size(); i++) { if (P[i].velocity != vel[i]) moved = true; if (P[i].length != len[i]) { fail("noise-points", "drawing noise changed the length of point %zu", i); return; } }
        double T = op.dbl("T", 0.01), dt = a.lastDt, bound = 0.5 * a.cfg.ml, s = std::sqrt(2 * T * dt0); bool scaled = false;
        if (r.st == ST_OK || dt != dt0) {
            if (s <= bound * (1 - 1e-12)) { if (dt != dt0 || (r.st == ST_OK && r.ret != 1)) { fail("noise-step", "time step %.12g became %.12g (factor %.12g) although the noise displaces by %.6g at most half the move limit %.6g", dt0, dt, r.ret, s, a.cfg.ml); return; } probe(2); }
            else if (s >= bound * (1 + 1e-12)) {
                scaled = true; probe(3);
                if (!close(std::sqrt(2 * T * dt) / bound, 1, 1e-9)) { fail("noise-step", "the time step %.12g was reduced to %.12g where the noise displaces by %.12g instead of half the move limit %.6g", dt0, dt, std::sqrt(2 * T * dt), a.cfg.ml); return; }
                if (r.st == ST_OK && !close(r.ret * dt / dt0, 1, 1e-9)) { fail("noise-step", "the returned factor %.12g does not lead from time step %.12g to %.12g", r.ret, dt0, dt); return; }
            }
        }
        if (r.st != ST_OK && !moved) return;
        if (dt0 == 0) { probe(8); for (size_t i = 0; i < P.size(); i++) if (!(std::fabs(P[i].velocity) <= 1e308)) { fail("noise-still", "with a time step of zero, the velocity of point %zu is %.9g", i, P[i].velocity); return; } return; }
        if (T == 0) { probe(4); if (moved) { fail("noise-zero", "a temperature of zero changed the velocities"); return; } return; }
        calls++; probe(1);
        for (size_t i = 0; i < P.size(); i++) {
            double sigma = std::sqrt(2 * T / (dt * len[i])), z = (P[i].velocity - vel[i]) / sigma;
            if (std::fabs(vel[i]) > 1e5 * sigma) continue;            // lost in rounding
            if (z == 0 || !(std::fabs(z) < 7.5)) { fail("noise-value", "point %zu of length %.6g received %.6g standard deviations of noise", i, len[i], z); return; }
            if (!stale) zs.push_back({z, len[i], calls, (int)i, P[i].isDomain, P[i].isFixed, scaled});
        }
    }
    void judgeTwin(App& a) {
        R->checks++; probe(5); auto& d = a.draws; size_t n = (d.size() - 2) / 3; bool any = false;
        if (d[3 * n] != d[3 * n + 1]) { fail("noise-deterministic", "the time step depends on the velocities"); return; }
        for (size_t i = 0; i < n; i++) { double diff = d[3 * i], v0 = d[3 * i + 1], nz = d[3 * i + 2]; if (nz != 0) any = true; if (!close(diff, v0, 1e-12 * (std::fabs(v0) + std::fabs(nz)))) { fail("noise-deterministic", "the same noise added to velocity %.12g of point %zu gave %.12g more than added to none", v0, i, diff); return; } }
        (void)any;
    }
    // log of the Chernoff bound of the tail probability of a sum with value S and the cumulant generating function K on [0,top)
    template <class F> static double logTail(double S, double top, F K) {
        S = std::fabs(S); double a = 0, b = top * (1 - 1e-9); for (int i = 0; i < 80; i++) { double u = a + (b - a) / 3, v = b - (b - a) / 3; if (K(u) - u * S < K(v) - v * S) b = v; else a = u; }
        return K(a) - a * S;
    }
    static double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
    // the mean square of n standard normal numbers as a standard normal number (Wilson and Hilferty)
    static double chi(double m2, double n) { return (std::cbrt(m2) - (1 - 2 / (9 * n))) / std::sqrt(2 / (9 * n)); }
    void end(std::vector<App*>&) override {
        size_t n = zs.size(); if (n < 60 || R->failed) return; R->nontrivial = 1; R->checks++; if (n > 1000) probe(6);
        auto subset = [&](const char* name, auto pick) {
            double k = 0, m = 0, q = 0; for (auto& s : zs) if (pick(s)) { k++; m += s.z; q += s.z * s.z; }
            if (k < 12 || R->failed) return;
            double zm = m / std::sqrt(k), zv = chi(q / k, k);
            if (std::fabs(zm) > 7) fail("noise-mean", "the noise of %s (%.0f draws) has mean %.4f standard deviations", name, k, m / k);
            else if (std::fabs(zv) > 7) fail("noise-variance", "the noise of %s (%.0f draws) has %.4f times the variance", name, k, q / k);
        };
        subset("all points", [](const Sample&) { return true; });
        subset("points of the domain's edge", [](const Sample& s) { return s.domain; }); subset("points inside the domain", [](const Sample& s) { return !s.domain; });
        subset("fixed points", [](const Sample& s) { return s.fixed; });
        subset("short points", [](const Sample& s) { return s.len < 0.3; }); subset("very short points", [](const Sample& s) { return s.len < 0.1; }); subset("long points", [](const Sample& s) { return s.len > 0.8; }); subset("very long points", [](const Sample& s) { return s.len > 1; });
        subset("reduced time steps", [](const Sample& s) { return s.scaled; }); subset("full time steps", [](const Sample& s) { return !s.scaled; });
        subset("even points", [](const Sample& s) { return s.idx % 2 == 0; }); subset("odd points", [](const Sample& s) { return s.idx % 2 == 1; });
        subset("the first point", [](const Sample& s) { return s.idx == 0; }); subset("the first calls", [](const Sample& s) { return s.call <= 2; });
        if (R->failed) return;
        // products of draws that should be unrelated
        auto lag = [&](const char* name, size_t d) {
            if (n <= d + 40) return; double c = 0; for (size_t i = d; i < n; i++) c += zs[i].z * zs[i - d].z; 
            // (the eigenvalues of a chain of products are cosines)
            if (logTail(c, 0.5, [&](double h) { return -0.5 * n * std::log((1 + std::sqrt(std::max(0.0, 1 - 4 * h * h))) / 2); }) < -32) fail("noise-related", "draws %zu apart (%s) have correlation %.4f", d, name, c / (n - d));
        };
        for (size_t d = 1; d <= 8 && !R->failed; d++) lag("neighbouring points", d);
        std::map<size_t, int> sizes; { std::map<int, int> per; for (auto& s : zs) per[s.call]++; for (auto& q : per) sizes[q.second]++; }
        for (auto& q : sizes) if (!R->failed && q.first > 8) lag("successive calls", q.first);
        if (R->failed) return;
        if (n >= 800) {
            double m3 = 0, m4 = 0, cl = 0, sl = 0, ml = 0; for (auto& s : zs) ml += std::log(s.len); ml /= n;
            for (auto& s : zs) { double z2 = s.z * s.z, l = std::log(s.len) - ml; m3 += s.z * z2; m4 += z2 * z2; cl += (z2 - 1) * l; sl += l * l; }
            double t3 = m3 / n / std::sqrt(15.0 / n), t4 = (m4 / n - 3) / std::sqrt(96.0 / n);
            if (std::fabs(t3) > 8 || t4 > 12 || t4 < -7) { fail("noise-gaussian", "the noise's third moment is %.4f and its fourth %.4f instead of 0 and 3 (%zu draws)", m3 / n, m4 / n, n); return; }
            if (sl > 1e-6) { double t = cl / std::sqrt(2 * sl), sg = cl < 0 ? -1 : 1, top = 0; for (auto& s : zs) top = std::max(top, sg * (std::log(s.len) - ml));
                if (std::fabs(t) > 7 && logTail(cl, 0.5 / top, [&](double h) { double k = 0; for (auto& s : zs) { double w = sg * h * (std::log(s.len) - ml); k += -0.5 * std::log(1 - 2 * w) - w; } return k; }) < -32) { fail("noise-length", "the normalised noise depends on the length of the point (%.2f standard deviations)", t); return; } }
            V v; for (auto& s : zs) v.push_back(s.z); std::sort(v.begin(), v.end()); double D = 0; for (size_t i = 0; i < n; i++) { double F = Phi(v[i]); D = std::max({D, F - (double)i / n, (double)(i + 1) / n - F}); }
            if (D * std::sqrt((double)n) > 3.6) { fail("noise-gaussian", "the distribution of the noise is %.4f away from the normal distribution (%zu draws)", D, n); return; }
        }
        {
            // a deviate used twice, as it is or with its sign changed, shows as a coincidence
            V v; for (auto& s : zs) v.push_back(std::fabs(s.z)); std::sort(v.begin(), v.end()); int same_ = 0; for (size_t i = 1; i < n; i++) if (v[i] - v[i - 1] < 1e-11) same_++;
            if (same_ >= 4) { fail("noise-related", "%d of %zu deviates occur twice", same_, n); return; }
        }
        if (repeated) probe(7);
    }
};
Plan genC08(uint64_t seed, int tier) {
    Rng r = rngFor("C08", seed); Plan p = start("C08", seed, r);
    SimOpt o; o.maxSteps = 3; o.g.maxW = tier ? 20 : 14; o.g.minW = 4; o.g.pMask = 0.35; o.g.pLattice = 0.1; o.g.pSwiss = 0; o.g.pFixed = 0.25; o.pMaskMid = 0.05; o.pArea = o.pFmm = o.pSens = o.pSave = o.pPerim = 0; o.pIto = 0.05; o.pNormals = 0.1; o.pOptimise = 0.15; o.pNoise = 0.8; o.g.pDomainHoles = 0.3; o.pReseed = 0.2; o.pDraw = 0.3;
    maybeLong(o, r, 0.03); genCfg(p, r, 0, o.g); genSim(p, r, 0, o);
    // then many calls on the boundary the history ended with
    addOp(p, 0, "discretise"); int calls = r.range(8, tier ? 150 : 60); double T = r.logUni(1e-5, 5), dt = r.logUni(0.01, 3); bool vary = r.chance(0.5), reset = r.chance(0.5);
    unsigned s0 = r.below(1000000) + 200000; int k = 0;
    for (int c = 0; c < calls; c++) {
        if (vary) { T = r.chance(0.02) ? 0 : r.logUni(1e-5, 5); dt = r.logUni(0.01, 3); }
        if (c == 0 || reset || vary) addOp(p, 0, "setvel").set("dt", dt).set("a", r.chance(0.5) ? 0.0 : r.uni(0.1, 1) / dt).set("kx", r.uni(-0.5, 0.5)).set("ky", r.uni(-0.5, 0.5)).set("ph", r.uni(0, 6.28)).set("off", r.uni(-0.8, 0.8));
        if (r.chance(0.1)) addOp(p, 0, "seed").setU("s", r.chance(0.5) ? s0 + k++ : r.chance(0.5) ? s0 + k++ * 65536 : s0 ^ 1u << r.range(10, 31));
        if (r.chance(0.05)) addOp(p, 0, "draw").set("k", r.range(1, 9)).set("kind", r.range(0, 3));
        if (r.chance(0.05)) addOp(p, 0, "vel");
        if (r.chance(0.04)) { addOp(p, 0, "twin").setU("s", s0 + 3000000 + c).set("T", T); continue; }
        addOp(p, 0, "noise").set("T", T);
        if (r.chance(0.03)) { addOp(p, 0, "grad"); addOp(p, 0, "update"); addOp(p, 0, "discretise"); }
    }
    if (r.chance(0.3)) genFaults(p, r, r.uni(0.02, 0.2));
    return p;
}
void execC08(const Plan& p) { NoiseChecker c; runChecked(p, c, "a simulation"); }
} // namespace sim
