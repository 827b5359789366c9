#include "app.h"
#include "solver.h"
#include <cmath>
#include "Optimise.h"
#include <new>

namespace sim {
using namespace slsm;

Cfg readCfg(const Plan& p, int node) {
    Cfg c;
    for (auto& l : p.lines) {
        if (l.num("n") != node) continue;
        if (l.kind == "cfg") { c.w = l.num("w", 12); c.h = l.num("h", 12); c.bw = l.num("bw", 6); c.init = l.num("init", 1); c.ml = l.dbl("ml", 0.5); c.fixed = l.num("fixed") != 0; }
        else if (l.kind == "hole") (l.str("set") == "t" ? c.tholes : c.holes).push_back(Hole(l.dbl("x"), l.dbl("y"), l.dbl("r")));
        else if (l.kind == "pt") (l.str("set") == "t" ? c.tpts : c.pts).push_back(Coord(l.dbl("x"), l.dbl("y")));
    }
    // A plan being minimised may have lost points; keep polygons usable.
    if ((c.init == 2 || c.init == 5) && c.pts.size() < 3) { c.pts = {Coord(2, 2), Coord(2, c.h - 2.5), Coord(c.w - 2.5, 2), Coord(2, 2)}; }
    if ((c.init == 4 || c.init == 5) && c.tpts.size() < 3) { c.tpts = {Coord(2, 2), Coord(2, c.h - 2.5), Coord(c.w - 2.5, 2), Coord(2, 2)}; }
    return c;
}

Status App::build(const Cfg& c) {
    cfg = c;
    try {
        LibScope L;
        switch (c.init) {
            case 0: ls.reset(new LevelSet(c.w, c.h, c.ml, c.bw, c.fixed)); break;
            case 2: ls.reset(new LevelSet(c.w, c.h, c.pts, c.ml, c.bw, c.fixed)); break;
            case 3: ls.reset(new LevelSet(c.w, c.h, c.holes, c.tholes, c.ml, c.bw, c.fixed)); break;
            case 4: ls.reset(new LevelSet(c.w, c.h, c.holes, c.tpts, c.ml, c.bw, c.fixed)); break;
            case 5: ls.reset(new LevelSet(c.w, c.h, c.pts, c.tpts, c.ml, c.bw, c.fixed)); break;
            default: ls.reset(new LevelSet(c.w, c.h, c.holes, c.ml, c.bw, c.fixed)); break;
        }
        b.reset(new Boundary());
        rng.reset(new MersenneTwister());
        rng->setSeed(4711);
    } catch (std::bad_alloc&) { return ST_BADALLOC; } catch (std::exception&) { return ST_EXC; }
    return ST_OK;
}

bool App::degenerate() const {
    bool pos = false, neg = false;
    for (double v : ls->signedDistance) { if (!(std::fabs(v) < 1e6)) return true; if (v > 1e-3) pos = true; if (v < 0 || v == 0) neg = true; }
    return !(pos && neg);
}

void App::assignVelocities(const Line& op, double dt) {
    // A smooth velocity field chosen by the plan, kept inside each point's
    // movement limits, which is what the optimiser does.
    double a = op.dbl("a", 1), kx = op.dbl("kx", 0.3), ky = op.dbl("ky", 0.2), ph = op.dbl("ph", 0), off = op.dbl("off", 0);
    for (auto& p : b->points) {
        double v = a * (std::sin(kx * p.coord.x + ky * p.coord.y + ph) + off);
        double d = v * dt;
        if (d > p.positiveLimit) d = p.positiveLimit;
        if (d < p.negativeLimit) d = p.negativeLimit;
        p.velocity = p.isFixed ? 0 : d / dt;
        p.sensitivities[0] = std::cos(kx * p.coord.x - ky * p.coord.y + ph);
        p.sensitivities[1] = 1.0;
    }
}

// kind 0: disc of radius a; kind 1: rectangle with half sides a and b, turned by ph
double Shape::d(double px, double py) const {
    double u = px - x, v = py - y; if (kind == 0) return a - std::hypot(u, v);
    double c = std::cos(ph), s = std::sin(ph), p = std::fabs(c * u + s * v) - a, q = std::fabs(-s * u + c * v) - b;
    return -(std::hypot(std::max(p, 0.0), std::max(q, 0.0)) + std::min(std::max(p, q), 0.0));
}
std::vector<Shape> readShapes(const Line& l) {
    std::vector<Shape> v; char k[8];
    for (int i = 0; i < 4; i++) { snprintf(k, sizeof k, "k%d", i); if (!l.has(k)) continue; Shape s; s.kind = l.num(k); auto g = [&](const char* n) { snprintf(k, sizeof k, "%s%d", n, i); return l.dbl(k); }; s.x = g("x"); s.y = g("y"); s.a = g("a"); s.b = g("b"); s.ph = g("ph"); v.push_back(s); }
    return v;
}
double shapesDistance(const std::vector<Shape>& s, bool material, double x, double y) {
    double m = -1e9; for (auto& q : s) m = std::max(m, q.d(x, y)); return material ? m : -m;
}
static const char* nz(const std::string& s) { return s.c_str(); }

struct CallbackError : std::runtime_error { CallbackError() : std::runtime_error("the user's function failed") {} };

// Sensitivities of the objective and constraints, chosen by the plan.
static void assignSensitivities(Boundary& b, const Line& op, unsigned nf) {
    double kx = op.dbl("kx", 0.3), ky = op.dbl("ky", 0.2), ph = op.dbl("ph", 0), sc = op.dbl("sc", 1);
    for (auto& p : b.points) {
        p.sensitivities.resize(std::max<size_t>(2, nf));
        p.sensitivities[0] = sc * (std::cos(kx * p.coord.x - ky * p.coord.y + ph) + op.dbl("o0", 0));
        if (nf > 1) p.sensitivities[1] = -1.0 + op.dbl("v1", 0) * std::sin(ky * p.coord.x + ph);
        if (nf > 2) p.sensitivities[2] = std::sin(kx * p.coord.y + 0.7 * ph) + op.dbl("o2", 0.3);
        if (nf > 3) p.sensitivities[3] = std::cos(0.5 * kx * p.coord.y + 1.7 * ph) + 0.1;
    }
}

Outcome App::apply(const Line& op) {
    Outcome o; std::string w = op.str("do");
    if (w == "build") { if (ls || dead) return o; o.st = build(cfg); return o; }
    if (w == "rebuild") {
        if (ls && op.num("keep")) kept.push_back(std::move(ls));
        ls.reset(); b.reset(); rng.reset(); boundaryFresh = targetBoundary = areaFresh = velFresh = gradFresh = normalsFresh = bandStale = dead = false; lastDt = -1; opt.ran = false;
        o.st = build(nextCfg); return o;
    }
    if (!ls || dead) return o;
    if (op.num("obs")) return observe(op);
    LevelSet& L = *ls;
    try {
        if (w == "refuse") {
            // arguments outside of the documented range
            Cfg c = cfg; c.bw = op.num("bw", c.bw); c.ml = op.dbl("ml", c.ml); c.init = op.num("init", c.init); c.w = op.num("w", c.w); c.h = op.num("h", c.h);
            App other; o.st = other.build(c);
        } else if (w == "lookup") {
            double x = op.dbl("x"), y = op.dbl("y"); lookups.clear(); std::vector<Coord> q{Coord(x, y)}; if (op.num("pts") && boundaryFresh) for (auto& p : b->points) q.push_back(p.coord);
            for (auto& c : q) { Lookup k; k.x = c.x; k.y = c.y; LibScope S; k.elem = L.mesh.getElement(c); k.elem2 = L.mesh.getElement(c.x, c.y); k.node = L.mesh.getClosestNode(c); k.node2 = L.mesh.getClosestNode(c.x, c.y); lookups.push_back(k); }
            o.st = ST_OK;
        } else if (w == "churn") {
            // a great many calls: on objects of their own, or observations by the simulation's
            int k = op.num("k", 10), what = op.num("what", 1); unsigned s = op.num("s");
            if (op.num("own")) {
                std::vector<Hole> hs{Hole(3, 3, 1.7)};
                for (int i = 0; i < k; i += 16) {
                    LibScope S; LevelSet q(6, 6, hs, 0.5, 3 + (s + i) % 5, (s & 1) != 0); Boundary qb; MersenneTwister t; t.setSeed(s + i);
                    for (int j = i; j < k && j < i + 16; j++) {
                        if (what & 3) qb.discretise(q);
                        if (what & 1) { q.computeAreaFractions(qb); qb.computeNormalVectors(q); }
                        if (what & 2) { for (size_t n = 0; n < qb.points.size(); n++) qb.points[n].velocity = 0.05 * std::sin(double(j + n)); double dt = 0.1; if (what & 4) q.computeVelocities(qb.points, dt, 1e-4, t); else q.computeVelocities(qb.points); q.computeGradients(); q.update(dt); }
                        if (what & 4) { t(); t.normal(); t.normal(1, 2); t.integer(0, 9); }
                        if (what & 8) q.reinitialise();
                        if (what & 16) { Mesh m(5, 4); m.getElement(2.5, 2.5); for (size_t n = 0; n < qb.points.size(); n++) qb.computePerimeter(qb.points[n]); }
                    }
                }
            } else {
                if (bandStale) return o;
                if (degenerate()) { dead = true; return o; }
                boundaryFresh = areaFresh = normalsFresh = velFresh = gradFresh = targetBoundary = false;
                for (int j = 0; j < std::min(k, (int)std::min(150u, 2 + 20000 / L.mesh.nNodes)); j++) {
                    LibScope S; b->discretise(L);
                    if (what & 1) L.computeAreaFractions(*b);
                    if (what & 2) b->computeNormalVectors(L);
                    if (what & 4) { for (size_t n = 0; n < b->points.size(); n++) b->points[n].velocity = 0.5; const std::vector<BoundaryPoint>& P = b->points; if (!P.empty()) { L.computeVelocities(P); L.computeGradients(); } }
                }
            }
            o.st = ST_OK;
        } else if (w == "mask_holes") {
            std::vector<Hole> hs; hs.push_back(Hole(op.dbl("x"), op.dbl("y"), op.dbl("r")));
            for (const char* k : {"2", "3", "4"}) { std::string s(k); if (op.has(("x" + s).c_str())) hs.push_back(Hole(op.dbl(("x" + s).c_str()), op.dbl(("y" + s).c_str()), op.dbl(("r" + s).c_str()))); }
            // A mask that swallows the last material leaves nothing to simulate.
            prepareDerived(); { LibScope S; L.mask(hs); } o.st = ST_OK;
        } else if (w == "mask_rect") {
            std::vector<Coord> c{Coord(op.dbl("x0"), op.dbl("y0")), Coord(op.dbl("x1"), op.dbl("y1"))};
            prepareDerived(); { LibScope S; L.mask(c); } o.st = ST_OK;
        } else if (w == "mask_poly") {
            std::vector<Coord> c; int k = op.num("k", 3); double cx = op.dbl("x"), cy = op.dbl("y"), rr = op.dbl("r"), ph = op.dbl("ph");
            for (int i = 0; i <= k; i++) { double t = ph - 2 * M_PI * (i % k) / k, q = (i % k) & 1 ? rr * op.dbl("star", 1) : rr; c.push_back(Coord(cx + q * std::cos(t), cy + q * std::sin(t))); }
            prepareDerived(); { LibScope S; L.mask(c); } o.st = ST_OK;
        } else if (w == "discretise") {
            if (bandStale) return o;
            if (degenerate()) { dead = true; return o; }
            boundaryFresh = areaFresh = normalsFresh = false; velFresh = gradFresh = false; targetBoundary = false;
            { LibScope S; b->discretise(L); } boundaryFresh = true; o.st = ST_OK; o.ret = b->length;
        } else if (w == "discretise_target") {
            if (L.target.empty()) return o;
            boundaryFresh = velFresh = gradFresh = areaFresh = normalsFresh = false; targetBoundary = true;
            { LibScope S; b->discretise(L, true); } o.st = ST_OK; o.ret = b->length;
        } else if (w == "area") {
            if (!boundaryFresh && !targetBoundary) return o;
            { LibScope S; o.ret = L.computeAreaFractions(*b); } areaFresh = true; o.st = ST_OK;
        } else if (w == "normals") {
            if (!boundaryFresh) return o;
            { LibScope S; b->computeNormalVectors(L); } normalsFresh = true; o.st = ST_OK;
        } else if (w == "setvel") {
            if (!boundaryFresh) return o;
            lastDt = op.dbl("dt", 0.5); assignVelocities(op, lastDt); o.st = ST_OK;
        } else if (w == "vel") {
            if (!boundaryFresh || b->points.empty()) return o;
            velFresh = gradFresh = false; if (lastDt < 0) lastDt = 0.5;
            { LibScope S; L.computeVelocities(const_cast<const std::vector<BoundaryPoint>&>(b->points)); } velFresh = true; o.st = ST_OK;
        } else if (w == "noise") {
            if (!boundaryFresh || b->points.empty()) return o;
            for (auto& p : b->points) if (!(p.length > 1e-4)) return o;
            velFresh = gradFresh = false; if (lastDt < 0) lastDt = 0.5;
            double dt = lastDt;
            struct Keep { double &to, &from; ~Keep() { to = from; } } keep{lastDt, dt};
            { LibScope S; o.ret = L.computeVelocities(b->points, dt, op.dbl("T", 0.01), *rng); } velFresh = true; o.st = ST_OK; fired(F_NOISE);
        } else if (w == "grad") {
            if (!velFresh) return o;
            { LibScope S; L.computeGradients(); } gradFresh = true; o.st = ST_OK;
        } else if (w == "update") {
            if (!gradFresh) return o;
            // CFL: the application never asks for a step that moves the interface further than the move limit.
            double vmax = 0; for (double v : L.velocity) if (std::fabs(v) > vmax) vmax = std::fabs(v);
            if (!(vmax < 1e8)) { dead = true; return o; }
            double dt = lastDt; if (vmax * dt > 0.9) dt = 0.9 / vmax;
            usedDt = dt; prepareDerived(); bool re; { LibScope S; re = L.update(dt); } simTime += dt; R->simTime += dt; o.ret = re; o.st = ST_OK;
            if (degenerate()) dead = true;
        } else if (w == "field") {
            // the application sets the level set itself
            std::vector<double> f = L.signedDistance; int k = op.num("kind"); uint64_t s = op.u64("s"); double a = op.dbl("a", 1), wl = op.dbl("wl", 0.5);
            auto u = [&](uint64_t i) { return (mix64(s + i) >> 11) * 0x1p-53; };
            bool pos = false, neg = false;
            for (size_t i = 0; i < f.size(); i++) {
                auto& n = L.mesh.nodes[i]; double x = n.coord.x, y = n.coord.y, v = f[i];
                if (k == 0) { v = 0; for (int j = 0; j < 3; j++) v += std::sin(wl * (2 * u(4 * j) - 1) * x + wl * (2 * u(4 * j + 1) - 1) * y + 6.3 * u(4 * j + 2)); v *= a; }
                else if (k == 1) v = a * (2 * u(100 + i) - op.dbl("bias", 1));
                else if (k == 2) v = 0.5 * (int)(u(100 + i) * 5) - 1;
                else if (k == 3) { if (u(100 + i) < wl) v = a * (2 * u(99999 + i) - 1); }
                else { if (u(100 + i) < wl) v = std::copysign(std::pow(10.0, -1 - 8 * u(99999 + i)), v); }
                if ((n.isDomain || n.isMasked) && v > 0) v = n.isMasked ? -1e-6 : 0;
                if (v > 1e-3) pos = true; if (v <= 0) neg = true;
                f[i] = v;
            }
            if (!pos || !neg) return o;
            prepareDerived(); for (size_t i = 0; i < f.size(); i++) L.signedDistance[i] = f[i];
            bandStale = true; boundaryFresh = targetBoundary = areaFresh = false; o.st = ST_OK;
        } else if (w == "shape") {
            std::vector<Shape> s = readShapes(op); if (s.empty()) return o;
            std::vector<double> f = L.signedDistance; bool far = op.num("flat");
            for (size_t i = 0; i < f.size(); i++) {
                double v = shapesDistance(s, op.num("mat"), L.mesh.nodes[i].coord.x, L.mesh.nodes[i].coord.y);
                if (L.mesh.nodes[i].isDomain && v > 0 && !op.num("open")) v = 0;
                if (far) v = std::max(-2.0, std::min(2.0, v));      // an application may only care about the neighbourhood of the interface
                f[i] = v;
            }
            prepareDerived(); for (size_t i = 0; i < f.size(); i++) L.signedDistance[i] = f[i];
            bandStale = true; boundaryFresh = targetBoundary = areaFresh = false; o.st = ST_OK;
        } else if (w == "flow") {
            if (!boundaryFresh) return o;
            int mode = op.num("mode"); if (mode && !normalsFresh) return o;
            lastDt = op.dbl("dt", 0.5); flowV = {double(mode), op.dbl("v"), op.dbl("ux"), op.dbl("uy"), op.dbl("om"), op.dbl("cx"), op.dbl("cy")};
            for (auto& p : b->points) {
                double v = mode == 0 ? flowV[1] : mode == 1 ? p.normal.x * flowV[2] + p.normal.y * flowV[3] : flowV[4] * (p.normal.y * (p.coord.x - flowV[5]) - p.normal.x * (p.coord.y - flowV[6]));
                p.velocity = p.isFixed ? 0 : v;
            }
            o.st = ST_OK;
        } else if (w == "keep_target") {
            if (!areaFresh || !targetBoundary) return o;
            targetArea.clear(); for (auto& e : L.mesh.elements) targetArea.push_back(e.area); o.st = ST_OK;
        } else if (w == "descend") {
            // one iteration of the demonstrations: sensitivities, then the optimiser
            int goalKind = op.num("goal"); if (!boundaryFresh || b->points.empty() || (goalKind == 1 && (!normalsFresh || !areaFresh))) return o;
            if (goalKind == 2 && L.target.empty()) return o;
            size_t nc = goalKind == 1; auto& P = b->points; std::vector<double> cd;
            if (goalKind == 0) for (auto& p : P) p.sensitivities[0] = op.num("sgn", 1);
            else if (goalKind == 1) {
                Boundary copy = *b; SensitivityCallback cb = [&](const BoundaryPoint& q) { return copy.computePerimeter(q); };
                for (auto& p : P) { double v = 0; if (p.length > 1e-3) { LibScope S; v = Sensitivity().computeSensitivity(p, cb); } p.sensitivities[0] = std::max(-5.0, std::min(5.0, v)); p.sensitivities[1] = -1; }
                cd.push_back(op.dbl("area") * cfg.w * cfg.h - L.area);
            } else for (auto& p : P) {
                unsigned n0 = L.mesh.getClosestNode(p.coord); double m = 0, wt = 0, one = 2;
                for (int i = -1; i < 4; i++) {
                    unsigned n = i < 0 ? n0 : L.mesh.nodes[n0].neighbours[i]; if (n >= L.mesh.nNodes) continue;
                    double dx = L.mesh.nodes[n].coord.x - p.coord.x, dy = L.mesh.nodes[n].coord.y - p.coord.y, r2 = dx * dx + dy * dy, q = L.target[n] - L.signedDistance[n];
                    if (r2 < 1e-6) { one = q; break; } m += q / r2; wt += 1 / r2;
                }
                double v = one != 2 ? one : m / wt; p.sensitivities[0] = std::max(-1.0, std::min(1.0, v));
            }
            if (lam.size() != nc + 1) lam.assign(nc + 1, 0);
            double m = 0; for (auto& p : P) if (!p.isFixed) m = std::max(m, std::fabs(p.sensitivities[0]));
            if (m < op.dbl("eps", 1e-3)) { for (auto& p : P) p.velocity = 0; lastDt = 1; descents++; o.ret = 1; o.st = ST_OK; return o; }     // nothing left to gain
            velFresh = gradFresh = false; double dt = 0; std::vector<double> kept = lam;
            SC = SolverCtl(); { std::string sc = op.str("script"), t; for (char c : sc + ",") if (c == ',') { if (!t.empty()) SC.script.push_back(t); t.clear(); } else t += c; if (op.has("rest")) SC.rest = op.str("rest"); }
            { LibScope S; std::vector<bool> eq; Optimise opt_(P, cd, lam, dt, L.moveLimit, false, eq); opt_.solve(); }
            bool ok = dt > 1e-9 && dt < 1e9; for (auto& p : P) if (!(std::fabs(p.velocity) < 1e9)) ok = false;
            bool still = dt == 0; for (auto& p : P) if (p.velocity != 0) still = false;      // the solver found nothing: the loop goes on
            bool finite = dt == dt; for (auto& p : P) if (!(std::fabs(p.velocity) <= 1e308)) finite = false;
            if (!finite) { o.ret = 3; o.st = ST_OK; for (auto& p : P) p.velocity = 0; lastDt = 1; descents++; return o; }
            if (still) { lastDt = 0; descents++; o.st = ST_OK; o.ret = 4; return o; }
            if (!ok) { lam.assign(nc + 1, 0); for (auto& p : P) p.velocity = 0; lastDt = 1; o.ret = 2; } else lastDt = dt;
            descents++; o.st = ST_OK;
        } else if (w == "reopen") {
            // everything goes, and comes back from a file
            std::string f = "reopened"; { LibScope S; io.saveLevelSetBIN(f, L); }
            Status s = build(cfg); if (s != ST_OK) { o.st = s; return o; }
            { LibScope S; io.loadLevelSetBIN(f, *ls); }
            boundaryFresh = targetBoundary = areaFresh = velFresh = gradFresh = normalsFresh = false; bandStale = true; o.st = ST_OK;
        } else if (w == "careless") {
            // copies that go on before the level set is reinitialised: the contour may be anywhere, inside of the band or not
            if (!bandStale || degenerate()) return o;
            LibScope S; LevelSet q(L); Boundary c; int what = op.num("what", 255);
            c.discretise(q); for (auto& g : c.segments) if (g.start >= c.points.size() || g.end >= c.points.size()) { fail("careless", "a segment of a boundary that has left the narrow band joins points that do not exist"); return o; }
            for (auto& pt : c.points) if (!(pt.coord.x >= 0 && pt.coord.x <= q.mesh.width && pt.coord.y >= 0 && pt.coord.y <= q.mesh.height)) { fail("careless", "a point of a boundary that has left the narrow band lies outside of the domain"); return o; }
            if (what & 1) { double x = q.computeAreaFractions(c); if (!std::isfinite(x)) { fail("careless", "the area is not finite"); return o; } }
            if (what & 2) c.computeNormalVectors(q);
            if (what & 4) for (auto& pt : c.points) c.computePerimeter(pt);
            if (what & 8) { for (auto& pt : c.points) pt.velocity = 0.1; q.computeVelocities(c.points); q.computeGradients(); q.update(0.5); c.discretise(q); }
            o.st = ST_OK;
        } else if (w == "reinit") {
            if (degenerate()) { dead = true; return o; }
            prepareDerived(); { LibScope S; L.reinitialise(); } bandStale = false; o.st = ST_OK;
        } else if (w == "ito") {
            if (!boundaryFresh || b->points.empty()) return o;
            for (auto& p : b->points) if (!(p.length > 1e-4)) return o;
            bool pre = op.num("pre") && normalsFresh; double T = op.dbl("T", 0.01);
            { LibScope S; if (op.has("d")) { Sensitivity s(op.dbl("d")); if (pre) s.itoCorrection(*b, T); else s.itoCorrection(*b, L, T); } else { Sensitivity s; if (pre) s.itoCorrection(*b, T); else s.itoCorrection(*b, L, T); } }
            if (T) normalsFresh = true; o.st = ST_OK;
        } else if (w == "perimeter") {
            if (!boundaryFresh) return o;
            perims.clear(); perims.reserve(b->points.size());
            double t = 0; for (auto& p : b->points) { double v; { LibScope S; v = b->computePerimeter(p); } perims.push_back(v); t += v; } o.ret = t; o.st = ST_OK;
        } else if (w == "sens") {
            if (!boundaryFresh) return o;
            sensCalls.clear(); sensOut.clear(); sensThrew = false;
            sensCalls.reserve(2 * b->points.size() + 4); sensOut.reserve(b->points.size());
            std::vector<Coord> orig; for (auto& p : b->points) orig.push_back(p.coord);
            long throwAt = op.num("throw", -1), calls = 0; int cur = 0; double q2 = op.dbl("q", 0.3), kx = op.dbl("kx", 0.4);
            SensitivityCallback cb = [&](const BoundaryPoint& q) {
                HarnessScope H;
                bool clean = &q == &b->points[cur];
                for (size_t i = 0; i < orig.size(); i++) if ((int)i != cur && memcmp(&orig[i], &b->points[i].coord, sizeof(Coord))) clean = false;
                double f = q.coord.x * q.coord.x + 0.5 * q.coord.y + q2 * q.coord.x * q.coord.y + std::sin(kx * q.coord.y);
                if (op.num("pc")) f += b->computePerimeter(q);      // the functional the demonstrations use
                sensCalls.push_back({cur, q.coord.x, q.coord.y, f, clean});
                if (throwAt >= 0 && calls++ == throwAt) { fired(F_CALLBACK_THROW); sensThrew = true; if (op.num("tk") == 1) throw 42; if (op.num("tk") == 2) throw std::string("the user's function failed"); throw CallbackError(); }
                return f; };
            double t = 0; Sensitivity s(op.dbl("delta", 1e-4));
            for (size_t i = 0; i < b->points.size(); i++) if (b->points[i].length > 1e-6) { cur = i; double v; { LibScope S; v = s.computeSensitivity(b->points[i], cb); } sensOut.push_back({cur, v}); t += v; }
            o.ret = t; o.st = ST_OK;
        } else if (w == "optimise") {
            if (!boundaryFresh || b->points.empty()) return o;
            unsigned nc = op.num("nc", 0); assignSensitivities(*b, op, nc + 1);
            std::vector<double> kept = opt.lambdas; bool again = opt.oom; opt = OptRec(); opt.nc = nc; opt.l0 = op.dbl("l0", 0); opt.isMax = op.num("max"); opt.maxDisp = op.dbl("md", 0.5);
            for (unsigned i = 0; i < nc; i++) { char k[8]; snprintf(k, sizeof k, "cd%u", i + 1); opt.cd.push_back(op.dbl(k, 0)); opt.eq.push_back(op.num("eq") >> i & 1); }
            opt.lambdas.assign(nc + 1, op.dbl("l0", 0)); if (again) opt.lambdas = kept;    // trying again with the variables the failed call was given
            if (op.num("noeq")) opt.eq.clear();
            // every function has to depend on some point that can move
            for (unsigned k = 0; k <= nc; k++) { double m = 0; for (auto& p : b->points) if (!p.isFixed && p.length > 1e-6) m = std::max(m, std::fabs(p.sensitivities[k])); if (m < 1e-6) return o; }
            opt.dt = 0;
            velFresh = gradFresh = false;
            std::vector<double> cd = opt.cd; int prior = op.num("prior"); std::vector<BoundaryPoint> real = b->points;
            // an optimiser that ran out of memory may be asked again, and one may serve several problems in turn
            bool kept_ = again && op.num("reuse") && optObj;
            try {
                if (!kept_) { LibScope S; optObj.reset(); optObj.reset(new Optimise(b->points, cd, opt.lambdas, opt.dt, opt.maxDisp, opt.isMax, opt.eq)); }
                if (prior && !kept_) {
                    SC = SolverCtl(); if (op.num("pround")) SC.script.push_back("roundoff");
                    double pf = op.dbl("pf"); auto& P = b->points;
                    for (size_t i = 0; i < P.size(); i++) { for (unsigned k = 0; k <= nc; k++) P[i].sensitivities[k] *= std::exp(2 * std::sin(pf * (k + 1))); if (prior == 3) P[i].isFixed = false; }
                    if (prior == 2) for (size_t i = 0; i < real.size(); i++) { BoundaryPoint q = P[i]; P.push_back(q); }
                    { LibScope S; optObj->solve(); }
                    P = real; opt.lambdas.assign(nc + 1, opt.l0); opt.dt = 0;
                }
                SC = SolverCtl(); { std::string sc = op.str("script"), t; for (char c : sc + ",") if (c == ',') { if (!t.empty()) SC.script.push_back(t); t.clear(); } else t += c; if (op.has("rest")) SC.rest = op.str("rest"); }
                { LibScope S; opt.ret = optObj->solve(); optObj.reset(); }
            } catch (std::bad_alloc&) { b->points = real; opt.oom = true; if (!op.num("reuse")) { LibScope S; optObj.reset(); } throw; }
            opt.ran = true; o.ret = opt.ret; o.st = ST_OK; opt.vel.clear(); for (auto& p : b->points) opt.vel.push_back(p.velocity);
            bool ok = opt.dt > 1e-9 && opt.dt < 1e9; for (auto& p : b->points) if (!(std::fabs(p.velocity) < 1e9)) ok = false;
            // an undefined step (zero multiplier) ends the application's loop
            // (with no step at all, it goes on: nothing moves)
            if (ok || opt.dt == 0) lastDt = opt.dt; else for (auto& p : b->points) p.velocity = 0;
        } else if (w == "fmm") {
            if (degenerate()) { dead = true; return o; }
            fmmIn = L.signedDistance;
            // values close to zero away from any change of sign, and rough fields
            if (double q = op.dbl("nq")) {
                uint64_t s = op.u64("ns"); double e = op.dbl("ne", 6), mag = std::pow(10.0, -e);
                for (size_t i = 0; i < fmmIn.size(); i++) {
                    uint64_t k = mix64(s + i); if ((k >> 11) * 0x1p-53 >= q) continue;
                    double f = 0.5 + ((mix64(k) >> 11) * 0x1p-53); fmmIn[i] = std::copysign(mag * f, op.num("nf") && (k & 1) ? -fmmIn[i] : fmmIn[i]);
                }
            }
            fmmA = fmmIn; fmmB = fmmIn;
            if (!op.num("other")) { LibScope S; FastMarchingMethod f(L.mesh, op.num("test")); f.march(fmmA); f.march(fmmB); }
            else {
                // a march of something else first, possibly one that runs out of memory
                double c = op.dbl("shift"); std::vector<double> x = fmmIn; bool pos = false, neg = false;
                for (auto& v : x) { v += c; if (v > 1e-3) pos = true; if (v < -1e-3) neg = true; }
                if (!pos || !neg) { x = fmmIn; for (auto& v : x) v = -v; }
                fmmV.assign(x.size(), 0); for (size_t i = 0; i < x.size(); i++) fmmV[i] = std::sin(0.37 * i); fmmVA = fmmVB = fmmV; fmmSA = fmmIn;
                std::vector<double> vx = fmmV;
                {
                    LibScope S; FastMarchingMethod f(L.mesh, op.num("test"));
                    try { if (op.num("velx")) f.march(x, vx); else f.march(x); } catch (std::bad_alloc&) {}
                    f.march(fmmB); { FastMarchingMethod g(L.mesh, false); g.march(fmmA); }
                    if (op.num("velm")) { f.march(fmmSA, fmmVB); FastMarchingMethod g(L.mesh, false); g.march(fmmSA, fmmVA); }
                }
            }
            o.st = ST_OK;
        } else if (w == "twin") {
            // the same noise on top of a velocity field and on top of nothing
            if (!boundaryFresh || b->points.empty()) return o;
            for (auto& p : b->points) if (!(p.length > 1e-4)) return o;
            std::vector<BoundaryPoint> A = b->points, B = b->points; for (auto& p : B) p.velocity = 0; velFresh = gradFresh = false;
            double d1 = lastDt >= 0 ? lastDt : 0.5, d2 = d1; unsigned s = op.u64("s", 1);
            { LibScope S; rng->setSeed(s); L.computeVelocities(A, d1, op.dbl("T", 0.01), *rng); rng->setSeed(s); L.computeVelocities(B, d2, op.dbl("T", 0.01), *rng); }
            draws.clear(); for (size_t i = 0; i < A.size(); i++) { draws.push_back(A[i].velocity - B[i].velocity); draws.push_back(b->points[i].velocity); draws.push_back(B[i].velocity); }
            draws.push_back(d1); draws.push_back(d2); o.st = ST_OK;
        } else if (w == "ckpt") {
            if (degenerate()) { dead = true; return o; }
            prepareDerived();
            { LibScope S; io.saveLevelSetBIN((unsigned)op.num("k"), L, "ck"); L.reinitialise(); rng->setSeed((unsigned)op.u64("s", 1)); }
            lastDt = 0.5; o.st = ST_OK;
        } else if (w == "seed") {
            LibScope S; rng->setSeed((unsigned)op.u64("s", 1)); o.st = ST_OK;
        } else if (w == "draw") {
            int k = op.num("k", 1), kind = op.num("kind"); double t = 0; draws.clear();
            for (int i = 0; i < k; i++) { double v; { LibScope S; switch ((kind + i) % 4) { case 0: v = (*rng)(); break; case 1: v = rng->normal(); break; case 2: v = rng->normal(0, 2); break; default: v = rng->integer(0, 100); } } draws.push_back(v); t += v * (i + 1); } o.ret = t; o.st = ST_OK;
        } else if (w == "save") {
            std::string k = op.str("kind", "bin"), f = op.str("file", "out"); bool xy = op.num("xy"), v = op.num("v"), g = op.num("g");
            bool dp = op.has("dp"); unsigned d = op.num("dp"); std::string dir = op.str("dir", "");
            if ((k == "area_vtk" || k == "area_txt") && !areaFresh && !op.num("force")) return o;
            if ((k == "points" || k == "segments") && !boundaryFresh && !targetBoundary) return o;
            std::string fn(nz(f));
            {
                LibScope S;
                if (k == "bin") { if (dp) io.saveLevelSetBIN(d, L, dir); else io.saveLevelSetBIN(fn, L); }
                else if (k == "txt") { if (dp) io.saveLevelSetTXT(d, L, dir, xy); else io.saveLevelSetTXT(fn, L, xy); }
                else if (k == "vtk") { if (dp) io.saveLevelSetVTK(d, L, v, g, dir); else io.saveLevelSetVTK(fn, L, v, g); }
                else if (k == "points") { if (dp) io.saveBoundaryPointsTXT(d, *b, dir); else io.saveBoundaryPointsTXT(fn, *b); }
                else if (k == "segments") { if (dp) io.saveBoundarySegmentsTXT(d, *b, dir); else io.saveBoundarySegmentsTXT(fn, *b); }
                else if (k == "area_vtk") { if (dp) io.saveAreaFractionsVTK(d, L.mesh, dir); else io.saveAreaFractionsVTK(fn, L.mesh); }
                else if (k == "area_txt") { if (dp) io.saveAreaFractionsTXT(d, L.mesh, dir, xy); else io.saveAreaFractionsTXT(fn, L.mesh, xy); }
            }
            o.st = ST_OK;
        } else if (w == "load") {
            std::string k = op.str("kind", "bin"), f = op.str("file", "out"); bool xy = op.num("xy");
            bool dp = op.has("dp"); unsigned d = op.num("dp"); std::string dir = op.str("dir", "");
            std::string fn(nz(f));
            prepareDerived();
            {
                LibScope S;
                if (k == "bin") { if (dp) io.loadLevelSetBIN(d, L, dir); else io.loadLevelSetBIN(fn, L); }
                else { if (dp) io.loadLevelSetTXT(d, L, dir, xy); else io.loadLevelSetTXT(fn, L, xy); }
            }
            bandStale = true; boundaryFresh = targetBoundary = areaFresh = false;
            o.st = ST_OK;
        } else if (w == "smear") {
            smearStack((uint8_t)op.num("b", 0xAB)); fired(F_STACK_GARBAGE); o.st = ST_OK;
        }
    } catch (std::bad_alloc&) { t_lib = 0; o.st = ST_BADALLOC; } catch (std::exception&) { t_lib = 0; o.st = ST_EXC; } catch (int) { t_lib = 0; o.st = ST_EXC; } catch (std::string&) { t_lib = 0; o.st = ST_EXC; }
    return o;
}

// Observers work on a boundary object of their own and leave the application's alone.
Outcome App::observe(const Line& op) {
    Outcome o; std::string w = op.str("do"); LevelSet& L = *ls;
    if (w != "save" && degenerate()) return o;
    if (op.num("own")) {        // functions that only look at the application's own boundary
        if (!boundaryFresh) return o;
        uint64_t d0 = digest(), h = 99;
        try {
            if (w == "perimeter") for (auto& p : b->points) { double v; { LibScope S; v = b->computePerimeter(p); } h = hashBytes(&v, 8, h); }
            else { SensitivityCallback cb = [](const BoundaryPoint& q) { HarnessScope H; return std::sin(q.coord.x) + 0.5 * q.coord.y * q.coord.y; }; Sensitivity s(op.dbl("delta", 1e-4)); for (auto& p : b->points) if (p.length > 1e-6) { double v; { LibScope S; v = s.computeSensitivity(p, cb); } h = hashBytes(&v, 8, h); } }
            union { uint64_t u; double d; } c; c.u = h >> 12 | 0x3ff0000000000000ULL; o.ret = c.d; o.st = ST_OK;
        } catch (std::bad_alloc&) { t_lib = 0; o.st = ST_BADALLOC; } catch (std::exception&) { t_lib = 0; o.st = ST_EXC; }
        if (digest() != d0) fail("observer-effect", "%s changed the boundary or the level set it looked at", w.c_str());
        R->checks++; return o;
    }
    if (w == "clone") {          // the simulation goes on with copies of its objects
        int what = op.num("what", 7); uint64_t d0 = digest();
        try {
            LibScope S; optObj.reset();
            if (what & 1) { std::unique_ptr<LevelSet> q(new LevelSet(*ls)); ls = std::move(q); }
            if (what & 2 && b) { std::unique_ptr<Boundary> q(new Boundary(*b)); b = std::move(q); }
            if (what & 4 && rng) { std::unique_ptr<MersenneTwister> q(new MersenneTwister(*rng)); rng = std::move(q); }
            o.st = ST_OK;
        } catch (std::bad_alloc&) { t_lib = 0; o.st = ST_BADALLOC; } catch (std::exception&) { t_lib = 0; o.st = ST_EXC; }
        if (digest() != d0) fail("observer-effect", "a copy of the simulation's objects differs from the original");
        R->checks++; return o;
    }
    if (bandStale && w != "save" && !op.num("target")) return o;
    if (!ob) ob.reset(new Boundary());
    try {
        bool tgt = op.num("target"); if (tgt && (L.target.empty() || boundaryFresh)) return o;
        if (!tgt && targetBoundary && w != "save") return o;      // area fractions belong to the latest discretisation
        uint64_t h = 99;
        if (w == "save") {
            std::string fn = op.str("file", "obs"); int k = op.num("kind") % 3; bool v = op.num("v"), g = op.num("g");
            { LibScope S; if (k == 0) io.saveLevelSetBIN(fn, L); else if (k == 1) io.saveLevelSetTXT(fn, L, v); else io.saveLevelSetVTK(fn, L, v, g); }
            std::string d; fsGet(fn.c_str(), d); h = hashBytes(d.data(), d.size(), h);
        } else {
            { LibScope S; if (tgt) ob->discretise(L, true); else ob->discretise(L); }
            h = digestBoundary(*ob, h);
            if (w == "area") { double a; { LibScope S; a = L.computeAreaFractions(*ob); } h = hashBytes(&a, 8, h); for (auto& e : L.mesh.elements) h = hashBytes(&e.area, 8, h); }
            else if (w == "churn") {
                for (int j = 0, k = std::min<long>(op.num("k", 10), std::min(300u, 2 + 40000 / L.mesh.nNodes)); j < k; j++) {
                    uint64_t h1 = 99; double a; { LibScope S; if (tgt) ob->discretise(L, true); else ob->discretise(L); a = L.computeAreaFractions(*ob); } h1 = hashBytes(&a, 8, digestBoundary(*ob, h1));
                    if (j && h1 != h) { fail("not-repeatable", "discretising for the %dth time gave another answer", j + 1); break; }
                    h = h1;
                }
            }
            else if (w == "normals") { if (!tgt) { { LibScope S; ob->computeNormalVectors(L); } h = digestBoundary(*ob, h); } }
            else if (w == "perimeter") { for (auto& p : ob->points) { double v; { LibScope S; v = ob->computePerimeter(p); } h = hashBytes(&v, 8, h); } }
            else if (w == "sens") {
                SensitivityCallback cb = [](const BoundaryPoint& q) { HarnessScope H; return q.coord.x * q.coord.x + 0.5 * q.coord.y; };
                Sensitivity s; if (!tgt) { LibScope S; ob->computeNormalVectors(L); }
                for (auto& p : ob->points) if (p.length > 1e-6) { double v; { LibScope S; v = s.computeSensitivity(p, cb); } h = hashBytes(&v, 8, h); }
            } else if (w == "ito") {
                bool ok = !tgt; for (auto& p : ob->points) if (!(p.length > 1e-4)) ok = false;
                if (ok) { { LibScope S; Sensitivity s; s.itoCorrection(*ob, L, op.dbl("T", 0.01)); } h = digestBoundary(*ob, h); }
            } else if (w == "vel") {
                if (tgt || velFresh || ob->points.empty()) return o;      // only where the field is recomputed afterwards
                for (auto& p : ob->points) p.velocity = std::sin(p.coord.x);
                { LibScope S; L.computeVelocities(const_cast<const std::vector<BoundaryPoint>&>(ob->points)); } h = hashDoubles(L.velocity, h);
                if (op.num("g")) { { LibScope S; L.computeGradients(); } h = hashDoubles(L.gradient, h); }
            }
            if (tgt) areaFresh = false;
        }
        union { uint64_t u; double d; } c; c.u = h >> 12 | 0x3ff0000000000000ULL; o.ret = c.d; o.st = ST_OK;
    } catch (std::bad_alloc&) { t_lib = 0; o.st = ST_BADALLOC; } catch (std::exception&) { t_lib = 0; o.st = ST_EXC; }
    return o;
}

uint64_t hashDoubles(const std::vector<double>& v, uint64_t h) { size_t n = v.size(); h = hashBytes(&n, sizeof n, h); return n ? hashBytes(&v[0], n * sizeof(double), h) : h; }
static uint64_t hd(double d, uint64_t h) { return hashBytes(&d, 8, h); }
static uint64_t hu(uint64_t d, uint64_t h) { return hashBytes(&d, 8, h); }

uint64_t digestBoundary(const Boundary& b, uint64_t h) {
    h = hu(b.points.size(), h); if (b.points.empty()) return h;
    h = hu(b.nPoints, h); h = hu(b.nSegments, h); h = hd(b.length, h);
    for (auto& p : b.points) {
        h = hd(p.coord.x, h); h = hd(p.coord.y, h); h = hd(p.normal.x, h); h = hd(p.normal.y, h); h = hd(p.length, h); h = hd(p.velocity, h);
        h = hd(p.negativeLimit, h); h = hd(p.positiveLimit, h); h = hu(p.isDomain, h); h = hu(p.isFixed, h);
        h = hu(p.nSegments, h); for (unsigned i = 0; i < p.nSegments && i < p.segments.size(); i++) h = hu(p.segments[i], h);
        h = hu(p.nNeighbours, h); for (unsigned i = 0; i < p.nNeighbours && i < p.neighbours.size(); i++) h = hu(p.neighbours[i], h);
        h = hashDoubles(p.sensitivities, h);
    }
    for (auto& s : b.segments) { h = hu(s.start, h); h = hu(s.end, h); h = hu(s.element, h); h = hd(s.length, h); }
    return h;
}
uint64_t digestMeshFlags(const LevelSet& ls, uint64_t h) {
    for (auto& n : ls.mesh.nodes) h = hu((n.isActive ? 1 : 0) | (n.isDomain ? 2 : 0) | (n.isMasked ? 4 : 0) | (n.isMine ? 8 : 0), h);
    return h;
}
uint64_t App::digestSd() const { return ls ? hashDoubles(ls->signedDistance, 7) : 7; }
uint64_t App::digestEvolution() const {
    uint64_t h = 1469598103934665603ULL; if (!ls) return h;
    h = hashDoubles(ls->signedDistance, h); h = hashDoubles(ls->target, h);
    h = hu(ls->nNarrowBand, h); for (unsigned i = 0; i < ls->nNarrowBand; i++) h = hu(ls->narrowBand[i], h);
    h = hu(ls->nMines, h); for (unsigned i = 0; i < ls->nMines; i++) h = hu(ls->mines[i], h);
    h = digestMeshFlags(*ls, h);
    return h;
}
uint64_t App::digest() const {
    uint64_t h = digestEvolution(); if (!ls) return h;
    if (velFresh) h = hashDoubles(ls->velocity, h);
    if (gradFresh) h = hashDoubles(ls->gradient, h);
    if (boundaryFresh || targetBoundary) h = digestBoundary(*b, h);
    if (areaFresh) { h = hd(ls->area, h); for (auto& e : ls->mesh.elements) h = hd(e.area, h); }
    return h;
}

// ---------------------------------------------------------------- generation
Line& addOp(Plan& p, int node, const char* what) { Line& l = p.add("op"); l.set("n", node).set("do", what); return l; }

uint64_t seedValue(Rng& r) {
    static const uint64_t k[] = {0, 1, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 4711, 5489};
    return r.chance(0.85) ? r.below(100000) : r.chance(0.4) ? k[r.below(7)] : r.below(0x100000000ULL);
}
static void genPoly(Plan& p, Rng& r, int node, const char* set, int w, int h, bool lattice) {
    double cx = r.uni(0.35, 0.65) * w, cy = r.uni(0.35, 0.65) * h, R0 = std::min(w, h) * r.uni(0.18, 0.34);
    int k = r.range(3, 8); double ph = r.uni(0, 6.28), lo = 0.7, hi = 1.15; std::vector<std::pair<double, double>> v;
    if (r.chance(0.2)) { k = r.range(6, 16); lo = 0.4; hi = 1.3; }           // far from convex
    for (int i = 0; i < k; i++) {
        double t = ph - 2 * M_PI * (i + r.uni(-0.2, 0.2)) / k, q = R0 * r.uni(lo, hi), x = cx + q * std::cos(t), y = cy + q * std::sin(t);
        if (lattice) { x = std::floor(x * 2 + 0.5) / 2; y = std::floor(y * 2 + 0.5) / 2; }
        v.push_back({x, y});
    }
    v.push_back(v[0]);
    for (auto& q : v) p.add("pt").set("n", node).set("set", set).set("x", q.first).set("y", q.second);
}
static void genHoles(Plan& p, Rng& r, int node, const char* set, int w, int h, bool lattice, bool domain) {
    int k = r.chance(0.93) ? r.range(1, 5) : r.range(6, 12); double m = std::min(w, h);
    for (int i = 0; i < k; i++) {
        double x, y, rad = r.chance(0.96) ? r.uni(1.3, std::max(1.6, m / (k > 5 ? 5.0 : 3.2))) : r.uni(0.05, 1.3);
        if (domain) { x = r.uni(-0.05, 1.05) * w; y = r.uni(-0.05, 1.05) * h; }
        else { double lim = std::min(rad + 0.6, m * 0.45); x = r.uni(lim, w - lim); y = r.uni(lim, h - lim); }
        if (lattice) { x = std::floor(x * 2 + 0.5) / 2; y = std::floor(y * 2 + 0.5) / 2; rad = std::floor(rad * 2 + 0.5) / 2; }
        p.add("hole").set("n", node).set("set", set).set("x", x).set("y", y).set("r", rad);
    }
    // two small holes on opposite corners of an element: a saddle, possibly with a value of exactly zero at its centre
    if (lattice && r.chance(0.3)) {
        int x = r.range(2, w - 3), y = r.range(2, h - 3), s = r.chance(0.5) ? 1 : -1; double rad = r.chance(0.5) ? 0.5 : r.uni(0.2, 0.8);
        for (int i = 0; i < 2; i++) p.add("hole").set("n", node).set("set", set).set("x", (double)(x + i)).set("y", (double)(s > 0 ? y + i : y + 1 - i)).set("r", rad);
    }
}
void genCfg(Plan& p, Rng& r, int node, const GenOpt& o) {
    int w = r.range(o.minW, o.maxW), h = r.chance(0.3) ? w : r.range(o.minW, o.maxW);
    if (r.chance(o.pBig)) { w = r.range(30, o.bigW); h = r.chance(0.5) ? r.range(6, 20) : r.range(20, o.bigW); if (r.chance(0.5)) std::swap(w, h); }
    bool wide = r.chance(o.pWide); if (wide) { w = r.range(120, 300); h = r.range(4, 9); if (r.chance(0.5)) std::swap(w, h); }       // indices beyond 8 bits
    bool huge = r.chance(o.pHuge); if (huge) { w = r.range(225, 300); h = 66000 / w + r.range(1, 8); if (r.chance(0.5)) std::swap(w, h); }  // and beyond 16
    bool lattice = r.chance(o.pLattice);
    int init = 1; bool rich = o.pPoints > 0 && !wide && !huge && r.chance(0.012);          // nearly every node at the band's edge is a mine
    if (rich) { init = r.chance(0.85) ? 1 : 2; w = r.range(6, 22); h = r.range(6, 22); }
    else if (r.chance(o.pSwiss) && !huge) { init = 0; int m = r.chance(0.6) ? 84 : o.swissMax; w = r.range(75, m); h = r.range(75, r.chance(0.5) ? m : 84); if (r.chance(0.5)) std::swap(w, h); }
    else if (r.chance(o.pTarget)) init = r.range(3, 5);
    else if (r.chance(o.pPoints)) init = 2;
    double ml = r.chance(0.4) ? 0.5 : r.chance(0.93) ? r.uni(0.05, 0.9) : r.chance(0.5) ? r.uni(0.9, 0.99) : r.uni(0.005, 0.05);
    int bw = r.chance(0.4) ? 6 : r.chance(0.95) ? r.range(3, 9) : r.range(10, 18);
    if (o.pNarrow > 0 && r.chance(o.pNarrow)) { bw = r.range(3, 4); ml = r.uni(0.4, 0.95); }
    if (rich) bw = 3;
    if (std::max(w, h) > 28 && r.chance(0.25)) bw = r.range(9, 40);
    p.add("cfg").set("n", node).set("w", w).set("h", h).set("ml", ml).set("bw", bw).set("fixed", (int)r.chance(o.pFixed)).set("init", init);
    bool dom = r.chance(o.pDomainHoles);
    if (rich && init == 1) {
        int gap = r.range(5, 7); double rad = r.uni(0.3, 1.2), x0 = r.uni(1, gap), y0 = r.uni(1, gap); if (lattice) { x0 = std::floor(x0); y0 = std::floor(y0); }
        for (double x = x0; x < w; x += gap) for (double y = y0; y < h; y += gap) p.add("hole").set("n", node).set("set", "i").set("x", x).set("y", y).set("r", rad);
        return;
    }
    if (init == 1 || init == 3 || init == 4) genHoles(p, r, node, "i", w, h, lattice, dom);
    if (init == 2 || init == 5) genPoly(p, r, node, "i", w, h, lattice);
    if (init == 3) genHoles(p, r, node, "t", w, h, lattice, dom);
    if (init == 4 || init == 5) genPoly(p, r, node, "t", w, h, lattice);
}
void genMask(Plan& p, Rng& r, int node, int w, int h) {
    int k = r.range(0, 2);
    if (r.chance(0.15)) {                  // a mask aligned with the grid
        int x = r.range(0, w), y = r.range(0, h), d = r.range(1, 3); bool half = r.chance(0.3);
        if (k == 0) addOp(p, node, "mask_holes").set("x", (double)x).set("y", (double)y).set("r", d + (half ? 0.5 : 0.0));
        else if (k == 1) { double x0 = x - 1, y0 = y - 1; addOp(p, node, "mask_rect").set("x0", x0).set("y0", y0).set("x1", x0 + d + 1).set("y1", y0 + 2 + (half ? 0.5 : 0.0)); }
        else addOp(p, node, "mask_poly").set("x", (double)x).set("y", (double)y).set("r", (double)d).set("k", 4).set("ph", half ? M_PI / 4 : 0.0);
        return;
    }
    if (k == 0) { Line& l = addOp(p, node, "mask_holes"); l.set("x", r.uni(0, w)).set("y", r.uni(0, h)).set("r", r.uni(0.8, 3.0)); static const char* kk[] = {"2", "3", "4"}; if (r.chance(0.4)) for (int i = 0, m = r.chance(0.6) ? 1 : r.range(2, 3); i < m; i++) { std::string s(kk[i]); l.set(("x" + s).c_str(), r.uni(0, w)).set(("y" + s).c_str(), r.uni(0, h)).set(("r" + s).c_str(), r.uni(0.8, 2.5)); } }
    else if (k == 1) { double x0 = r.uni(-1, w - 2), y0 = r.uni(-1, h - 2); addOp(p, node, "mask_rect").set("x0", x0).set("y0", y0).set("x1", x0 + r.uni(1.2, 5)).set("y1", y0 + r.uni(1.2, 5)); }
    else { Line& l = addOp(p, node, "mask_poly"); l.set("x", r.uni(1, w - 1)).set("y", r.uni(1, h - 1)).set("r", r.uni(1.2, 3.5)).set("k", r.range(3, 7)).set("ph", r.uni(0, 6.28)); if (r.chance(0.25)) l.set("k", 2 * (int)r.range(3, 6)).set("star", r.uni(0.35, 0.9)); }
}
void genHistory(Plan& p, Rng& r, int node, const HistOpt& o, const GenOpt& g) {
    int w = 12, h = 12; double ml = 0.5;
    for (auto& l : p.lines) if (l.kind == "cfg" && l.num("n") == node) { w = l.num("w"); h = l.num("h"); ml = l.dbl("ml"); }
    if (o.mask && r.chance(g.pMask)) { genMask(p, r, node, w, h); if (r.chance(0.2)) genMask(p, r, node, w, h); }
    if (r.chance(0.7)) addOp(p, node, "reinit");
    addOp(p, node, "seed").setU("s", seedValue(r));
    int steps = r.range(o.minSteps, o.maxSteps);
    double kx = r.uni(-0.6, 0.6), ky = r.uni(-0.6, 0.6), off = r.uni(-0.8, 0.8), T = r.logUni(1e-5, 0.2);
    for (int s = 0; s < steps; s++) {
        addOp(p, node, "discretise");
        if (r.chance(o.pArea)) addOp(p, node, "area");
        if (r.chance(o.pNormals)) addOp(p, node, "normals");
        double dt = r.chance(0.5) ? 0.5 : r.logUni(0.02, 2);
        addOp(p, node, "setvel").set("dt", dt).set("a", ml / dt * r.uni(0.2, 1.1)).set("kx", kx + r.uni(-0.1, 0.1)).set("ky", ky).set("ph", r.uni(0, 6.28)).set("off", off);
        if (r.chance(o.pIto)) addOp(p, node, "ito").set("T", T);
        if (r.chance(o.pNoise)) addOp(p, node, "noise").set("T", T); else addOp(p, node, "vel");
        addOp(p, node, "grad");
        addOp(p, node, "update");
        if (r.chance(o.pReinit)) addOp(p, node, "reinit");
        if (o.mask && r.chance(o.pMaskMid)) genMask(p, r, node, w, h);
    }
}

} // namespace sim
