// End to end: the front of a whole simulation, judged against the exact solution.
#include "hist.h"
#include "solver.h"
#include <algorithm>
#include <cmath>
#include <map>

namespace sim {
using namespace slsm;
typedef std::vector<double> V;
static Plan start(const char* id, uint64_t seed, Rng& r) { Plan p; p.add("prop").set("id", id).setU("seed", seed); genKnobs(p, r); return p; }
static Rng rngFor(const char* id, uint64_t seed) { return Rng(mix64(seed * 31 + hashBytes(id, strlen(id)))); }

// ---------------------------------------------------------------- C21
// The application draws shapes whose signed distance is known, and prescribes velocities for which the motion of the
// front is known too: a uniform normal speed (the front is a level of the initial distance), a translation, a rotation.
struct MotionChecker : Checker {
    std::vector<Shape> s; bool mat = true; double in = 0; V sd; bool have = false; double path = 0; int steps = 0, re = 0;
    double worst = 0; std::string cal;
    void before(App& a, const Line&) override { sd = a.ls ? a.ls->signedDistance : V(); }
    void after(App& a, const Line& op, const Outcome& r) override {
        std::string w = op.str("do");
        if (w == "shape" && r.st == ST_OK) { s = readShapes(op); mat = op.num("mat"); in = path = 0; steps = re = 0; have = true; }
        if (!have) return;
        if (w == "update" && a.ls->signedDistance != sd) moved(a);
        if (steps && ((w == "reinit" && r.st == ST_OK) || (w == "update" && r.ret))) re++;
        if (w == "discretise" && r.st == ST_OK) judge(a);
        if (w == "area" && r.st == ST_OK && (!getenv("SIM_CAL") || steps >= atoi(getenv("SIM_CAL")))) judgeArea(a);
    }
    void moved(App& a) {
        double dt = a.usedDt; const V& f = a.flowV; steps++;
        if (f[0] == 0) { in += f[1] * dt; path += std::fabs(f[1]) * dt; }
        else if (f[0] == 1) { for (auto& q : s) { q.x += f[2] * dt; q.y += f[3] * dt; } path += std::hypot(f[2], f[3]) * dt; }
        else { double t = f[4] * dt, c = std::cos(t), z = std::sin(t); for (auto& q : s) { double u = q.x - f[5], v = q.y - f[6]; q.x = f[5] + c * u - z * v; q.y = f[6] + z * u + c * v; q.ph += t; path += std::hypot(u, v) * std::fabs(t); } }
    }
    double exact(double x, double y) const { return shapesDistance(s, mat, x, y) - in; }
    double edge(App& a, double x, double y) const { return std::min(std::min(x, a.cfg.w - x), std::min(y, a.cfg.h - y)); }
    // too small to be resolved: neither judged nor carried on
    bool gone(App& a) const {
        double m = -1e9, v = -1e9; for (auto& q : s) { m = std::max(m, std::min(q.a, q.kind ? q.b : q.a) - (mat ? in : -in)); (void)v; if (std::min(q.a, q.kind ? q.b : q.a) - (mat ? in : -in) < 3.2) return true; (void)a; }
        return m < 3.2;
    }
    int mode(App& a) const { return a.flowV.empty() ? 0 : (int)a.flowV[0]; }
    double tol() const { return s[0].kind ? 1 + 0.07 * path + 0.045 * re : s.size() > 1 ? 0.5 + 0.08 * path + 0.045 * re : 0.3 + 0.05 * path + 0.04 * re; }
    void judge(App& a) {
        if (gone(a)) { a.dead = true; return; } R->checks++; R->nontrivial |= steps > 0; probe(1);
        for (auto& p : a.b->points) {
            double e = edge(a, p.coord.x, p.coord.y); if (!mat && e < (mode(a) ? 0 : std::fabs(in)) + 2.5) continue;
            double d = exact(p.coord.x, p.coord.y); worst = std::max(worst, std::fabs(d));
            if (!getenv("SIM_CAL") && std::fabs(d) > tol()) { fail("front", "after %d steps the boundary point (%.6g,%.6g) is %.4g %s where the front should be", steps, p.coord.x, p.coord.y, std::fabs(d), d > 0 ? "inside of" : "outside of"); return; }
        }
        if (getenv("SIM_CAL")) { char b[200]; snprintf(b, sizeof b, "F mode %d kind %d mat %d n %d steps %d re %d path %.3f worst %.4f|", a.flowV.empty() ? -1 : (int)a.flowV[0], s[0].kind, mat, (int)s.size(), steps, re, path, worst / tol()); cal = b; worst = 0; }
    }
    void judgeArea(App& a) {
        if (gone(a)) return; R->checks++; probe(2);
        // what the exact front encloses, element by element away from the edge of the domain
        double got = 0, want = 0, len = 0; const int K = 6;
        for (int y = 0; y < a.cfg.h; y++) for (int x = 0; x < a.cfg.w; x++) {
            if (!mat && edge(a, x + 0.5, y + 0.5) < (mode(a) ? 0 : std::fabs(in)) + 3) continue;
            got += a.ls->mesh.elements[y * a.cfg.w + x].area; double d = exact(x + 0.5, y + 0.5);
            if (d > 0.8) { want += 1; continue; } if (d < -0.8) continue;
            for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { double q = exact(x + (i + 0.5) / K, y + (j + 0.5) / K); want += (q > 0) / double(K * K); if (std::fabs(q) < 0.5) len += 1.0 / (K * K); }
        }
        double d = std::fabs(got - want);
        if (getenv("SIM_CAL")) { char b[200]; snprintf(b, sizeof b, " area %.4f of %.3f len %.2f rel %.4f", d, want, len, d / (0.5 + 0.5 * tol() * (len + 1))); fail("cal", "%s %s", cal.c_str(), b); return; }
        if (d > 0.5 + 0.5 * tol() * (len + 1)) fail("front-area", "after %d steps the structure covers %.6g instead of %.6g", steps, got, want);
    }
};
Plan genC21(uint64_t seed, int tier) {
    Rng r = rngFor("C21", seed); Plan p = start("C21", seed, r);
    int mode = r.below(3), w = r.range(26, tier ? 48 : 36), h = r.range(26, tier ? 48 : 36); bool mat = r.chance(0.5), rect = mode == 0 && r.chance(0.4); double m = std::min(w, h), ml = r.chance(0.5) ? 0.5 : r.uni(0.1, 0.5);
    p.add("cfg").set("n", 0).set("w", w).set("h", h).set("ml", ml).set("bw", r.range(4, 8)).set("fixed", (int)(r.chance(0.5) || (mode && !mat))).set("init", 1);
    p.add("hole").set("n", 0).set("set", "i").set("x", w * 0.5).set("y", h * 0.5).set("r", 4.0);
    addOp(p, 0, "build");
    Line& sh = addOp(p, 0, "shape"); int n = rect || (mode && !mat) ? 1 : r.chance(0.6) ? 1 : 2;
    double sign = r.chance(0.5) ? 1 : -1, budget = 0, room2 = 0;       // distance the front may travel
    if (n == 1) {
        double big = rect ? r.uni(0.16, 0.3) * m : r.uni(0.17, mode && !mat ? 0.22 : 0.36) * m, b2 = rect ? r.uni(0.16, 0.3) * m : big, x = w / 2.0 + r.uni(-2, 2), y = h / 2.0 + r.uni(-2, 2);
        sh.set("k0", (int)rect).set("x0", x).set("y0", y).set("a0", big).set("b0", b2).set("ph0", rect ? r.uni(0, 1.57) : 0.0);
        double ext = rect ? std::hypot(big, b2) : big, out = m / 2 - 2 - ext - 3.5, inn = std::min(big, b2) - 3;
        budget = (sign > 0) == mat ? inn : out;
    } else {
        double a = r.uni(3.8, 0.17 * m), b = r.uni(3.8, 0.17 * m), t = r.uni(0, 6.28), q = 0.27 * m;
        sh.set("k0", 0).set("x0", w / 2.0 + q * std::cos(t) * 0.9).set("y0", h / 2.0 + q * std::sin(t) * 0.9).set("a0", a).set("k1", 0).set("x1", w / 2.0 - q * std::cos(t) * 0.9).set("y1", h / 2.0 - q * std::sin(t) * 0.9).set("a1", b);
        budget = (sign > 0) == mat ? std::min(a, b) - 3 : std::min(m / 2 - q * 0.9 - std::max(a, b) - 3.5, (2 * 0.9 * q - a - b) / 2 - 2.5); room2 = m / 2 - q * 0.9 - std::max(a, b) - 2.2;
    }
    sh.set("mat", (int)mat).set("flat", (int)r.chance(0.3)); (void)mode;
    addOp(p, 0, "reinit"); addOp(p, 0, "seed").setU("s", seedValue(r));
    double x = 0, y = 0, ang = r.uni(0, 6.28), room = std::max(0.3, room2); int steps = r.range(3, tier ? 60 : 30), since = 0; double pRe = r.chance(0.5) ? r.uni(0, 0.5) : 0;
    if (n == 1) { Line& q = sh; double ext = q.num("k0") ? std::hypot(q.dbl("a0"), q.dbl("b0")) : q.dbl("a0"); room = std::max(0.5, m / 2 - 2 - ext - (mat ? 3.5 : 5.5)); }
    double po = n == 1 ? 2 : 0.8, cx = w / 2.0 + r.uni(-po, po), cy = h / 2.0 + r.uni(-po, po), om = r.chance(0.5) ? 1 : -1; double reach = m * 0.3 + 3;
    for (int k = 0; k < steps; k++) {
        addOp(p, 0, "discretise"); if (r.chance(0.3)) addOp(p, 0, "area"); if (mode) addOp(p, 0, "normals");
        double dt = r.logUni(0.05, 2), d = ml * r.uni(0.2, 0.95); Line f = Line(); f.kind = "op"; f.set("n", 0).set("do", "flow").set("mode", mode).set("dt", dt);
        if (mode == 0) { if (budget < d) { if (budget < 0.05) break; d = budget; } budget -= d; f.set("v", sign * d / dt); }
        else if (mode == 1) { if (r.chance(0.15)) ang += r.uni(-1.5, 1.5); double nx = x + d * std::cos(ang), ny = y + d * std::sin(ang); if (std::hypot(nx, ny) > room) { ang += M_PI * r.uni(0.7, 1.3); nx = x; ny = y; d = 0; } x = nx; y = ny; f.set("ux", d * std::cos(ang) / dt).set("uy", d * std::sin(ang) / dt); }
        else f.set("om", om * d / reach / dt).set("cx", cx).set("cy", cy);
        p.lines.push_back(f); addOp(p, 0, "vel"); addOp(p, 0, "grad"); addOp(p, 0, "update");
        since++; if (r.chance(pRe) || since >= 20) { addOp(p, 0, "reinit"); since = 0; }
        if (r.chance(0.04)) { addOp(p, 0, "reopen"); addOp(p, 0, "reinit"); }
    }
    addOp(p, 0, "discretise"); addOp(p, 0, "area");
    if (r.chance(0.4)) genFaults(p, r, r.uni(0.01, 0.15));
    return p;
}
void execC21(const Plan& p) {
    MotionChecker c; std::vector<Checker*> cs{&c}; ExecOpt o; o.nodes = {0}; o.checkers = &cs;
    for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
    ProcResult r = runHistory(p, o, "a simulation"); judgeEnd(r, "a simulation");
}

// ---------------------------------------------------------------- C22
// The loop of the demonstrations: once faults stop, every goal is approached and reached within a bounded number of steps.
struct DescentChecker : Checker {
    int goal = -1, n = 0, bad = 0, re = 0, nClean = 0; double want = 0, len0 = 0, mis0 = -1, ml = 0; bool clean = false, reopened = false; Shape sh; bool mat = false, drawn = false;
    void before(App& a, const Line& op) override { if (op.str("do") == "descend") { goal = op.num("goal"); want = op.dbl("area") * a.cfg.w * a.cfg.h; clean = op.str("script").empty(); ml = a.cfg.ml; len0 = 0; if (a.b) for (auto& p : a.b->points) if (!p.isFixed) len0 += p.length; } }
    double mismatch(App& a) { double m = 0; for (size_t i = 0; i < a.targetArea.size(); i++) m += std::fabs(a.targetArea[i] - a.ls->mesh.elements[i].area); return m; }
    void after(App& a, const Line& op, const Outcome& r) override {
        std::string w = op.str("do"); if (w == "update" && r.ret) re++; if (r.st != ST_OK) return;
        if (w == "shape") { sh = readShapes(op)[0]; mat = op.num("mat"); drawn = true; }
        if (w == "reinit") re++;
        if (w == "descend") {
            n++; R->nontrivial |= n > 3; if (r.ret >= 2) bad++; if (r.ret == 4) probe(4); if (clean) nClean++; probe(1 + goal);
            if (r.ret == 3) { fail("descent-step", "step %d: the boundary points' velocities or the time step are not finite", n); return; }
            if (clean && r.ret >= 2) { fail("descent-step", "step %d: the optimiser returned displacements or a time step that cannot be used", n); return; }
        }
        if (w != "area" || a.targetBoundary) return;
        R->checks++; double area = a.ls->area, D = a.cfg.w * a.cfg.h;
        if (goal < 0) { if (mis0 < 0) mis0 = mismatch(a); return; }
        bool cal = getenv("SIM_CAL");
        if (goal == 0) {
            // unit sensitivities: every point goes as far as it may in every step
            double rad = std::sqrt((mat ? area : D - area) / M_PI), moved = sh.a - rad, lo = nClean * ml, hi = n * ml, t = 0.1 + 0.02 * hi + 0.02 * re;
            if (cal && op.num("last")) fail("cal", "goal 0 n %d clean %d mat %d ml %.3f a %.3f re %d lo %.4f hi %.4f", n, nClean, mat, ml, sh.a, re, (lo - moved) / t, (moved - hi) / t);
            else if (!cal && (moved < lo - t || moved > hi + t)) fail("descent-area", "after %d steps of at most %.4g, the disc of radius %.6g covers an area of radius %.6g", n, ml, sh.a, rad);
        } else if (op.num("last")) {
            double ideal = 2 * std::sqrt(M_PI * std::max(0.0, D - area)), m = mismatch(a);
            if (cal) fail("cal", "goal %d n %d bad %d area %.3f want %.3f len %.3f ideal %.3f mis %.3f of %.3f", goal, n, bad, area, want, a.b->length, ideal, m, mis0);
            else if (goal == 1 && std::fabs(area - want) > 2.5) fail("descent-constraint", "after %d steps the area is %.6g instead of %.6g", n, area, want);
            else if (goal == 1 && a.b->length > 1.1 * ideal + 1) fail("descent-perimeter", "after %d steps the perimeter is %.6g, a circle enclosing the same void has %.6g", n, a.b->length, ideal);
            else if (goal == 2 && m > std::max(8.0, 0.12 * mis0)) fail("descent-mismatch", "after %d steps the structure differs from the target by an area of %.6g, from %.6g at the start", n, m, mis0);
        }
    }
};
Plan genC22(uint64_t seed, int tier) {
    Rng r = rngFor("C22", seed); Plan p = start("C22", seed, r);
    int goal = r.below(3), w = r.range(20, tier ? 36 : 26), h = r.range(20, tier ? 36 : 26); double m = std::min(w, h), ml = r.chance(0.5) ? 0.5 : r.uni(0.25, 0.5);
    p.add("cfg").set("n", 0).set("w", w).set("h", h).set("ml", ml).set("bw", r.range(4, 7)).set("fixed", goal < 2 ? 1 : (int)r.chance(0.5)).set("init", goal == 2 ? 3 : 1);
    auto hole = [&](const char* s, double x, double y, double rad) { p.add("hole").set("n", 0).set("set", s).set("x", x).set("y", y).set("r", rad); };
    double x = w * 0.5 + r.uni(-1, 1), y = h * 0.5 + r.uni(-1, 1), target = 0; int steps = 0, sgn = 1;
    if (goal == 1) { h = std::max(20, std::min(h, w + 6)); w = std::min(w, h + 6); p.lines.back().set("w", w).set("h", h); m = std::min(w, h); x = w * 0.5 + r.uni(-1, 1); y = h * 0.5 + r.uni(-1, 1); }
    if (goal == 2) { double a = r.uni(0.15, 0.3) * m, b = r.uni(0.15, 0.3) * m; hole("i", x, y, a); hole("t", w * 0.5 + r.uni(-2, 2), h * 0.5 + r.uni(-2, 2), b); steps = (int)((std::fabs(a - b) + 4) / ml * 1.5) + 12; }
    else hole("i", x, y, 0.2 * m);
    addOp(p, 0, "build");
    if (goal == 2) { addOp(p, 0, "discretise_target"); addOp(p, 0, "area"); addOp(p, 0, "keep_target"); }
    else {
        Line& sh = addOp(p, 0, "shape"); double ph = r.uni(0, 1.57), a, b;
        if (goal == 0) { bool mat = r.chance(0.5); a = b = r.uni(0.2, 0.36) * m; sgn = mat ? -1 : 1; sh.set("mat", (int)mat); steps = std::max(1, (int)((a - 3.2) / ml)); }
        else { a = r.uni(0.12, 0.22) * m; b = r.uni(0.12, 0.22) * m; sh.set("mat", 0); target = r.uni(0.62, 0.8); steps = (int)(0.3 * m / ml) + 60; }
        int k = goal && r.chance(0.6); if (!k) b = a; sh.set("k0", k).set("x0", x).set("y0", y).set("a0", a).set("b0", b).set("ph0", ph);
    }
    addOp(p, 0, "reinit");
    if (goal == 2) { addOp(p, 0, "discretise"); addOp(p, 0, "area"); }
    int since = 0, faulty = (int)(steps * r.uni(0, 0.5)); double pRe = r.chance(0.4) ? r.uni(0, 0.2) : 0, pSolver = r.chance(0.4) ? r.uni(0, 0.4) : 0; Plan q;
    for (int k = 0; k < steps + (pSolver && goal ? faulty : 0); k++) {
        addOp(p, 0, "discretise"); if (goal == 1 || r.chance(0.15)) addOp(p, 0, "area"); if (goal == 1) addOp(p, 0, "normals");
        Line& l = addOp(p, 0, "descend"); l.set("goal", goal).set("area", target).set("sgn", sgn);
        if (k < faulty && r.chance(pSolver)) { static const char* f[] = {"roundoff", "early", "roundoff,roundoff", "stay"}; l.set("script", std::string(f[r.below(4)])); if (r.chance(0.15)) l.set("rest", std::string("roundoff")); }
        addOp(p, 0, "vel"); addOp(p, 0, "grad"); addOp(p, 0, "update");
        since++; if (since >= 20 || r.chance(pRe)) { addOp(p, 0, "reinit"); since = 0; }
        if (k < faulty && r.chance(0.04)) { addOp(p, 0, "reopen"); addOp(p, 0, "reinit"); }
    }
    addOp(p, 0, "discretise"); addOp(p, 0, "area").set("last", 1);
    if (r.chance(0.4)) genFaults(p, r, r.uni(0.01, 0.1));
    return p;
}
void execC22(const Plan& p) {
    DescentChecker c; std::vector<Checker*> cs{&c}; ExecOpt o; o.nodes = {0}; o.checkers = &cs;
    for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
    ProcResult r = runHistory(p, o, "a simulation"); judgeEnd(r, "a simulation");
}

// ---------------------------------------------------------------- C23
// Deviates of any kind, drawn in any order from generators seeded in any way, have the documented distributions.
static double phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
struct Pool {                              // numbers that should be independent and uniform between 0 and 1
    double bins[16] = {}, s1 = 0, s2 = 0, lag = 0, last = 0, lag2 = 0, last2 = 0; int n = 0, nl = 0, nl2 = 0, tail = 0; bool had = false;
    void add(double u, bool follows) { tail += u < 0.00135 || u > 0.99865; bins[std::min(15, std::max(0, (int)(u * 16)))]++; double z = u - 0.5; s1 += z; s2 += z * z; if (follows) { lag += z * last; nl++; if (had) { lag2 += z * last2; nl2++; } } had = follows; last2 = last; last = z; n++; }
    bool judge(const char* what) {
        if (n < 400) return true; R->checks++;
        double c = 0, e = n / 16.0; for (double b : bins) c += (b - e) * (b - e) / e;
        double zm = s1 / std::sqrt(n / 12.0), zv = (s2 - n / 12.0) / std::sqrt(n / 180.0), zl = nl > 100 ? lag / (std::sqrt((double)nl) / 12) : 0, zl2 = nl2 > 100 ? lag2 / (std::sqrt((double)nl2) / 12) : 0;
        if (c > 110) { fail("random-distribution", "%d %s deviates miss their distribution: chi square %.1f for 15 degrees of freedom", n, what, c); return false; }
        double et = n * 0.0027, lt = tail ? tail * std::log(tail / et) - tail + et : et;
        if (lt > 28) { fail("random-tail", "%d of %d %s deviates lie in the outer 0.27 percent of their distribution", tail, n, what); return false; }
        if (std::fabs(zm) > 7) { fail("random-mean", "the mean of %d %s deviates is %.1f standard errors off", n, what, zm); return false; }
        if (std::fabs(zv) > 7.5) { fail("random-variance", "the variance of %d %s deviates is %.1f standard errors off", n, what, zv); return false; }
        if (std::fabs(zl) > 7.5) { fail("random-correlation", "successive %s deviates are correlated: %.1f standard errors", what, zl); return false; }
        if (std::fabs(zl2) > 7.5) { fail("random-correlation", "every second %s deviates are correlated: %.1f standard errors", what, zl2); return false; }
        return true;
    }
};
Plan genC23(uint64_t seed, int) {
    Rng r = rngFor("C23", seed); Plan p = start("C23", seed, r); int gens = r.range(1, 3), blocks = r.range(3, 12);
    for (int g = 0; g < gens; g++) { Line& l = addOp(p, 0, "gen"); l.set("g", g); if (r.chance(0.6)) l.setU("s", r.chance(0.3) ? r.below(5) : seedValue(r)); }
    for (int b = 0; b < blocks; b++) {
        if (r.chance(0.2)) addOp(p, 0, "gen").set("g", (int)r.below(gens)).setU("s", seedValue(r));
        int k = r.below(5); Line& l = addOp(p, 0, "draws"); l.set("g", (int)r.below(gens)).set("kind", k).set("k", (int)r.logUni(1, r.chance(0.05) ? 30000 : 1500));
        if (k == 2) { long a = r.chance(0.4) ? r.range(-5, 5) : r.chance(0.5) ? (long)r.range(-1000, 1000) : (long)r.uni(-2147483648.0, 2147483000.0), w = r.chance(0.5) ? r.below(8) : r.chance(0.5) ? r.below(1000) : (long)r.logUni(1, 4294967295.0); if (r.chance(0.03)) { a = -2147483648L; w = 4294967295L; } l.set("a", a).set("b", std::min(2147483647L, a + w)); }
        if (k == 3) l.set("m", r.chance(0.2) ? 0.0 : r.uni(-50, 50)).set("sd", r.logUni(1e-3, 100));
        if (k == 4) l.set("a", (long)r.range(-9, 0)).set("b", (long)r.range(0, 9)).set("m", r.uni(-5, 5)).set("sd", r.logUni(0.01, 10)).setU("s", r.below(1u << 30));
    }
    return p;
}
void execC23(const Plan& p) {
    R->errlogLen = 0;
    ProcResult pr = runProcess([&]() {
        armKnobs(p, 0); std::vector<std::unique_ptr<MersenneTwister>> g(4); Pool pool[4]; Rng own(p.knobNum("entropy", 1) * 77 + 5); static const char* names[] = {"uniform", "normal", "integer", "scaled normal"};
        Pool all; std::map<std::pair<int, double>, int> same; int seeds = 4;
        for (auto& l : p.lines) {
            if (l.kind != "op" || R->failed) continue;
            int i = l.num("g") & 3; std::string w = l.str("do"); R->ops++;
            if (w == "gen") { LibScope S; if (!g[i]) g[i].reset(new MersenneTwister()); if (l.has("s")) g[i]->setSeed((unsigned)l.u64("s")); seeds++; probe(l.has("s") ? 2 : 1); continue; }
            if (w != "draws") continue; if (!g[i]) { LibScope S; g[i].reset(new MersenneTwister()); }
            MersenneTwister& t = *g[i]; int kind = l.num("kind"), k = l.num("k"); long a = l.num("a"), b = l.num("b"); double m = l.dbl("m"), sd = l.dbl("sd", 1); Rng mix(l.u64("s", 1)); int lastKind = -1; std::map<long, int> seen;
            for (int j = 0; j < k && !R->failed; j++) {
                int q = kind == 4 ? (int)mix.below(4) : kind; double u = 0;
                if (q == 0) { { LibScope S; u = t(); } if (same[{0, u}]++ > seeds) { fail("random-repeated", "the uniform deviate %.17g occurs again and again", u); break; } if (!(u >= 0 && u <= 1)) { fail("random-range", "a uniform deviate is %.17g", u); break; } }
                else if (q == 1) { double x; { LibScope S; x = t.normal(); } u = phi(x); if (same[{1, x}]++ > seeds) { fail("random-repeated", "the normal deviate %.17g occurs again and again", x); break; } if (!(std::fabs(x) < 9)) { fail("random-range", "a normal deviate is %.17g", x); break; } }
                else if (q == 2) { long x; { LibScope S; x = t.integer((int)a, (int)b); } if (x < a || x > b) { fail("random-range", "an integer between %ld and %ld is %ld", a, b, x); break; } u = ((double)(x - a) + own.uni(0, 1)) / ((double)(b - a) + 1); if (b - a < 64) seen[x]++; }
                else { double x; { LibScope S; x = t.normal(m, sd); } u = phi((x - m) / sd); if (!(std::fabs(x - m) < 9 * sd)) { fail("random-range", "a normal deviate with mean %g and standard deviation %g is %.17g", m, sd, x); break; } }
                pool[q].add(u, lastKind == q); all.add(u, lastKind >= 0); lastKind = q; logHash(hashBytes(&u, 8, 1)); probe(10 + q);
            }
            if (kind == 2 && b - a < 64 && k > 40 * (b - a + 1)) for (long x = a; x <= b; x++) if (!seen[x]) { fail("random-range", "%d integers between %ld and %ld never include %ld", k, a, b, x); break; }
        }
        for (int q = 0; q < 4 && !R->failed; q++) { if (!pool[q].judge(names[q])) break; if (pool[q].n >= 400) R->nontrivial = 1; }
        if (!R->failed) all.judge("mixed");
        { LibScope S; g.clear(); }
    });
    judgeEnd(pr, "drawing random numbers");
}
}
