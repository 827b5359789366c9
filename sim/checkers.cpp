// Checkers that compare every operation of a simulated history with an executable reference of what
// the operation is specified to do.
#include "hist.h"
#include "ref.h"
#include "solver.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>

namespace sim {
using namespace slsm;
typedef std::vector<double> V;

static Plan start(const char* id, uint64_t seed, Rng& r) { Plan p; p.add("prop").set("id", id).setU("seed", seed); genKnobs(p, r); return p; }
static Rng rngFor(const char* id, uint64_t seed) { return Rng(mix64(seed * 31 + hashBytes(id, strlen(id)))); }
static bool isMask(const std::string& w) { return w.compare(0, 4, "mask") == 0; }
static bool same(const V& a, const V& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
static bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol; }

// ---------------------------------------------------------------- geometry of the grid, from its definition
struct Grid {
    int w, h; Grid(const Cfg& c) : w(c.w), h(c.h) {}
    int n(int x, int y) const { return y * (w + 1) + x; }
    int nNodes() const { return (w + 1) * (h + 1); }
    int X(int i) const { return i % (w + 1); }
    int Y(int i) const { return i / (w + 1); }
    bool edge(int i) const { int x = X(i), y = Y(i); return x == 0 || y == 0 || x == w || y == h; }
    void corners(int e, int c[4]) const { int x = e % w, y = e / w; c[0] = n(x, y); c[1] = n(x + 1, y); c[2] = n(x + 1, y + 1); c[3] = n(x, y + 1); }
};

// ---------------------------------------------------------------- running
static void runChecked(const Plan& p, Checker& c, const char* where) {
    std::vector<Checker*> cs{&c};
    ExecOpt o; o.nodes = {0}; o.checkers = &cs;
    for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
    ProcResult r = runHistory(p, o, where);
    if (judgeEnd(r, where) || R->failed || R->errored) return;
}

// ---------------------------------------------------------------- the update and the reinitialisation, as specified
// What an update makes of the signed distance before it reinitialises
static V moved(const V& sd, const V& grad, const V& vel, const std::vector<unsigned>& band, double dt, const Grid& g) {
    V s = sd; for (unsigned n : band) { s[n] -= dt * grad[n] * vel[n]; if (g.edge(n) && s[n] > 0) s[n] = 0; } return s;
}
static void envelopeFail(const char* cls, const char* what, const V& in, const V& out, const V& lo, const V& hi, int i, const Grid& g) {
    fail(cls, "%s: node (%d,%d) has %.17g instead of %.17g to %.17g (it was %.17g)", what, g.X(i), g.Y(i), out[i], lo[i], hi[i], in[i]);
}
static bool judgeMarch(const V& in, const V& out, const Grid& g, const char* what) {
    R->checks++;
    if (in.size() != out.size()) { fail("march", "%s changed the size of the signed distance", what); return false; }
    std::vector<char> fr = ref::frozenNodes(in, g.w, g.h);
    for (size_t i = 0; i < in.size(); i++) {
        if (in[i] == 0 && out[i] != 0) { fail("march-sign", "%s moved node (%d,%d) off the interface, to %g", what, g.X(i), g.Y(i), out[i]); return false; }
        if (std::fabs(in[i]) > 3e-16 && (in[i] > 0) != (out[i] > 0) && out[i] != 0) { fail("march-sign", "%s moved node (%d,%d) from %g to %g", what, g.X(i), g.Y(i), in[i], out[i]); return false; }
    }
    V lo = ref::reinit(in, g.w, g.h, 0, 1), hi = lo;
    auto add = [&](double eps, uint64_t s) { V v = ref::reinit(in, g.w, g.h, eps, s); for (size_t i = 0; i < v.size(); i++) { lo[i] = std::min(lo[i], v[i]); hi[i] = std::max(hi[i], v[i]); } };
    auto bad = [&]() { for (size_t i = 0; i < in.size(); i++) { double t = 1e-7 * (1 + std::fabs(out[i])); if (!(out[i] >= lo[i] - t && out[i] <= hi[i] + t)) return (int)i; } return -1; };
    int b = bad(); if (b < 0) return true;
    // decisions that rounding can take either way
    static const double eps[] = {1e-15, 1e-14, 1e-13, 1e-12, 1e-11};
    for (int k = 0; k < 60; k++) { add(eps[k % 5], k + 2); if (k % 10 == 9 && (b = bad()) < 0) { probe(20); return true; } }
    // many nodes at exactly the same distance (symmetrical shapes): whatever order they were taken in, every remaining
    // node has to solve the update for its nearer neighbours
    bool all = true; for (size_t i = 0; i < in.size() && all; i++) { double t = 1e-7 * (1 + std::fabs(out[i])); if (!(out[i] >= lo[i] - t && out[i] <= hi[i] + t) && (fr[i] || !ref::locallyConsistent(in, out, i, g.w, g.h))) { all = false; b = i; } }
    if (all) { probe(21); return true; }
    if (getenv("SIM_DUMP")) { int X = g.X(b), Y = g.Y(b); for (int y = std::min(g.h, Y + 3); y >= std::max(0, Y - 3); y--) { for (int x = std::max(0, X - 2); x <= std::min(g.w, X + 2); x++) { int i = g.n(x, y); fprintf(stderr, "%s%.15f[%.5f,%.15f]%s ", i == b ? "*" : "", out[i], lo[i], hi[i], fr[i] ? "f" : ""); } fprintf(stderr, "\n"); } }
    envelopeFail(fr[b] ? "march-interface" : "march", what, in, out, lo, hi, b, g); return false;
}
struct StateChecker : Checker {
    V sd, grad, vel; std::vector<unsigned> band, mines; std::vector<char> masked; bool have = false; V lastUpd;
    void before(App& a, const Line&) override {
        have = (bool)a.ls; if (!have) return;
        sd = a.ls->signedDistance; grad = a.ls->gradient; vel = a.ls->velocity;
        band.assign(a.ls->narrowBand.begin(), a.ls->narrowBand.begin() + a.ls->nNarrowBand); mines.assign(a.ls->mines.begin(), a.ls->mines.begin() + a.ls->nMines);
        masked.resize(sd.size()); for (size_t i = 0; i < sd.size(); i++) masked[i] = a.ls->mesh.nodes[i].isMasked;
    }
    // the signed distance an operation hands to the reinitialisation; empty: unknown or none
    V marchInput(App& a, const Line& op, const Outcome& r) {
        std::string w = op.str("do"); Grid g(a.cfg);
        if (!have) return V();
        if (w == "reinit" || w == "ckpt") return sd;
        if (w == "update" && r.ret == 1) return moved(sd, grad, vel, band, a.usedDt, g);
        if (isMask(w)) { V s = sd; for (int i = 0; i < g.nNodes(); i++) { int m = ref::maskSide(op, g.X(i), g.Y(i)); if (m == 0) return V(); if (m > 0) s[i] = -1e-6; } return s; }
        return V();
    }
};

// ---------------------------------------------------------------- C09
struct BandChecker : StateChecker {
    void judgeBand(App& a, const char* w) {
        LevelSet& L = *a.ls; Grid g(a.cfg); R->checks++;
        std::vector<int> seen(g.nNodes(), 0), mine(g.nNodes(), 0);
        for (unsigned i = 0; i < L.nNarrowBand; i++) { if (L.narrowBand[i] >= seen.size()) { fail("band", "after %s the narrow band lists node %u of %d", w, L.narrowBand[i], g.nNodes()); return; } seen[L.narrowBand[i]]++; }
        for (unsigned i = 0; i < L.nMines; i++) { if (L.mines[i] >= seen.size()) { fail("mines", "after %s the mines list node %u of %d", w, L.mines[i], g.nNodes()); return; } mine[L.mines[i]]++; }
        for (int i = 0; i < g.nNodes(); i++) {
            double d = std::fabs(L.signedDistance[i]);
            bool in = !L.mesh.nodes[i].isMasked && !(a.cfg.fixed && g.edge(i)) && d < a.cfg.bw, m = in && d > a.cfg.bw - 1;
            if (seen[i] != (in ? 1 : 0) || L.mesh.nodes[i].isActive != in) { fail("band", "after %s node (%d,%d) at distance %g (band width %d, masked %d, edge %d) is listed %d times in the narrow band and flagged %d", w, g.X(i), g.Y(i), d, a.cfg.bw, (int)L.mesh.nodes[i].isMasked, (int)g.edge(i), seen[i], (int)L.mesh.nodes[i].isActive); return; }
            if (mine[i] != (m ? 1 : 0) || L.mesh.nodes[i].isMine != m) { fail("mines", "after %s node (%d,%d) at distance %g (band width %d) is listed %d times as a mine and flagged %d", w, g.X(i), g.Y(i), d, a.cfg.bw, mine[i], (int)L.mesh.nodes[i].isMine); return; }
        }
    }
    void after(App& a, const Line& op, const Outcome& r) override {
        std::string w = op.str("do"); if (r.st != ST_OK) return;
        LevelSet& L = *a.ls; Grid g(a.cfg);
        if (w == "build" || isMask(w) || w == "reinit" || w == "ckpt" || (w == "update" && r.ret == 1)) { judgeBand(a, w.c_str()); R->nontrivial = 1; probe(1); }
        if (w != "update" || R->failed) return;
        R->checks++;
        V e = moved(sd, grad, vel, band, a.usedDt, g);
        int must = 0; for (unsigned m : mines) { double d = std::fabs(e[m]); if (d < 1 - 1e-9) must = 1; else if (d < 1 + 1e-9 && !must) must = -1; }
        if (must >= 0 && (r.ret == 1) != (must == 1)) { fail("update-reinit", "update %s although %s mine is within one unit of the interface", r.ret == 1 ? "reinitialised" : "did not reinitialise", must ? "a" : "no"); return; }
        if (r.ret == 1) { probe(2); judgeMarch(e, L.signedDistance, g, "the update's reinitialisation"); return; }
        probe(3);
        std::vector<char> in(sd.size(), 0); for (unsigned n : band) in[n] = 1;
        for (size_t i = 0; i < sd.size(); i++) {
            double now = L.signedDistance[i];
            if (!in[i] ? memcmp(&now, &sd[i], 8) != 0 : !close(now, e[i], 1e-9 * (1 + std::fabs(sd[i])))) { fail("update-rule", "update moved node (%d,%d) (in the band: %d, velocity %g, gradient %g, time step %g) from %.15g to %.15g instead of %.15g", g.X(i), g.Y(i), (int)in[i], vel[i], grad[i], a.usedDt, sd[i], now, e[i]); return; }
            if (g.edge(i) && now > 0) { fail("update-edge", "update made node (%d,%d) on the edge of the domain %g", g.X(i), g.Y(i), now); return; }
        }
        std::vector<unsigned> nb(L.narrowBand.begin(), L.narrowBand.begin() + L.nNarrowBand);
        if (nb != band) fail("update-band", "an update without reinitialisation changed the narrow band");
    }
};
Plan genC09(uint64_t seed, int tier) {
    Rng r = rngFor("C09", seed); Plan p = start("C09", seed, r);
    SimOpt o; o.pField = 0.3; o.maxSteps = tier ? 14 : 8; o.g.pBig = 0.03; o.g.pHuge = 0.0015; o.g.maxW = tier ? 30 : 22; o.g.pMask = 0.4; o.g.pFixed = 0.3; o.g.pLattice = 0.25; o.pMaskMid = 0.08; o.pReinit = 0.15; o.pGrow = 0.5; o.g.pNarrow = 0.5; o.pSens = o.pIto = o.pPerim = o.pFmm = 0; o.pOptimise = 0.15; o.pSave = 0; o.pThrow = 0; o.g.pDomainHoles = 0.5;
    maybeLong(o, r, 0.03); genCfg(p, r, 0, o.g); genSim(p, r, 0, o); if (r.chance(0.3)) genFaults(p, r, r.uni(0.02, 0.2));
    return p;
}
void execC09(const Plan& p) { BandChecker c; runChecked(p, c, "a simulation"); }

// ---------------------------------------------------------------- C10
struct MaskChecker : StateChecker {
    std::vector<signed char> want;       // 1 masked, -1 not, 0 too close to the edge of a mask to say
    void after(App& a, const Line& op, const Outcome& r) override {
        std::string w = op.str("do"); LevelSet& L = *a.ls; Grid g(a.cfg);
        if (w == "build" && r.st == ST_OK) want.assign(g.nNodes(), -1);
        if (want.empty()) return;
        if (isMask(w) && (r.st == ST_OK || r.st == ST_BADALLOC)) for (int i = 0; i < g.nNodes(); i++) { int m = ref::maskSide(op, g.X(i), g.Y(i)); if (m > want[i]) want[i] = r.st == ST_OK ? m : 0; }
        R->checks++;
        for (int i = 0; i < g.nNodes(); i++) {
            bool m = L.mesh.nodes[i].isMasked; double s = L.signedDistance[i];
            if (want[i] && m != (want[i] > 0)) { fail("mask-set", "after %s node (%d,%d) is %smasked but lies %s the masked shapes", w.c_str(), g.X(i), g.Y(i), m ? "" : "not ", want[i] > 0 ? "inside" : "outside"); return; }
            if (m && s > 0) { fail("mask-inside", "after %s the masked node (%d,%d) has signed distance %g", w.c_str(), g.X(i), g.Y(i), s); return; }
            if (g.edge(i) && s > 0) { fail("edge-inside", "after %s node (%d,%d) on the edge of the domain has signed distance %g", w.c_str(), g.X(i), g.Y(i), s); return; }
            if (m) probe(1);
        }
        if (r.st != ST_OK) return;
        if (w == "update" && r.ret == 0 && have) for (int i = 0; i < g.nNodes(); i++) if ((masked[i] || (a.cfg.fixed && g.edge(i))) && memcmp(&sd[i], &L.signedDistance[i], 8)) { fail("mask-moved", "update moved the %s node (%d,%d) from %g to %g", masked[i] ? "masked" : "fixed", g.X(i), g.Y(i), sd[i], L.signedDistance[i]); return; }
        if (w == "discretise" || w == "discretise_target") judgeLimits(a);
        if (w == "update") { probe(2); R->nontrivial = 1; }
    }
    void judgeLimits(App& a) {
        LevelSet& L = *a.ls; Grid g(a.cfg); double ml = a.cfg.ml; R->checks++;
        for (auto& p : a.b->points) {
            double x = p.coord.x, y = p.coord.y, dd = std::min(std::min(x, g.w - x), std::min(y, g.h - y));
            double lim = std::min(ml, dd); bool dom = dd < 1e-6 && dd < ml;
            // candidates for the nearest node (two when the point is half way)
            std::vector<int> xs, ys; auto cand = [](double v, int m, std::vector<int>& o) { int f = (int)std::floor(v); double q = v - f; if (q < 0.5 + 1e-9) o.push_back(f); if (q > 0.5 - 1e-9 && f + 1 <= m) o.push_back(f + 1); };
            cand(x, g.w, xs); cand(y, g.h, ys);
            bool ok = false; double e1 = 0; int ef = 0;
            for (int i : xs) for (int j : ys) {
                double l = lim; bool fx = false;
                if (L.mesh.nodes[g.n(i, j)].isMasked) { probe(3); double d = std::hypot(i - x, j - y); bool on = std::fabs(i - x) < 1e-6 && std::fabs(j - y) < 1e-6; if (on) fx = true; else l = std::min(l, d); }
                e1 = -l; ef = fx;
                if (close(p.negativeLimit, -l, 1e-9) && p.isFixed == fx) ok = true;
            }
            if (!ok || !close(p.positiveLimit, ml, 1e-12)) { fail("limits", "boundary point (%.9g,%.9g) may move between %.9g and %.9g, fixed %d, instead of %.9g and %.9g, fixed %d", x, y, p.negativeLimit, p.positiveLimit, (int)p.isFixed, e1, ml, ef); return; }
            if (p.isDomain != dom && !(std::fabs(dd - 1e-6) < 1e-12)) { fail("limits", "boundary point (%.9g,%.9g) is %smarked as lying on the edge of the domain", x, y, p.isDomain ? "" : "not "); return; }
        }
    }
};
Plan genC10(uint64_t seed, int tier) {
    Rng r = rngFor("C10", seed); Plan p = start("C10", seed, r);
    SimOpt o; o.pField = 0.3; o.maxSteps = tier ? 12 : 7; o.g.pHuge = 0.0015; o.g.maxW = tier ? 30 : 22; o.g.pMask = 0.8; o.g.pFixed = 0.35; o.g.pLattice = 0.2; o.pMaskMid = 0.25; o.pSens = o.pPerim = o.pFmm = 0; o.pIto = 0.1; o.pOptimise = 0.3; o.pSave = 0; o.pThrow = 0; o.g.pDomainHoles = 0.5; o.g.pTarget = 0.2;
    maybeLong(o, r, 0.03); genCfg(p, r, 0, o.g); genSim(p, r, 0, o); if (r.chance(0.3)) genFaults(p, r, r.uni(0.02, 0.2));
    return p;
}
void execC10(const Plan& p) { MaskChecker c; runChecked(p, c, "a simulation"); }

// ---------------------------------------------------------------- C11
struct MarchChecker : StateChecker {
    void after(App& a, const Line& op, const Outcome& r) override {
        if (r.st != ST_OK) return;
        std::string w = op.str("do"); Grid g(a.cfg);
        if (w == "fmm") {
            judgeMarch(a.fmmIn, a.fmmA, g, "a march"); if (R->failed) return;
            if (!same(a.fmmA, a.fmmB)) { fail("march-again", "marching with an object that was used before gives another result"); return; }
            probe(2);
            if (op.num("other") && op.num("velm")) { if (!same(a.fmmVA, a.fmmVB)) { fail("march-again", "extending velocities with an object that was used before gives another result"); return; } if (!same(a.fmmSA, a.fmmIn)) { fail("march-velocity", "extending velocities changed the signed distance"); return; } probe(3); }
            return;
        }
        V in = marchInput(a, op, r); if (in.empty()) return;
        judgeMarch(in, a.ls->signedDistance, g, w.c_str()); R->nontrivial = 1; probe(1);
    }
};
Plan genC11(uint64_t seed, int tier) {
    Rng r = rngFor("C11", seed); Plan p = start("C11", seed, r);
    SimOpt o; o.pField = 0.3; o.maxSteps = tier ? 8 : 4; o.g.pHuge = 0.0015; o.g.maxW = tier ? 34 : 22; o.g.minW = 4; o.g.pMask = 0.4; o.g.pLattice = 0.3; o.pMaskMid = 0.15; o.pReinit = 0.6; o.pSens = o.pIto = o.pPerim = 0; o.pFmm = 0.5; o.pOptimise = 0.1; o.pSave = 0; o.pThrow = 0; o.g.pDomainHoles = 0.5;
    maybeLong(o, r, 0.03); genCfg(p, r, 0, o.g); genSim(p, r, 0, o);
    for (auto& l : p.lines) if (l.kind == "op" && l.str("do") == "fmm" && r.chance(0.7)) { l.set("other", 1).set("shift", r.uni(-1.5, 1.5)).set("velx", (int)r.chance(0.3)); if (r.chance(0.5)) l.set("velm", 1); if (r.chance(0.4)) { l.set("nq", r.chance(0.5) ? r.logUni(0.003, 0.1) : r.uni(0.1, 1)).setU("ns", r.next()).set("ne", r.chance(0.3) ? r.uni(0, 1) : r.uni(1, 13)).set("nf", (int)r.chance(0.2)); } }
    if (r.chance(0.4)) genFaults(p, r, r.uni(0.05, 0.4));
    return p;
}
void execC11(const Plan& p) { MarchChecker c; runChecked(p, c, "a simulation"); }

// ---------------------------------------------------------------- marching squares
// The zero contour from its definition. Endpoints are named by a node (on the interface) or by a cut edge.
enum { IN = 1, OUT = 2, ON = 4 };
struct Contour {
    struct End { int a, b; double x, y; };              // b < 0: node a
    struct Seg { int e, p, q; };
    std::vector<int> node; std::vector<int> elem; std::vector<End> ends; std::vector<Seg> segs; std::map<std::pair<int, int>, int> id;
    std::vector<char> skip;                             // elements the specification leaves open
    std::vector<double> sum;
    int end(int a, int b, const V& s, const Grid& g) {
        if (b >= 0 && a > b) std::swap(a, b);
        auto it = id.find({a, b}); if (it != id.end()) return it->second;
        End e; e.a = a; e.b = b; if (b < 0) { e.x = g.X(a); e.y = g.Y(a); } else { double t = s[a] / (s[a] - s[b]); e.x = g.X(a) + t * (g.X(b) - g.X(a)); e.y = g.Y(a) + t * (g.Y(b) - g.Y(a)); }
        ends.push_back(e); return id[{a, b}] = ends.size() - 1;
    }
    Contour(const V& s, const Grid& g, const std::function<bool(int)>& live, bool target) {
        node.resize(g.nNodes()); for (int i = 0; i < g.nNodes(); i++) node[i] = std::fabs(s[i]) < 1e-6 ? ON : s[i] < 0 ? OUT : IN;
        int ne = g.w * g.h; elem.assign(ne, 0); skip.assign(ne, 0); sum.assign(ne, 0);
        for (int e = 0; e < ne; e++) {
            int c[4]; g.corners(e, c); int in = 0, out = 0, cut[4], nc = 0; double tot = 0;
            for (int k = 0; k < 4; k++) { in += node[c[k]] == IN; out += node[c[k]] == OUT; tot += s[c[k]]; }
            sum[e] = tot; elem[e] = out == 0 ? ElementStatus::INSIDE : in == 0 ? ElementStatus::OUTSIDE : ElementStatus::NONE;
            if (elem[e] == ElementStatus::OUTSIDE) continue;
            for (int k = 0; k < 4; k++) {
                int a = c[k], b = c[(k + 1) % 4]; bool considered = target || live(a) || live(b);
                if ((node[a] | node[b]) == (IN | OUT)) { if (!considered) { skip[e] = 1; continue; } cut[nc++] = end(a, b, s, g); }
                else if (node[a] == ON && node[b] == ON && considered) segs.push_back({e, end(a, -1, s, g), end(b, -1, s, g)});
            }
            if (skip[e]) continue;
            if (nc == 2) segs.push_back({e, cut[0], cut[1]});
            else if (nc == 1) { for (int k = 0; k < 4; k++) if (node[c[k]] == ON && (node[c[(k + 1) % 4]] == OUT || node[c[(k + 3) % 4]] == OUT)) segs.push_back({e, cut[0], end(c[k], -1, s, g)}); }
            else if (nc == 4) {
                bool centreIn = tot > 0; elem[e] = centreIn ? ElementStatus::CENTRE_INSIDE : ElementStatus::CENTRE_OUTSIDE;
                // corners 0 and 2 are cut off when they are on the other side of the centre
                if ((node[c[0]] == IN) != centreIn) { segs.push_back({e, cut[0], cut[3]}); segs.push_back({e, cut[1], cut[2]}); }
                else { segs.push_back({e, cut[0], cut[1]}); segs.push_back({e, cut[2], cut[3]}); }
                if (std::fabs(tot) < 1e-9) skip[e] = 2;
            }
            else if (nc == 0 && elem[e] == ElementStatus::NONE) { int q[4], k2 = 0; for (int k = 0; k < 4; k++) if (node[c[k]] == ON) q[k2++] = c[k]; if (k2 == 2) segs.push_back({e, end(q[0], -1, s, g), end(q[1], -1, s, g)}); else skip[e] = 1; }
        }
    }
};

// ---------------------------------------------------------------- C18
// The grid, from its definition, as it has to be found at any time.
static bool judgeGrid(App& a, const char* w) {
    const Mesh& m = a.ls->mesh; Grid g(a.cfg); R->checks++; unsigned none = g.nNodes();
    if (m.width != (unsigned)g.w || m.height != (unsigned)g.h || m.nElements != (unsigned)(g.w * g.h) || m.nNodes != none || m.elements.size() != m.nElements || m.nodes.size() != m.nNodes) { fail("mesh-size", "after %s the mesh of %d by %d elements says it has %u by %u, %u elements and %u nodes", w, g.w, g.h, m.width, m.height, m.nElements, m.nNodes); return false; }
    if (m.xyToIndex.size() != (size_t)g.w + 1) { fail("mesh-index", "after %s xyToIndex has %zu columns", w, m.xyToIndex.size()); return false; }
    for (int i = 0; i < g.nNodes(); i++) {
        int x = g.X(i), y = g.Y(i); auto& n = m.nodes[i];
        unsigned nb[4] = {x ? g.n(x - 1, y) : none, x < g.w ? g.n(x + 1, y) : none, y ? g.n(x, y - 1) : none, y < g.h ? g.n(x, y + 1) : none};
        if (n.coord.x != x || n.coord.y != y) { fail("mesh-node", "after %s node %d has coordinates (%g,%g)", w, i, n.coord.x, n.coord.y); return false; }
        if (n.isDomain != g.edge(i)) { fail("mesh-node", "after %s node (%d,%d) is %smarked as lying on the edge of the domain", w, x, y, n.isDomain ? "" : "not "); return false; }
        if (m.xyToIndex[x].size() != (size_t)g.h + 1 || m.xyToIndex[x][y] != (unsigned)i) { fail("mesh-index", "after %s xyToIndex of (%d,%d) is wrong", w, x, y); return false; }
        for (int k = 0; k < 4; k++) if (n.neighbours.size() != 4 || n.neighbours[k] != nb[k]) { fail("mesh-neighbours", "after %s neighbour %d of node (%d,%d) is %u instead of %u", w, k, x, y, n.neighbours[k], nb[k]); return false; }
        std::set<unsigned> el, want; for (int dx = -1; dx < 1; dx++) for (int dy = -1; dy < 1; dy++) if (x + dx >= 0 && x + dx < g.w && y + dy >= 0 && y + dy < g.h) want.insert((y + dy) * g.w + x + dx);
        if (n.nElements != want.size() || n.elements.size() < n.nElements) { fail("mesh-node", "after %s node (%d,%d) belongs to %u elements", w, x, y, n.nElements); return false; }
        for (unsigned k = 0; k < n.nElements; k++) el.insert(n.elements[k]);
        if (el != want) { fail("mesh-node", "after %s node (%d,%d) lists the wrong elements", w, x, y); return false; }
    }
    for (int e = 0; e < g.w * g.h; e++) {
        int c[4]; g.corners(e, c); auto& q = m.elements[e];
        if (q.coord.x != e % g.w + 0.5 || q.coord.y != e / g.w + 0.5) { fail("mesh-element", "after %s element %d has coordinates (%g,%g)", w, e, q.coord.x, q.coord.y); return false; }
        for (int k = 0; k < 4; k++) if (q.nodes.size() != 4 || q.nodes[k] != (unsigned)c[k]) { fail("mesh-element", "after %s corner %d of element %d is node %u instead of %d", w, k, e, q.nodes[k], c[k]); return false; }
    }
    return true;
}
struct GridChecker : Checker {
    void after(App& a, const Line& op, const Outcome& r) override {
        std::string w = op.str("do"); if (!judgeGrid(a, w.c_str())) return; probe(1); Grid g(a.cfg); if (a.b && a.boundaryFresh) R->nontrivial = 1;
        for (auto& k : a.kept) if (k->mesh.nNodes != k->mesh.nodes.size()) { fail("mesh-size", "another mesh changed"); return; }
        if (w != "lookup" || r.st != ST_OK) return;
        for (auto& k : a.lookups) {
            R->checks++; probe(2); const double E = 1.0001e-6;
            for (unsigned e : {k.elem, k.elem2}) { double x0 = e % g.w, y0 = e / g.w; if (e >= (unsigned)(g.w * g.h) || k.x < x0 - E || k.x > x0 + 1 + E || k.y < y0 - E || k.y > y0 + 1 + E) { fail("lookup-element", "(%.9g,%.9g) is said to lie in element %u, which spans (%g,%g) to (%g,%g)", k.x, k.y, e, x0, y0, x0 + 1, y0 + 1); return; } }
            double best = 1e9; for (int dx = 0; dx < 2; dx++) for (int dy = 0; dy < 2; dy++) { double X = std::min<double>(g.w, std::floor(k.x) + dx), Y = std::min<double>(g.h, std::floor(k.y) + dy); best = std::min(best, std::hypot(X - k.x, Y - k.y)); }
            for (unsigned n : {k.node, k.node2}) { if (n >= (unsigned)g.nNodes() || std::hypot(g.X(n) - k.x, g.Y(n) - k.y) > best + 3e-6) { fail("lookup-node", "the node closest to (%.9g,%.9g) is said to be %u at (%d,%d)", k.x, k.y, n, n < (unsigned)g.nNodes() ? g.X(n) : -1, n < (unsigned)g.nNodes() ? g.Y(n) : -1); return; } }
        }
    }
};
Plan genC18(uint64_t seed, int tier) {
    Rng r = rngFor("C18", seed); Plan p = start("C18", seed, r);
    SimOpt o; o.maxSteps = tier ? 6 : 3; o.g.pHuge = 0.006; o.g.maxW = tier ? 40 : 24; o.g.minW = 4; o.g.pMask = 0.4; o.pSave = 0.2; o.pLoad = 0.2; o.pFmm = 0.2; o.pSens = o.pPerim = 0.1; o.pOptimise = 0.15;
    genCfg(p, r, 0, o.g); genSim(p, r, 0, o); int w = p.lines[2].num("w"), h = p.lines[2].num("h"); for (auto& l : p.lines) if (l.kind == "cfg") { w = l.num("w"); h = l.num("h"); }
    Plan q; auto at = [&](int m) { double v = r.chance(0.4) ? r.uni(0, m) : r.range(0, 2 * m) / 2.0; if (r.chance(0.3)) v += (r.chance(0.5) ? 1 : -1) * r.logUni(1e-9, 1e-5); return std::max(0.0, std::min<double>(m, r.chance(0.1) ? (r.chance(0.5) ? 0 : m) : v)); };
    for (auto& l : p.lines) { q.lines.push_back(l); if (l.kind == "op") for (int k = r.below(4); k > 0; k--) addOp(q, 0, "lookup").set("x", at(w)).set("y", at(h)).set("pts", (int)r.chance(0.2)); }
    p = q; if (r.chance(0.4)) genFaults(p, r, r.uni(0.02, 0.2));
    return p;
}
void execC18(const Plan& p) { GridChecker c; runChecked(p, c, "a simulation"); }

// ---------------------------------------------------------------- C19
// What a new level set has to hold before anything is done with it
static double polyDistance(const std::vector<Coord>& v, double x, double y, bool& in, bool& shortSeg) {
    double m = 1e9, turn = 0;
    for (size_t i = 0; i + 1 < v.size(); i++) {
        double ax = v[i].x - x, ay = v[i].y - y, bx = v[i + 1].x - x, by = v[i + 1].y - y, dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy; if (l < 1.01e-6) shortSeg = true;
        double t = l > 0 ? -(ax * dx + ay * dy) / l : 0; t = std::max(0.0, std::min(1.0, t)); m = std::min(m, std::hypot(ax + t * dx, ay + t * dy));
        turn += std::atan2(ax * by - ay * bx, ax * bx + ay * by);
    }
    in = std::fabs(turn) > M_PI; return m;
}
// lo to hi: what the node may hold
static void freshDistance(const Cfg& c, bool target, int x, int y, double& lo, double& hi) {
    double d = std::min(std::min(x, c.w - x), std::min(y, c.h - y)); lo = hi = 0;
    int kind = c.init == 0 ? 0 : target ? (c.init == 3 ? 1 : 2) : (c.init == 2 || c.init == 5 ? 2 : 1);
    if (kind == 2) {
        const std::vector<Coord>& v = target ? c.tpts : c.pts; bool in = false, sh = false; double q = polyDistance(v, x, y, in, sh), m = std::min(d, q), t = 1e-9 + (sh ? 1.01e-3 : 0);
        lo = (in ? -m : m) - t; hi = (in ? -m : m) + t; if (q < 1e-7) { lo = -m - t; hi = m + t; } return;
    }
    std::vector<Hole> hs = target ? c.tholes : c.holes;
    if (kind == 0) {
        int nx = (int)std::floor(c.w / 30.0 + 0.5), ny = (int)std::floor(c.h / 30.0 + 0.5); double dx = c.w / (2.0 * nx), dy = c.h / (2.0 * ny); hs.clear();
        for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { hs.push_back(Hole((2 * i + 1) * dx, (2 * j + 1) * dy, 5)); if (i + 1 < nx && j + 1 < ny) hs.push_back(Hole((2 * i + 2) * dx, (2 * j + 2) * dy, 5)); }
    }
    for (auto& q : hs) d = std::min(d, std::hypot(q.coord.x - x, q.coord.y - y) - q.r);
    lo = d - 1e-9; hi = d + 1e-9;
}
struct FreshChecker : BandChecker {
    void before(App&, const Line&) override {}
    void after(App& a, const Line& op, const Outcome& r) override {
        std::string w = op.str("do"); if (w == "refuse") { if (r.st == ST_OK) fail("accepted", "a level set was constructed from arguments outside of the documented range (band width %ld, movement limit %g, %ld by %ld elements)", op.num("bw", a.cfg.bw), op.dbl("ml", a.cfg.ml), op.num("w", a.cfg.w), op.num("h", a.cfg.h)); return; }
        if ((w != "build" && w != "rebuild") || r.st != ST_OK) return;
        LevelSet& L = *a.ls; Grid g(a.cfg); R->checks++; R->nontrivial = 1; probe(w == "build" ? 1 : 2); probe(10 + a.cfg.init);
        if (L.signedDistance.size() != (size_t)g.nNodes() || L.velocity.size() != L.signedDistance.size() || L.gradient.size() != L.signedDistance.size()) { fail("fresh-size", "a new level set has %zu distances, %zu velocities and %zu gradients for %d nodes", L.signedDistance.size(), L.velocity.size(), L.gradient.size(), g.nNodes()); return; }
        if (!judgeGrid(a, w.c_str())) return;
        for (int i = 0; i < g.nNodes(); i++) {
            double lo, hi; freshDistance(a.cfg, false, g.X(i), g.Y(i), lo, hi);
            if (!(L.signedDistance[i] >= lo && L.signedDistance[i] <= hi)) { fail("fresh", "a new level set (kind %d) has %.15g at node (%d,%d) instead of %.15g", a.cfg.init, L.signedDistance[i], g.X(i), g.Y(i), (lo + hi) / 2); return; }
            if (L.mesh.nodes[i].isMasked) { fail("fresh-mask", "node (%d,%d) of a new level set is masked", g.X(i), g.Y(i)); return; }
        }
        judgeBand(a, w.c_str()); if (R->failed) return;
        if (!a.cfg.hasTarget()) { if (!L.target.empty()) fail("fresh-target", "a level set without a target has one"); return; }
        V raw(g.nNodes()); bool sure = true; for (int i = 0; i < g.nNodes(); i++) { double lo, hi; freshDistance(a.cfg, true, g.X(i), g.Y(i), lo, hi); raw[i] = (lo + hi) / 2; if (hi - lo > 1e-8) sure = false; }
        if (L.target.size() != raw.size()) { fail("fresh-target", "the target has %zu nodes", L.target.size()); return; }
        probe(3);
        if (sure) { for (auto& v : raw) if (v != 0 && std::fabs(v) < 1e-9) sure = false; }
        if (sure) judgeMarch(raw, L.target, g, "the construction of the target");
        else for (int i = 0; i < g.nNodes(); i++) if (std::fabs(raw[i]) > 2e-3 && (raw[i] > 0) != (L.target[i] > 0)) { fail("fresh-target", "node (%d,%d) lies on the wrong side of the target: %g", g.X(i), g.Y(i), L.target[i]); return; }
    }
};
Plan genC19(uint64_t seed, int tier) {
    Rng r = rngFor("C19", seed); Plan p = start("C19", seed, r); int n = r.range(1, tier ? 5 : 3), w = 12, h = 12;
    SimOpt o; o.minSteps = 0; o.maxSteps = tier ? 3 : 1; o.g.pHuge = 0.006; o.g.maxW = tier ? 40 : 26; o.g.pPoints = 0.35; o.g.pTarget = 0.4; o.g.pSwiss = 0.04; o.g.swissMax = 165; o.g.pLattice = 0.25; o.g.pDomainHoles = 0.5; o.pSave = 0; o.pSens = o.pPerim = o.pFmm = 0; o.pOptimise = 0.1; o.pThrow = 0;
    for (int k = 0; k < n; k++) {
        Plan q; genCfg(q, r, k, o.g); if (r.chance(0.4)) { o.maxSteps = 1; genSim(q, r, k, o); } else addOp(q, k, "build");
        Plan f;
        for (auto l : q.lines) {
            if (l.kind == "cfg") { w = l.num("w"); h = l.num("h"); if (r.chance(0.3)) l.set("bw", r.range(3, 12)); }
            if (l.kind == "hole" && r.chance(0.04)) continue;               // possibly none at all
            if (l.kind == "hole" && r.chance(0.05)) l.set("r", r.chance(0.3) ? 0.0 : r.uni(0, 0.4 * std::max(w, h)));
            if (l.kind == "pt" && r.chance(0.05)) f.lines.push_back(l);      // a vertex given twice
            if (l.kind == "op") { l.set("n", 0); if (k && l.str("do") == "build") l.set("do", "rebuild").set("c", k).set("keep", (int)r.chance(0.4)); }
            f.lines.push_back(l);
        }
        // a polygon may go either way round
        std::vector<size_t> pi; bool flip = r.chance(0.3); for (size_t i = 0; i < f.lines.size(); i++) if (f.lines[i].kind == "pt") pi.push_back(i);
        if (flip) for (size_t i = 0; i < pi.size() / 2; i++) std::swap(f.lines[pi[i]], f.lines[pi[pi.size() - 1 - i]]);
        for (auto& l : f.lines) p.lines.push_back(l);
    }
    if (r.chance(0.06)) {
        Line& l = addOp(p, 0, "refuse"); int k = r.below(4);
        if (k == 0) l.set("bw", r.range(0, 2)); else if (k == 1) l.set("ml", r.chance(0.5) ? (r.chance(0.5) ? 0.0 : -r.logUni(1e-9, 3)) : (r.chance(0.5) ? 1.0 : 1 + r.logUni(1e-9, 3))); else if (k == 2) l.set("init", 0).set("w", r.range(4, 74)).set("h", r.range(4, 90)); else l.set("init", 0).set("w", r.range(4, 90)).set("h", r.range(4, 74));
    }
    if (r.chance(0.5)) genFaults(p, r, r.uni(0.1, 0.8));
    return p;
}
void execC19(const Plan& p) { FreshChecker c; runChecked(p, c, "a construction"); }

// ---------------------------------------------------------------- C12
struct ContourChecker : StateChecker {
    void after(App& a, const Line& op, const Outcome& r) override {
        std::string w = op.str("do"); if (r.st != ST_OK) return;
        if (w == "discretise" || w == "discretise_target") { judge(a, w == "discretise_target"); if (have && !same(sd, a.ls->signedDistance)) fail("contour-state", "discretising changed the signed distance"); R->nontrivial |= !a.b->points.empty(); probe(w == "discretise" ? 1 : 2); }
        if (w == "normals") { judgeNormals(a); probe(3); }
        if (w == "perimeter") { double t = 0; R->checks++; probe(4); judgePerims(a); for (auto& p : a.b->points) t += 2 * p.length; if (!close(t, r.ret, 1e-9 * (1 + t))) fail("perimeter", "the perimeters of the boundary points add up to %.15g instead of %.15g", r.ret, t); }
    }
    void judgePerims(App& a) {
        Boundary& b = *a.b; V t(b.points.size(), 0);
        for (auto& q : b.segments) { double l = std::hypot(b.points[q.start].coord.x - b.points[q.end].coord.x, b.points[q.start].coord.y - b.points[q.end].coord.y); t[q.start] += l; t[q.end] += l; }
        for (size_t k = 0; k < t.size() && k < a.perims.size(); k++) if (!close(t[k], a.perims[k], 1e-9)) { fail("perimeter", "boundary point (%.9g,%.9g) has a local perimeter of %.12g instead of %.12g", b.points[k].coord.x, b.points[k].coord.y, a.perims[k], t[k]); return; }
    }
    void judge(App& a, bool target) {
        LevelSet& L = *a.ls; Boundary& b = *a.b; Grid g(a.cfg); const V& s = target ? L.target : L.signedDistance; R->checks++;
        Contour c(s, g, [&](int i) { return L.mesh.nodes[i].isActive || L.mesh.nodes[i].isMasked; }, target);
        const char* what = target ? "the target" : "the structure";
        if (b.nPoints != b.points.size() || b.nSegments != b.segments.size()) { fail("contour-count", "%u points and %u segments are reported, but there are %zu and %zu", b.nPoints, b.nSegments, b.points.size(), b.segments.size()); return; }
        for (int i = 0; i < g.nNodes(); i++) { int st = L.mesh.nodes[i].status, want = c.node[i] == IN ? NodeStatus::INSIDE : c.node[i] == OUT ? NodeStatus::OUTSIDE : NodeStatus::BOUNDARY; if (st != want) { fail("contour-node", "node (%d,%d) with signed distance %.9g has status %d", g.X(i), g.Y(i), s[i], st); return; } }
        for (int e = 0; e < g.w * g.h; e++) if (!c.skip[e] && (int)L.mesh.elements[e].status != c.elem[e]) { fail("contour-element", "element (%d,%d) has status %d instead of %d", e % g.w, e / g.w, (int)L.mesh.elements[e].status, c.elem[e]); return; }
        // name the points
        size_t np = b.points.size(); std::vector<std::vector<int>> near(np); 
        std::multimap<std::pair<int, int>, int> cells; for (size_t k = 0; k < c.ends.size(); k++) cells.insert({{(int)std::floor(c.ends[k].x), (int)std::floor(c.ends[k].y)}, (int)k});
        std::vector<int> owner(np, -1);
        for (size_t k = 0; k < np; k++) {
            double x = b.points[k].coord.x, y = b.points[k].coord.y;
            if (!(x > -1e-9 && x < g.w + 1e-9 && y > -1e-9 && y < g.h + 1e-9)) { fail("contour-point", "boundary point (%.12g,%.12g) lies outside the domain", x, y); return; }
            for (int dx = -1; dx <= 1; dx++) for (int dy = -1; dy <= 1; dy++) { auto rg = cells.equal_range({(int)std::floor(x) + dx, (int)std::floor(y) + dy}); for (auto it = rg.first; it != rg.second; ++it) { auto& e = c.ends[it->second]; double d = std::max(std::fabs(e.x - x), std::fabs(e.y - y)); if (d < 2.5e-6) near[k].push_back(it->second); if (d < 1e-9) owner[k] = it->second; } }
            if (owner[k] < 0) { fail("contour-point", "%s: boundary point (%.12g,%.12g) is not on the zero contour's crossing with the grid", what, x, y); return; }
        }
        // every end of the contour has its point, once
        std::vector<int> count(c.ends.size(), 0), close_(c.ends.size(), 0); bool merged = false;
        for (size_t k = 0; k < np; k++) { count[owner[k]]++; for (int e : near[k]) close_[e]++; if (near[k].size() > 1) merged = true; }
        std::vector<char> needed(c.ends.size(), 0), maybe(c.ends.size(), 0);
        for (auto& q : c.segs) { char v = c.skip[q.e] == 1; (v ? maybe : needed)[q.p] = 1; (v ? maybe : needed)[q.q] = 1; }
        for (size_t k = 0; k < c.ends.size(); k++) {
            if (c.ends[k].b >= 0) needed[k] = 1;
            if (merged) { if (needed[k] && !close_[k]) { fail("contour-missing", "%s: no boundary point at (%.12g,%.12g)", what, c.ends[k].x, c.ends[k].y); return; } continue; }
            if (needed[k] && count[k] != 1) { fail("contour-missing", "%s: %d boundary points at (%.12g,%.12g)", what, count[k], c.ends[k].x, c.ends[k].y); return; }
        }
        // segments, element by element
        std::vector<std::vector<std::pair<int, int>>> want(g.w * g.h); for (auto& q : c.segs) want[q.e].push_back({q.p, q.q});
        std::vector<std::vector<unsigned>> have(g.w * g.h); double total = 0;
        for (size_t k = 0; k < b.segments.size(); k++) {
            auto& q = b.segments[k]; if (q.start >= np || q.end >= np || q.element >= have.size()) { fail("contour-segment", "segment %zu joins points %u and %u in element %u", k, q.start, q.end, q.element); return; }
            have[q.element].push_back(k); double l = std::hypot(b.points[q.start].coord.x - b.points[q.end].coord.x, b.points[q.start].coord.y - b.points[q.end].coord.y); total += l;
            if (!close(q.length, l, 1e-9)) { fail("contour-length", "segment %zu has length %.12g instead of %.12g", k, q.length, l); return; }
        }
        if (!close(total, b.length, 1e-8 * (1 + total))) { fail("contour-length", "the boundary has length %.12g, its segments %.12g", b.length, total); return; }
        for (int e = 0; e < g.w * g.h; e++) {
            auto& el = L.mesh.elements[e]; std::vector<unsigned> lk(el.boundarySegments.begin(), el.boundarySegments.begin() + std::min<size_t>(el.nBoundarySegments, el.boundarySegments.size())); std::sort(lk.begin(), lk.end());
            if (lk != have[e] || el.nBoundarySegments != have[e].size()) { fail("contour-lookup", "element (%d,%d) lists %u segments, but %zu lie in it", e % g.w, e / g.w, el.nBoundarySegments, have[e].size()); return; }
            if (c.skip[e] == 1) continue;
            auto match = [&](std::vector<std::pair<int, int>> wn) {
                if (wn.size() != have[e].size()) return false;
                for (unsigned k : have[e]) {
                    auto is = [&](unsigned pt, int en) { if (owner[pt] == en) return true; for (int x : near[pt]) if (x == en) return true; return false; };
                    bool f = false; for (size_t q = 0; q < wn.size() && !f; q++) { auto& sg = b.segments[k]; if ((is(sg.start, wn[q].first) && is(sg.end, wn[q].second)) || (is(sg.start, wn[q].second) && is(sg.end, wn[q].first))) { wn.erase(wn.begin() + q); f = true; } }
                    if (!f) return false;
                }
                return true; };
            bool ok = match(want[e]);
            if (!ok && c.skip[e] == 2) { auto wn = want[e]; std::swap(wn[0].second, wn[1].second); ok = match(wn); if (!ok) { wn = want[e]; std::swap(wn[0].second, wn[1].first); ok = match(wn); } }
            if (!ok) { std::string t; char bf[80]; for (unsigned k : have[e]) { auto& sg = b.segments[k]; snprintf(bf, sizeof bf, " (%.6g,%.6g)-(%.6g,%.6g)", b.points[sg.start].coord.x, b.points[sg.start].coord.y, b.points[sg.end].coord.x, b.points[sg.end].coord.y); t += bf; } t += " instead of"; for (auto& q : want[e]) { snprintf(bf, sizeof bf, " (%.6g,%.6g)-(%.6g,%.6g)", c.ends[q.first].x, c.ends[q.first].y, c.ends[q.second].x, c.ends[q.second].y); t += bf; } fail("contour-segment", "%s: element (%d,%d) holds%s", what, e % g.w, e / g.w, t.c_str()); return; }
        }
        // points: lengths, look-ups, neighbours
        std::vector<std::vector<unsigned>> inc(np), nbr(np); V len(np, 0); for (size_t k = 0; k < b.segments.size(); k++) { auto& q = b.segments[k]; inc[q.start].push_back(k); inc[q.end].push_back(k); nbr[q.start].push_back(q.end); nbr[q.end].push_back(q.start); len[q.start] += q.length / 2; len[q.end] += q.length / 2; }
        for (size_t k = 0; k < np; k++) {
            auto& p = b.points[k]; auto sorted = [](const std::vector<unsigned>& v, size_t n) { std::vector<unsigned> o(v.begin(), v.begin() + std::min(n, v.size())); std::sort(o.begin(), o.end()); return o; };
            if (p.nSegments != inc[k].size() || sorted(p.segments, p.nSegments) != sorted(inc[k], 1000)) { fail("contour-lookup", "boundary point (%.9g,%.9g) lists %u segments, but %zu end there", p.coord.x, p.coord.y, p.nSegments, inc[k].size()); return; }
            if (p.nNeighbours != nbr[k].size() || sorted(p.neighbours, p.nNeighbours) != sorted(nbr[k], 1000)) { fail("contour-lookup", "boundary point (%.9g,%.9g) lists %u neighbours instead of %zu, or others", p.coord.x, p.coord.y, p.nNeighbours, nbr[k].size()); return; }
            if (!close(p.length, len[k], 1e-9)) { fail("contour-length", "boundary point (%.9g,%.9g) has length %.12g instead of %.12g", p.coord.x, p.coord.y, p.length, len[k]); return; }
        }
        if (!merged) {
            std::vector<std::vector<unsigned>> at(g.nNodes()); for (size_t k = 0; k < np; k++) { auto& e = c.ends[owner[k]]; at[e.a].push_back(k); if (e.b >= 0) at[e.b].push_back(k); }
            for (int i = 0; i < g.nNodes(); i++) { auto& n = L.mesh.nodes[i]; std::vector<unsigned> o(n.boundaryPoints.begin(), n.boundaryPoints.begin() + std::min<size_t>(n.nBoundaryPoints, n.boundaryPoints.size())); std::sort(o.begin(), o.end()); if (n.nBoundaryPoints != at[i].size() || o != at[i]) { fail("contour-lookup", "node (%d,%d) lists %u boundary points, but %zu lie on its edges", g.X(i), g.Y(i), n.nBoundaryPoints, at[i].size()); return; } }
        } else probe(5);
    }
    void judgeNormals(App& a) {
        LevelSet& L = *a.ls; Boundary& b = *a.b; Grid g(a.cfg); const V& s = L.signedDistance; R->checks++;
        std::vector<V> nx(g.nNodes());
        size_t np = b.points.size(); V sx(np, 0), sy(np, 0), wt(np, 0), mag(np, 0); std::vector<char> on(np, 0), amb(np, 0);
        for (int i = 0; i < g.nNodes(); i++) {
            auto& n = L.mesh.nodes[i]; if (!n.isActive) continue; int x = g.X(i), y = g.Y(i);
            auto d = [&](int lo, int hi, int mx, int v, std::function<double(int)> f) { (void)lo; (void)hi; return v == 0 ? f(1) - f(0) : v == mx ? f(mx) - f(mx - 1) : 0.5 * (f(v + 1) - f(v - 1)); };
            double gx = d(0, 0, g.w, x, [&](int q) { return s[g.n(q, y)]; }), gy = d(0, 0, g.h, y, [&](int q) { return s[g.n(x, q)]; }), gr = std::hypot(gx, gy);
            for (unsigned j = 0; j < n.nBoundaryPoints; j++) { unsigned k = n.boundaryPoints[j]; if (k >= np) { fail("contour-lookup", "node (%d,%d) lists boundary point %u of %zu", x, y, k, np); return; }
                if (gr < 1e-12) { if (gr > 0) amb[k] = 1; continue; }
                double r2 = (x - b.points[k].coord.x) * (x - b.points[k].coord.x) + (y - b.points[k].coord.y) * (y - b.points[k].coord.y);
                if (std::fabs(r2 - 1e-6) < 1e-12) amb[k] = 1;
                if (r2 < 1e-6) { sx[k] = gx / gr; sy[k] = gy / gr; wt[k] = 1; if (on[k]) amb[k] = 1; on[k] = 1; mag[k] = 1; } else if (!on[k]) { sx[k] += gx / gr / r2; sy[k] += gy / gr / r2; wt[k] += 1 / r2; mag[k] += 1 / r2; } }
        }
        for (size_t k = 0; k < np; k++) {
            auto& p = b.points[k]; double n = std::hypot(p.normal.x, p.normal.y);
            if (p.isDomain || amb[k]) continue;
            double m = std::hypot(sx[k], sy[k]);
            if (wt[k] == 0 || m < 1e-6 * mag[k]) { if (wt[k] == 0 && n != 0) { fail("normal", "boundary point (%.9g,%.9g) has normal (%g,%g) although none is defined there", p.coord.x, p.coord.y, p.normal.x, p.normal.y); return; } continue; }
            if (!close(n, 1, 1e-9) || !close(p.normal.x, sx[k] / m, 1e-6) || !close(p.normal.y, sy[k] / m, 1e-6)) { fail("normal", "boundary point (%.9g,%.9g) has normal (%.9g,%.9g) instead of (%.9g,%.9g)", p.coord.x, p.coord.y, p.normal.x, p.normal.y, sx[k] / m, sy[k] / m); return; }
        }
    }
};
Plan genC12(uint64_t seed, int tier) {
    Rng r = rngFor("C12", seed); Plan p = start("C12", seed, r);
    SimOpt o; o.pField = 0.3; o.maxSteps = tier ? 10 : 6; o.g.pHuge = 0.0015; o.g.maxW = tier ? 30 : 22; o.g.minW = 4; o.g.pMask = 0.4; o.g.pLattice = 0.4; o.g.pFixed = 0.3; o.pMaskMid = 0.12; o.pNormals = 0.7; o.pPerim = 0.3; o.pFmm = o.pSens = 0; o.pIto = 0.1; o.pOptimise = 0.15; o.pSave = 0; o.pThrow = 0; o.g.pDomainHoles = 0.5; o.g.pTarget = 0.3; o.pTargetDisc = 0.6;
    maybeLong(o, r, 0.03); genCfg(p, r, 0, o.g); genSim(p, r, 0, o); if (r.chance(0.3)) genFaults(p, r, r.uni(0.02, 0.2));
    return p;
}
void execC12(const Plan& p) { ContourChecker c; runChecked(p, c, "a simulation"); }

// ---------------------------------------------------------------- C13
struct AreaChecker : StateChecker {
    void after(App& a, const Line& op, const Outcome& r) override {
        if (op.str("do") != "area" || r.st != ST_OK) return;
        LevelSet& L = *a.ls; Boundary& b = *a.b; Grid g(a.cfg); bool target = a.targetBoundary; const V& s = target ? L.target : L.signedDistance; R->checks++; R->nontrivial = 1; probe(target ? 2 : 1);
        Contour c(s, g, [&](int i) { return L.mesh.nodes[i].isActive || L.mesh.nodes[i].isMasked; }, target);
        double total = 0;
        for (int e = 0; e < g.w * g.h; e++) {
            double got = L.mesh.elements[e].area; total += got;
            if (!(got >= -3e-6 && got <= 1 + 3e-6)) { fail("area-range", "element (%d,%d) has area fraction %.12g", e % g.w, e / g.w, got); return; }
            if (c.skip[e] == 1) continue;
            int q[4]; g.corners(e, q); int in = 0, out = 0; for (int k = 0; k < 4; k++) { in += c.node[q[k]] == IN; out += c.node[q[k]] == OUT; }
            double want;
            V px, py; auto add = [&](double x, double y) { px.push_back(x); py.push_back(y); };
            auto poly = [&]() { double t = 0; for (size_t i = 0; i < px.size(); i++) { size_t j = (i + 1) % px.size(); t += px[i] * py[j] - px[j] * py[i]; } return std::fabs(t) / 2; };
            auto cutPt = [&](int i, int j, double& x, double& y) { double t = s[i] / (s[i] - s[j]); x = g.X(i) + t * (g.X(j) - g.X(i)); y = g.Y(i) + t * (g.Y(j) - g.Y(i)); };
            if (out == 0) want = 1; else if (in == 0) want = 0;
            else if (in == 2 && out == 2 && c.node[q[0]] == c.node[q[2]]) {
                // which corners does the boundary cut off?
                probe(3);
                auto tri = [&](int k) { double x1, y1, x2, y2; cutPt(q[k], q[(k + 1) % 4], x1, y1); cutPt(q[k], q[(k + 3) % 4], x2, y2); return std::hypot(x1 - g.X(q[k]), y1 - g.Y(q[k])) * std::hypot(x2 - g.X(q[k]), y2 - g.Y(q[k])) / 2; };
                int cutOff = -1;
                for (auto& sg : b.segments) if ((int)sg.element == e) { double x1, y1, x2, y2; cutPt(q[0], q[1], x1, y1); cutPt(q[0], q[3], x2, y2); auto& A = b.points[sg.start].coord; auto& B = b.points[sg.end].coord; auto is = [](const Coord& c, double x, double y) { return std::fabs(c.x - x) + std::fabs(c.y - y) < 1e-5; }; bool f1 = is(A, x1, y1) || is(B, x1, y1), f2 = is(A, x2, y2) || is(B, x2, y2); if (f1 && f2) cutOff = 0; else if (f1 && cutOff < 0) cutOff = 1; }
                double mid = (s[q[0]] + s[q[1]] + s[q[2]] + s[q[3]]) / 4;
                if (std::fabs(mid) > 1e-9) cutOff = (mid > 0) == (c.node[q[0]] == IN) ? 1 : 0;
                if (cutOff < 0) continue;
                double t = tri(cutOff) + tri(cutOff + 2); want = c.node[q[cutOff]] == IN ? t : 1 - t;
            } else {
                for (int k = 0; k < 4; k++) {
                    int i = q[k], n = q[(k + 1) % 4], pv = q[(k + 3) % 4];
                    if (c.node[i] == IN || (c.node[i] == ON && !(c.node[n] == OUT && c.node[pv] == OUT))) add(g.X(i), g.Y(i));
                    if ((c.node[i] | c.node[n]) == (IN | OUT)) { double x, y; cutPt(i, n, x, y); add(x, y); }
                }
                want = poly();
            }
            if (!close(got, want, 1e-5)) { fail("area", "element (%d,%d) with signed distances %.6g %.6g %.6g %.6g has area fraction %.9g instead of %.9g", e % g.w, e / g.w, s[q[0]], s[q[1]], s[q[2]], s[q[3]], got, want); return; }
        }
        if (!close(total, L.area, 1e-8 * (1 + total)) || !close(r.ret, L.area, 0)) { fail("area-total", "the total area %.12g (returned %.12g) is not the sum of the elements, %.12g", L.area, r.ret, total); return; }
        if (have && !same(sd, L.signedDistance)) fail("area-state", "computing area fractions changed the signed distance");
    }
};
Plan genC13(uint64_t seed, int tier) {
    Rng r = rngFor("C13", seed); Plan p = start("C13", seed, r);
    SimOpt o; o.pField = 0.3; o.maxSteps = tier ? 10 : 6; o.g.pHuge = 0.0015; o.g.maxW = tier ? 30 : 22; o.g.minW = 4; o.g.pMask = 0.4; o.g.pLattice = 0.5; o.g.pFixed = 0.4; o.pMaskMid = 0.12; o.pArea = 1; o.pNormals = 0.1; o.pPerim = 0.1; o.pFmm = o.pSens = 0; o.pIto = 0.1; o.pOptimise = 0.15; o.pSave = 0; o.pThrow = 0; o.g.pDomainHoles = 0.5; o.g.pTarget = 0.3; o.pTargetDisc = 0.6;
    maybeLong(o, r, 0.03); genCfg(p, r, 0, o.g); genSim(p, r, 0, o); if (r.chance(0.3)) genFaults(p, r, r.uni(0.02, 0.2));
    return p;
}
void execC13(const Plan& p) { AreaChecker c; runChecked(p, c, "a simulation"); }
} // namespace sim
