// Generation of simulated histories.
#include "app.h"
#include <cmath>
namespace sim {
void genKnobs(Plan& p, Rng& r) {
    Line& k = p.add("knob");
    for (int s = 0; s < 3; s++) {
        char b[16]; auto key = [&](const char* n) { snprintf(b, sizeof b, s ? "%s%d" : "%s", n, s); return b; };
        k.set(key("fill"), r.chance(0.5) ? 3 : r.range(0, 3)); k.set(key("salt"), r.range(0, 1000000)); k.set(key("pad"), r.chance(0.5) ? 0 : r.range(1, 1000));
        k.setU(key("entropy"), r.below(1000000007)); k.setU(key("clock"), r.below(4000000000ULL)); k.set(key("cstep"), r.chance(0.5) ? 1000 : r.range(-1000000, 100000000)); k.set(key("stack"), r.range(0, 255));
    }
}
static void cfgOf(const Plan& p, int node, int& w, int& h, double& ml, int& init) { for (auto& l : p.lines) if (l.kind == "cfg" && l.num("n") == node) { w = l.num("w"); h = l.num("h"); ml = l.dbl("ml"); init = l.num("init"); } }

static void genOptimise(Plan& p, Rng& r, int node, double ml, const SimOpt& o) {
    int nc = r.chance(0.35) ? 0 : r.range(1, 2); if (r.chance(0.1)) nc = 3;
    Line& l = addOp(p, node, "optimise");
    l.set("nc", nc).set("max", (int)r.chance(0.4)).set("md", r.chance(0.5) ? 0.5 : r.uni(0.05, 0.95)).set("eq", r.range(0, 7)).set("kx", r.uni(-0.7, 0.7)).set("ky", r.uni(-0.7, 0.7)).set("ph", r.uni(0, 6.28)).set("o0", r.uni(-1, 1)).set("sc", r.logUni(0.01, 100));
    l.set("v1", r.chance(0.5) ? 0.0 : r.uni(0, 0.9)).set("o2", r.uni(-0.5, 0.5));
    for (int i = 1; i <= nc; i++) { char b[8]; snprintf(b, sizeof b, "cd%d", i); double m = r.logUni(0.01, 200); l.set(b, r.chance(0.55) ? -m : m); }
    if (r.chance(0.15)) l.set("noeq", 1);
    if (r.chance(0.3)) l.set("l0", r.uni(-0.5, 0.5));
    if (r.chance(0.25)) { l.set("prior", r.range(1, 3)).set("pf", r.uni(0, 6.28)); if (r.chance(0.2)) l.set("pround", 1); }
    if (r.chance(0.5)) l.set("reuse", 1);
    if (o.solverFaults && r.chance(0.45)) {
        static const char* k[] = {"roundoff", "early", "roundoff", "stay", "ok"};
        std::string s; int n = r.range(1, 3); for (int i = 0; i < n; i++) { if (i) s += ","; s += k[r.below(5)]; }
        if (r.chance(0.05)) s += ",oom"; else if (r.chance(0.06)) s += ",invalid";
        if (r.chance(0.04)) { s = "roundoff"; for (int i = r.range(3, r.chance(0.8) ? 12 : 60); i > 0; i--) s += ",roundoff"; }
        l.set("script", s); if (r.chance(0.12)) l.set("rest", r.chance(0.85) ? "roundoff" : r.chance(0.5) ? "early" : "invalid");
    }
    (void)ml;
}
void maybeLong(SimOpt& o, Rng& r, double prob) {
    if (!r.chance(prob)) return;
    o.g.minW = 6; o.g.maxW = 11; o.g.pSwiss = 0; o.minSteps = 17; o.maxSteps = 40; o.slow = r.uni(0.05, 0.5);
    o.pOptimise *= 0.3; o.pMaskMid *= 0.3; o.pNormals *= 0.5; o.pPerim *= 0.3; o.pSens *= 0.3; o.pFmm *= 0.3; o.pReinit = r.chance(0.5) ? 0 : o.pReinit; o.pCkpt *= 0.3; o.pGrow = 0.1;
}
static void genField(Plan& p, Rng& r, int node, const SimOpt& o) {
    int k = r.below(5); Line& l = addOp(p, node, "field");
    l.set("kind", k).setU("s", r.below(1000000007)).set("a", k == 3 ? r.logUni(1e-3, 3) : r.uni(0.3, 3)).set("wl", k == 0 ? r.uni(0.2, 1.6) : r.logUni(0.01, 1)).set("bias", r.uni(0.3, 1.7));
    addOp(p, node, "reinit");
}
void genSim(Plan& p, Rng& r, int node, const SimOpt& o) {
    int w = 12, h = 12, init = 1; double ml = 0.5; cfgOf(p, node, w, h, ml, init);
    addOp(p, node, "build");
    if (r.chance(o.g.pMask)) { genMask(p, r, node, w, h); if (r.chance(0.2)) genMask(p, r, node, w, h); }
    bool field = r.chance(o.pField);
    if (field) genField(p, r, node, o); else if (r.chance(0.75)) addOp(p, node, "reinit");
    uint64_t lastSeed = r.chance(0.15) ? 4711 : seedValue(r);           // sometimes the seed the generator already has
    addOp(p, node, "seed").setU("s", lastSeed);
    int steps = r.range(o.minSteps, o.maxSteps), ck = 0; size_t saved = 0; bool huge = w * h > 40000; if (huge) steps = std::min(steps, 1);
    bool optLoop = r.chance(o.pOptimise) && !huge;
    double kx = r.uni(-0.6, 0.6), ky = r.uni(-0.6, 0.6), off = r.uni(-0.8, 0.8), T = o.slow * o.slow * r.logUni(1e-5, 0.2);
    double pRe = r.chance(0.3) ? 0 : o.pReinit, amp = r.uni(0.2, 1.1), ph = r.uni(0, 6.28);
    if (r.chance(o.pGrow)) { kx = ky = 0; if (o.pGrow > 0.3) { pRe = r.chance(0.7) ? 0 : pRe; amp = r.uni(0.6, 1.1); optLoop = false; } ph = M_PI / 2; off = r.chance(0.5) ? 0 : -2; }     // uniform growth or shrinkage: the interface leaves the band's middle
    int churn = r.chance(o.pChurn) && !huge ? (int)r.below(steps) : -1;
    for (int s = 0; s < steps; s++) {
        if (o.pCkpt > 0 && (s == 0 ? r.chance(0.8) : r.chance(o.pCkpt))) addOp(p, node, "ckpt").set("k", ck++).setU("s", r.below(1000000));
        if (churn == s) addOp(p, node, "churn").set("own", (int)r.chance(0.7)).set("k", (int)r.logUni(10, 400)).set("what", r.range(1, 31)).setU("s", r.below(1000));
        if (init >= 3 && r.chance(o.pTargetDisc)) { addOp(p, node, "discretise_target"); if (r.chance(0.5)) addOp(p, node, "area"); }
        addOp(p, node, "discretise");
        if (r.chance(o.pArea)) addOp(p, node, "area");
        bool nrm = r.chance(o.pNormals); if (nrm) addOp(p, node, "normals");
        if (r.chance(o.pPerim)) addOp(p, node, "perimeter");
        if (r.chance(o.pSens)) { if (!nrm) addOp(p, node, "normals"); Line& l = addOp(p, node, "sens"); l.set("delta", r.chance(0.5) ? 1e-4 : r.logUni(1e-6, 0.3)).set("q", r.uni(-1, 1)).set("kx", r.uni(-2, 2)); if (r.chance(0.4)) l.set("pc", 1); if (r.chance(o.pThrow)) { l.set("throw", r.range(0, 60)); if (r.chance(0.4)) l.set("tk", r.range(1, 2)); } }
        double dt = r.chance(0.5) ? 0.5 : r.logUni(0.02, 2);
        if (optLoop && r.chance(0.85)) genOptimise(p, r, node, ml, o);
        else { bool uni = kx == 0 && ky == 0; addOp(p, node, "setvel").set("dt", dt).set("a", ml / dt * o.slow * (uni ? amp : r.uni(0.2, 1.1))).set("kx", uni ? 0.0 : kx + r.uni(-0.1, 0.1)).set("ky", ky).set("ph", uni ? ph : r.uni(0, 6.28)).set("off", off); }
        if (r.chance(o.pIto)) addOp(p, node, "ito").set("T", T);
        if (r.chance(o.pNoise)) addOp(p, node, "noise").set("T", r.chance(0.05) ? 0.0 : T); else addOp(p, node, "vel");
        if (r.chance(o.pSmear)) addOp(p, node, "smear").set("b", r.range(0, 255));
        addOp(p, node, "grad");
        if (r.chance(o.pSave) && !huge) {
            static const char* kk[] = {"bin", "txt", "vtk", "points", "segments", "area_vtk", "area_txt"};
            Line& l = addOp(p, node, "save"); int k = r.chance(0.35) ? 0 : r.chance(0.4) ? 1 : r.chance(0.5) ? 2 : 3 + (int)r.below(4);
            l.set("kind", kk[k]).set("v", (int)r.chance(0.5)).set("g", (int)r.chance(0.5)).set("xy", (int)r.chance(0.5));
            if (r.chance(0.5)) l.set("dp", node * 1000 + s); else l.set("file", std::string("n") + std::to_string(node) + "f" + std::to_string(s));
            if (k < 2) saved = p.lines.size();
        }
        addOp(p, node, "update");
        if (r.chance(pRe)) addOp(p, node, "reinit");
        if (r.chance(o.pFmm)) addOp(p, node, "fmm").set("test", (int)(r.chance(0.3) && init != 0 && !huge));
        if (saved && r.chance(o.pLoad)) {           // go back to a state that was saved
            Line l = p.lines[saved - 1]; l.set("do", "load"); p.lines.push_back(l); addOp(p, node, "reinit");
        }
        if (field && r.chance(0.15)) genField(p, r, node, o);
        if (r.chance(o.pMaskMid)) { genMask(p, r, node, w, h); saved = 0; }
        if (r.chance(o.pDraw)) addOp(p, node, "draw").set("k", r.range(1, 9)).set("kind", r.range(0, 3));
        if (r.chance(o.pReseed)) { if (r.chance(0.7)) lastSeed = seedValue(r); addOp(p, node, "seed").setU("s", lastSeed); }
    }
    addOp(p, node, "discretise"); addOp(p, node, "area"); if (r.chance(o.pNormals)) addOp(p, node, "normals");
}
}
