#include "hist.h"
#include "ref.h"
#include "solver.h"
#include <cmath>
#include <memory>
#include <pthread.h>
#include <sys/mman.h>

namespace sim {
using namespace slsm;

enum { S_EXITOK = 63, S_FIRED = 0 /* ..39: crash lines already struck */ };
Slot* slot(int variant, int node) { return (Slot*)(R->blob) + variant * 3 + node; }
static_assert(sizeof(Slot) * 12 <= sizeof(((RunRecord*)0)->blob), "blob too small");
const Rec* findRec(const Slot* s, int line) { for (uint32_t i = 0; i < s->n; i++) if (s->r[i].line == line) return &s->r[i]; return nullptr; }
std::vector<int> planNodes(const Plan& p) { std::vector<int> v; for (auto& l : p.lines) if (l.kind == "cfg") v.push_back(l.num("n")); return v; }

void armKnobs(const Plan& p, int s) {
    char b[16]; auto key = [&](const char* n) { snprintf(b, sizeof b, s ? "%s%d" : "%s", n, s); return b; };
    A.fillMode = p.knobNum(key("fill"), 3); A.fillSalt = p.knobNum(key("salt")); A.padMode = p.knobNum(key("pad"));
    E.entropySeed = p.knobNum(key("entropy"), 1); E.clock = p.knobNum(key("clock"), 1500000000) * 1000000000LL; E.clockStep = p.knobNum(key("cstep"), 1000);
    int st = p.knobNum(key("stack"), 0xA7); g_stackByte = (uint8_t)st; smearStack(g_stackByte);
    if (A.fillMode != 3 || A.fillSalt) fired(F_HEAP_GARBAGE);
    if (st != 0xA7) fired(F_STACK_GARBAGE);
}

// May the library refuse this operation?
static bool exitAllowed(App& a, const Line& op) {
    std::string w = op.str("do");
    if (w == "build") return a.cfg.init == 3;
    if (w == "rebuild") return a.nextCfg.init == 3;
    if (w == "refuse") return true;
    if (w.compare(0, 4, "mask") == 0) {
        for (unsigned i = 0; i < a.ls->mesh.nNodes; i++) if (a.ls->signedDistance[i] > 0 && ref::maskSide(op, a.ls->mesh.nodes[i].coord.x, a.ls->mesh.nodes[i].coord.y) < 0) return false;
        return true;
    }
    if (w == "save" || w == "load" || w == "ckpt") return TA.failAt >= 0;
    if (w == "optimise") return (op.str("script") + op.str("rest")).find("invalid") != std::string::npos;
    if (w == "update" && a.gradFresh) {
        // the structure (or the void) may vanish, which leaves nothing to reinitialise from
        std::vector<double> s = a.ls->signedDistance; double vmax = 0, m = 0; for (double v : a.ls->velocity) vmax = std::max(vmax, std::fabs(v));
        double dt = a.lastDt; if (vmax * dt > 0.9) dt = 0.9 / vmax;
        for (unsigned i = 0; i < a.ls->nNarrowBand; i++) { unsigned n = a.ls->narrowBand[i]; s[n] -= dt * a.ls->gradient[n] * a.ls->velocity[n]; if (a.ls->mesh.nodes[n].isDomain && s[n] > 0) s[n] = 0; }
        bool zero = false, pos = false; for (double v : s) { if (v == 0) zero = true; if (v > 1e-12) pos = true; m = std::min(m, v); }
        return !zero && (!pos || m > -1e-12);
    }
    return false;
}
bool judgeEnd(const ProcResult& r, const char* where) {
    if (endedBadly(r, where)) return true;
    if (r.kind == ProcResult::EXITED) {
        R->errlog[std::min<uint32_t>(R->errlogLen, sizeof R->errlog - 1)] = 0;
        if (r.code == 0) { fail("exit", "the library ended the program with a success status during %s", where); return true; }
        if (R->scratch[S_EXITOK] && R->errlogLen) { probe(40); return true; }
        if (strstr(R->errlog, "Divide by zero")) { probe(41); return true; }
        fail("refused", "the library refused a legal operation during %s: %.200s", where, R->errlog); return true;
    }
    return false;
}

struct NodeRun {
    const Plan& plan; const ExecOpt& o; App& a; Slot* out; std::vector<Line> pend;
    NodeRun(const Plan& p, const ExecOpt& o_, App& a_) : plan(p), o(o_), a(a_), out(slot(o_.variant, a_.node)) {}
    Outcome attempt(const Line& op) {
        if (op.str("do") == "rebuild") a.nextCfg = readCfg(plan, op.num("c"));
        if (o.checkers && (a.ls || op.str("do") == "build")) for (auto c : *o.checkers) c->before(a, op);
        R->scratch[S_EXITOK] = (a.ls || op.str("do") == "build" || op.str("do") == "rebuild") ? exitAllowed(a, op) : 0;
        Outcome r = a.apply(op);
        R->scratch[S_EXITOK] = 0;
        if (o.checkers && a.ls) for (auto c : *o.checkers) c->after(a, op, r);
        R->ops++;
        logEvent("n%d %s st=%d", a.node, op.str("do").c_str(), r.st);
        return r;
    }
    // The application's reaction to an operation that ran out of memory.
    Outcome recover(const Line& op, Outcome r, uint64_t sdBefore, uint64_t velBefore, bool& retOk) {
        std::string w = op.str("do");
        for (int tries = 0; r.st == ST_BADALLOC && tries < 8 && !R->failed; tries++) {
            TA = AllocFault();
            if (w == "build") { a.ls.reset(); a.b.reset(); a.rng.reset(); r = attempt(op); }
            else if (w == "update" && a.digestSd() != sdBefore) { Line l; l.kind = "op"; l.set("n", a.node).set("do", "reinit"); Outcome q = attempt(l); r = q; r.ret = q.st == ST_OK ? 1 : 0; }
            else if (w == "update") { a.gradFresh = true; r = attempt(op); }
            else if (w == "noise" && velDigest() != velBefore) { Line l; l.kind = "op"; l.set("n", a.node).set("do", "vel"); Outcome q = attempt(l); r.st = q.st; retOk = false; }
            else r = attempt(op);
        }
        return r;
    }
    uint64_t velDigest() { uint64_t h = a.rng ? hashBytes(a.rng.get(), sizeof(MersenneTwister), 3) : 3;   /* and of the generator: have deviates been drawn? */ if (a.b) for (auto& p : a.b->points) h = hashBytes(&p.velocity, 8, h); return h; }
    void predraw(int k) {
        if (o.knobSet == 0 || !a.rng) return;
        Rng r(plan.knobNum("pre") * 131 + k); int n = r.range(0, 5); for (int i = 0; i < n; i++) { LibScope S; switch (r.below(4)) { case 0: (void)(*a.rng)(); break; case 1: (void)a.rng->normal(); break; case 2: (void)a.rng->normal(1, 2); break; default: (void)a.rng->integer(0, 9); } fired(F_RESEED); }
    }
    void restart() {
        // a new process: same construction, same masks, the checkpoint, one reinitialisation
        fired(F_RESTART);
        const Line* ck = &plan.lines[o.restartLine];
        Line b; b.kind = "op"; b.set("n", a.node).set("do", "build"); attempt(b);
        for (int i = 0; i < o.restartLine; i++) { auto& l = plan.lines[i]; if (l.kind == "op" && l.num("n") == a.node && l.str("do").compare(0, 4, "mask") == 0) attempt(l); }
        Line ld; ld.kind = "op"; ld.set("n", a.node).set("do", "load").set("kind", "bin").set("dp", ck->num("k")).set("dir", "ck"); attempt(ld);
        R->scratch[61] = 1;
        Line re; re.kind = "op"; re.set("n", a.node).set("do", "reinit"); attempt(re);
        Line sd; sd.kind = "op"; sd.set("n", a.node).set("do", "seed").setU("s", ck->u64("s", 1)); attempt(sd);
        a.lastDt = 0.5; a.simTime = 0;
        record(o.restartLine, Outcome{ST_OK, 0}, 0, 0, 0, 0);
    }
    void record(int line, const Outcome& r, uint64_t steps, uint64_t allocs, uint64_t sys, uint64_t hits) {
        if (out->n >= MAXREC) return;
        Rec& q = out->r[out->n]; q.line = line; q.st = r.st; q.ret = r.ret; q.dt = a.lastDt; q.dig = a.digest(); q.evo = a.digestEvolution(); q.steps = steps; q.allocs = allocs; q.sys = sys; q.hits = hits; out->n++;
        logHash(q.dig); R->stateHash = q.dig;
    }
    void run() {
        a.cfg = readCfg(plan, a.node);
        int crashNo = 0;
        if (o.restartLine >= 0) {
            for (size_t li = 0; li < plan.lines.size(); li++) { auto& l = plan.lines[li]; if (o.crash && l.kind == "fault" && l.str("do") == "rcrash" && li < 2500 && !(R->scratch[li >> 6] >> (li & 63) & 1)) { R->scratch[li >> 6] |= 1ULL << (li & 63); crashAtStep(g_steps + 1 + (uint64_t)(l.dbl("frac") * 60000)); break; } }
            restart(); crashAtStep(~0ULL);
        }
        for (size_t li = 0; li < plan.lines.size() && !R->failed; li++) {
            const Line& l = plan.lines[li];
            if ((l.kind != "op" && l.kind != "fault") || l.num("n") != a.node || (int)li <= o.restartLine) continue;
            if (l.kind == "fault") { pend.push_back(l); pend.back().set("li", (long)li); continue; }
            if (l.num("obs") && !o.observers) { pend.clear(); continue; }
            std::string w = l.str("do");
            if (w == "seed") predraw((int)li);
            uint64_t s0 = g_steps, y0 = g_sys; int64_t al0 = 0;
            uint64_t sdB = a.digestSd(), velB = velDigest();
            TA = AllocFault();
            bool crashArmed = false;
            for (auto& f : pend) {
                std::string d = f.str("do"); long fl = f.num("li");
                if (d == "alloc" && o.faults) { TA.failAt = f.num("nth"); TA.failRun = f.num("run", 1); }
                if (d == "crash" && o.crash && o.ref && fl < 2500 && !(R->scratch[fl >> 6] >> (fl & 63) & 1)) {
                    const Rec* ref = findRec(o.ref, li); if (!ref) continue;
                    R->scratch[fl >> 6] |= 1ULL << (fl & 63);
                    std::string what = f.str("what", "step"); double fr = f.dbl("frac");
                    if (what == "step" || ref->sys == 0) crashAtStep(g_steps + 1 + (uint64_t)(fr * ref->steps));
                    else if (what == "sys") crashAtSyscall(g_sys + (uint64_t)(fr * ref->sys));
                    else crashMidSyscall(g_sys + (uint64_t)(fr * ref->sys));
                    crashArmed = true;
                }
            }
            pend.clear();
            Outcome r = attempt(l); uint64_t hits = TA.hits; al0 = TA.n;
            if (crashArmed) { crashAtStep(~0ULL); crashAtSyscall(~0ULL); }
            uint64_t st = g_steps - s0, sy = g_sys - y0; bool retOk = true;
            if (r.st == ST_BADALLOC && !hits && l.str("script").find("oom") == std::string::npos) fail("spurious-failure", "%s reported a lack of memory that did not happen", w.c_str());
            if (r.st == ST_BADALLOC) { r = recover(l, r, sdB, velB, retOk); if (r.st == ST_BADALLOC) { if (!hits || l.str("script").find("oom") != std::string::npos || l.str("rest") == "oom") { a.dead = true; } else fail("no-recovery", "%s keeps failing after memory is available again", w.c_str()); } }
            TA = AllocFault();
            if (w == "optimise" && r.st == ST_EXC) a.velFresh = false;
            if (!retOk) r.ret = 0;
            if (r.st == ST_OK && l.num("rep") && !R->failed) {
                uint64_t d1 = a.digest(); Outcome q = attempt(l);
                if (memcmp(&q.ret, &r.ret, 8) || (!l.num("obs") && a.digest() != d1)) fail("not-repeatable", "repeating %s gave another answer", w.c_str());
                R->checks++;
            }
            if (l.num("obs")) { if (r.st == ST_EXC) fail("observer-failed", "%s threw an exception", w.c_str()); }
            record((int)li, r, st, al0, sy, hits | (retOk ? 0 : 0x10000));
            // work proportional to the mesh (optimising evaluates its functions many times)
            double n = (a.cfg.w + 1.0) * (a.cfg.h + 1.0), np = a.b ? a.b->points.size() : 0;
            double lim = (w == "churn" ? 2e4 * n * l.num("k") + 2e6 * l.num("k") : w == "fmm" ? (l.num("test") ? 100 * n * n : 8e3 * n) + 1e5 : w == "optimise" ? 4e5 * (np + 10) : w == "perimeter" || w == "lookup" || w == "sens" || w == "ito" || w == "draw" || w == "twin" ? 4e3 * n + 2e4 * (np + 10) : 4e3 * n + 1e5);
            if (!o.interleave && st / lim * 1e6 > R->scratch[59]) R->scratch[59] = (uint64_t)(st / lim * 1e6);
            if (!o.interleave && st > lim) fail("work", "%s executed %llu basic blocks on a mesh of %g nodes", w.c_str(), (unsigned long long)st, n);
            if (a.dead) { probe(42); break; }
        }
        out->done = 1;
        logEvent("n%d done", a.node);
    }
};

// A mesh that is large compared with the stack of the thread that simulates it, scaled down.
static void onSmallStack(long kb, std::function<void()> fn) {
    size_t guard = 32 << 20, n = kb * 1024; char* m = (char*)mapStack(20, guard + n);
    if (!m || mprotect(m, guard, PROT_NONE)) { harnessError("no memory for a stack"); return; }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, m + guard, n);
    pthread_t th; if (pthread_create(&th, &at, [](void* f) -> void* { try { (*(std::function<void()>*)f)(); } catch (const std::exception& e) { t_lib = 0; harnessError("exception escaped a node: %s", e.what()); } return nullptr; }, &fn)) { harnessError("pthread_create"); return; }
    pthread_join(th, nullptr); pthread_attr_destroy(&at); munmap(m, guard + n);
}
ProcResult runHistory(const Plan& p, const ExecOpt& o, const char* where) {
    std::vector<int> nodes = o.nodes.empty() ? planNodes(p) : o.nodes;
    for (int n : nodes) { Slot* s = slot(o.variant, n); s->n = 0; s->done = 0; }
    R->errlogLen = 0; R->scratch[S_EXITOK] = 0;
    uint64_t budget = 400000000ULL, ops = 0; for (auto& l : p.lines) ops += l.kind == "op";       // work is proportional to the mesh
    for (auto& l : p.lines) if (l.kind == "cfg" && l.num("w") * l.num("h") > 40000) budget += (uint64_t)(l.num("w") * l.num("h")) * ops * 1000;
    return runProcess([&]() {
        armKnobs(p, o.knobSet);
        {
            std::vector<std::unique_ptr<App>> apps; std::vector<App*> ap; for (int n : nodes) { apps.emplace_back(new App(n)); ap.push_back(apps.back().get()); }
            if (o.interleave && nodes.size() > 1) {
                std::vector<std::function<void()>> fns; for (auto a : ap) fns.push_back([&p, &o, a]() { NodeRun r(p, o, *a); r.run(); });
                std::vector<std::pair<uint64_t, int>> sw; bool ex = p.knob("sched") == "explicit"; if (ex) for (auto& l : p.lines) if (l.kind == "switch") sw.push_back({l.u64("step"), (int)l.num("to")});
                Sched::run(fns, p.knobNum("sseed", 1), p.knobDbl("gap", 1000), ex ? &sw : nullptr);
            } else for (auto a : ap) { NodeRun r(p, o, *a); if (long kb = p.knobNum("stack_kb")) onSmallStack(kb, [&]() { r.run(); }); else r.run(); }
            if (o.checkers) for (auto c : *o.checkers) if (!R->failed) c->end(ap);
            if (o.atEnd && !R->failed) o.atEnd(ap);
            if (!R->failed) { LibScope S; apps.clear(); }
        }
        if (o.leak && !R->failed && A.liveBlocks != 0) {
            // memory kept for the rest of the process (a table built on first use) is no leak: the same history again must not add to it
            int64_t b0 = A.liveBlocks; ExecOpt x = o; x.variant = 8; x.checkers = nullptr; x.interleave = false; x.crash = false;
            for (int n : nodes) { Slot* s = slot(8, n); s->n = 0; s->done = 0; }
            { std::vector<std::unique_ptr<App>> apps; for (int n : nodes) apps.emplace_back(new App(n)); for (auto& a : apps) { NodeRun r(p, x, *a); r.run(); } if (!R->failed) { LibScope S; apps.clear(); } }
            if (!R->failed && A.liveBlocks > b0) fail("leak", "%lld blocks (%lld bytes) are still allocated after every object was destroyed", (long long)A.liveBlocks, (long long)A.liveBytes);
        }
    }, budget);
    (void)where;
}

void genFaults(Plan& p, Rng& r, double perOp, double maxRun) {
    Plan q;
    for (auto& l : p.lines) {
        if (l.kind == "op" && l.str("do") != "smear" && l.str("do") != "setvel" && l.str("do") != "flow" && l.str("do") != "reopen" && l.str("do") != "shape" && r.chance(perOp)) q.add("fault").set("n", l.num("n")).set("do", "alloc").set("nth", l.str("do") == "optimise" ? (int)r.logUni(1, 150) : r.chance(0.6) ? r.range(0, 8) : (int)r.logUni(1, 400)).set("run", r.chance(0.8) ? 1 : (int)r.range(1, (int)maxRun));
        q.lines.push_back(l);
    }
    p = q;
}

static bool fin(double v) { return std::fabs(v) < 1e290; }
void judgeFinite(App& a, const char* w) {
    if (!a.ls) return;
    R->checks++;
    LevelSet& L = *a.ls;
    for (size_t i = 0; i < L.signedDistance.size(); i++) if (!fin(L.signedDistance[i])) { fail("not-finite", "signed distance of node %zu is %g after %s", i, L.signedDistance[i], w); return; }
    if (a.velFresh) for (size_t i = 0; i < L.velocity.size(); i++) if (!fin(L.velocity[i])) { fail("not-finite", "velocity of node %zu is %g after %s", i, L.velocity[i], w); return; }
    if (a.gradFresh) for (size_t i = 0; i < L.gradient.size(); i++) if (!fin(L.gradient[i])) { fail("not-finite", "gradient of node %zu is %g after %s", i, L.gradient[i], w); return; }
    if (a.areaFresh) { if (!fin(L.area)) { fail("not-finite", "total area is %g after %s", L.area, w); return; } for (size_t i = 0; i < L.mesh.elements.size(); i++) if (!fin(L.mesh.elements[i].area)) { fail("not-finite", "area of element %zu is %g after %s", i, L.mesh.elements[i].area, w); return; } }
    if (a.boundaryFresh || a.targetBoundary) {
        Boundary& b = *a.b; if (!fin(b.length)) { fail("not-finite", "boundary length is %g after %s", b.length, w); return; }
        for (size_t i = 0; i < b.points.size(); i++) { auto& q = b.points[i];
            double v[] = {q.coord.x, q.coord.y, q.length, q.velocity, q.negativeLimit, q.positiveLimit, q.normal.x, q.normal.y};
            static const char* nm[] = {"x", "y", "length", "velocity", "negativeLimit", "positiveLimit", "normal.x", "normal.y"};
            for (int k = 0; k < 8; k++) if (!fin(v[k])) { fail("not-finite", "%s of boundary point %zu is %g after %s", nm[k], i, v[k], w); return; }
            for (double s : q.sensitivities) if (!fin(s)) { fail("not-finite", "sensitivity of boundary point %zu is %g after %s", i, s, w); return; }
        }
        for (size_t i = 0; i < b.segments.size(); i++) { auto& s = b.segments[i]; if (s.start >= b.points.size() || s.end >= b.points.size() || s.element >= L.mesh.nElements) { fail("bad-index", "segment %zu refers to points %u, %u, element %u after %s", i, s.start, s.end, s.element, w); return; } }
    }
}

// ---------------------------------------------------------------- comparing streams
static bool compareStreams(const Slot* ref, const Slot* got, const char* cls, const char* what, bool rets, const Plan& p, bool evolutionOnly = false) {
    for (uint32_t i = 0; i < got->n; i++) {
        const Rec& g = got->r[i]; const Rec* q = findRec(ref, g.line);
        std::string op = g.line >= 0 && g.line < (int)p.lines.size() ? p.lines[g.line].str("do") : "start";
        if (p.lines[g.line].num("obs")) continue;
        if (!q) { if (got->done && ref->done) { fail(cls, "%s: operation %d (%s) was only executed once", what, g.line, op.c_str()); return false; } continue; }
        R->checks++;
        if (q->st != g.st) { fail(cls, "%s: %s (line %d) ended with status %d instead of %d", what, op.c_str(), g.line, g.st, q->st); return false; }
        if (q->evo != g.evo) { fail(cls, "%s: the level set differs after %s (line %d)", what, op.c_str(), g.line); return false; }
        if (!evolutionOnly && q->dig != g.dig) { fail(cls, "%s: boundary, areas or velocities differ after %s (line %d)", what, op.c_str(), g.line); return false; }
        if (rets && op != "ckpt" && !(g.hits & 0x10000) && memcmp(&q->ret, &g.ret, 8)) { fail(cls, "%s: %s (line %d) returned %.17g instead of %.17g", what, op.c_str(), g.line, g.ret, q->ret); return false; }
        if (memcmp(&q->dt, &g.dt, 8)) { fail(cls, "%s: the time step differs after %s (line %d): %.17g instead of %.17g", what, op.c_str(), g.line, g.dt, q->dt); return false; }
    }
    if (got->done && ref->done && !evolutionOnly) { for (uint32_t i = 0; i < ref->n; i++) if (!p.lines[ref->r[i].line].num("obs") && !findRec(got, ref->r[i].line) && got->n && ref->r[i].line > got->r[0].line) { fail(cls, "%s: line %d was not reached", what, ref->r[i].line); return false; } }
    return true;
}
static Plan start(const char* id, uint64_t seed, Rng& r) { Plan p; p.add("prop").set("id", id).setU("seed", seed); genKnobs(p, r); return p; }
static Rng rngFor(const char* id, uint64_t seed) { return Rng(mix64(seed * 31 + hashBytes(id, strlen(id)))); }

// ---------------------------------------------------------------- C03
Plan genC03(uint64_t seed, int tier) {
    Rng r = rngFor("C03", seed); Plan p = start("C03", seed, r);
    SimOpt o; o.pCkpt = 0.55; o.minSteps = 2; o.maxSteps = tier ? 12 : 7; o.pSave = 0.03; o.pFmm = 0.02; o.pMaskMid = 0.12; o.pThrow = 0; o.solverFaults = false;
    maybeLong(o, r, 0.07); genCfg(p, r, 0, o.g); genSim(p, r, 0, o);
    std::vector<int> ops; Plan q; int crashes = 0;
    for (auto& l : p.lines) {
        bool ck = l.kind == "op" && l.str("do") == "ckpt";
        if (l.kind == "op" && l.str("do") != "build" && crashes < 6 && r.chance(ck ? 0.22 : 0.05)) { Line& f = q.add("fault"); f.set("n", 0).set("do", "crash").set("what", r.chance(ck ? 0.25 : 0.8) ? "step" : r.chance(0.6) ? "mid" : "sys").set("frac", r.uni()); crashes++; }
        q.lines.push_back(l);
    }
    if (r.chance(0.2)) q.add("fault").set("n", 0).set("do", "rcrash").set("frac", r.uni());
    if (r.chance(0.3)) q.add("knob").set("short", r.range(1, 700));
    return q;
}
void execC03(const Plan& p) {
    ExecOpt o; o.faults = false; o.nodes = {0};
    auto fresh = [&]() { for (int i = 0; i < MAXFILES; i++) files[i].used = 0; for (int i = 0; i < MAXFILES; i++) if (!files[i].used) { files[i].used = 1; files[i].isDir = 1; files[i].size = 0; snprintf(files[i].path, sizeof files[i].path, "ck"); break; } };
    fresh(); FS = FsCtl(); FS.shortMax = p.knobNum("short", 0);
    ProcResult r = runHistory(p, o, "the uninterrupted simulation"); if (judgeEnd(r, "the uninterrupted simulation") || R->failed || R->errored) return;
    const Slot* ref = slot(0, 0); if (!ref->done) return;
    fresh();
    Cfg c = readCfg(p, 0); size_t full = (size_t)(c.w + 1) * (c.h + 1) * sizeof(double);
    int restartLine = -1; size_t maxDone = 0;
    std::vector<int> ckLines; for (size_t i = 0; i < p.lines.size(); i++) if (p.lines[i].kind == "op" && p.lines[i].str("do") == "ckpt") ckLines.push_back(i);
    for (int round = 0; round < 14; round++) {
        ExecOpt x; x.faults = false; x.nodes = {0}; x.variant = 1; x.crash = true; x.ref = ref; x.restartLine = restartLine; x.knobSet = round % 3;
        R->scratch[61] = 0;
        ProcResult q = runHistory(p, x, "the restarted simulation");
        if (R->errored) return;
        const Slot* got = slot(1, 0);
        if (q.kind == ProcResult::EXITED && restartLine >= 0 && !R->scratch[61]) {
            // the load was refused: right only for a checkpoint that is not complete
            std::string d; char b[40]; snprintf(b, sizeof b, "ck/level-set_%04ld.bin", p.lines[restartLine].num("k"));
            if (fsGet(b, d) && d.size() == full) { fail("checkpoint-refused", "a complete checkpoint could not be loaded: %.200s", R->errlog); return; }
            probe(5); int prev = -1; for (int k : ckLines) if (k < restartLine) prev = k; restartLine = prev; continue;
        }
        if (q.kind != ProcResult::CRASHED) { if (judgeEnd(q, "the restarted simulation")) return; }
        if (R->failed) return;
        if (restartLine >= 0 && R->scratch[61]) {
            std::string d; char b[40]; snprintf(b, sizeof b, "ck/level-set_%04ld.bin", p.lines[restartLine].num("k")); fsGet(b, d);
            if (d.size() != full) { fail("torn-accepted", "a torn checkpoint of %zu instead of %zu bytes was loaded without an error", d.size(), full); return; }
        }
        if (!compareStreams(ref, got, "restart-diverged", "after a crash and restart", true, p)) return;
        for (int k : ckLines) if (findRec(got, k)) maxDone = std::max<size_t>(maxDone, k);
        if (q.kind == ProcResult::RETURNED) { R->nontrivial = R->fired[F_CRASH] > 0; probe(R->fired[F_RESTART] ? 2 : 1); if (R->nontrivial && R->fired[F_RESTART]) probe(3); return; }
        // crashed: the newest checkpoint whose file exists is tried first
        restartLine = -1;
        for (int k : ckLines) { char b[40]; std::string d; snprintf(b, sizeof b, "ck/level-set_%04ld.bin", p.lines[k].num("k")); if (fsGet(b, d)) { restartLine = k; if (d.size() != full) probe(4); } }
        // a checkpoint that was reported as written has to be there
        if (maxDone) { char b[40]; std::string d; snprintf(b, sizeof b, "ck/level-set_%04ld.bin", p.lines[maxDone].num("k")); if (!fsGet(b, d) || d.size() != full) { fail("checkpoint-lost", "checkpoint %s was written but is not complete on disk", b); return; } }
    }
}

// ---------------------------------------------------------------- C04
Plan genC04(uint64_t seed, int tier) {
    Rng r = rngFor("C04", seed); Plan p = start("C04", seed, r);
    p.add("knob").set("pre", r.range(1, 1000000)).set("rs", r.range(0, 1 << 30));
    SimOpt o; o.pNoise = 0.7; o.maxSteps = tier ? 10 : 5; o.pReseed = 0.3; o.pDraw = 0.35; o.pSave = 0.1; o.pSmear = 0.3; o.pThrow = 0;
    maybeLong(o, r, 0.07); genCfg(p, r, 0, o.g); genSim(p, r, 0, o);
    return p;
}
void execC04(const Plan& p) {
    uint64_t seeds[3] = {0, 0, 0};
    for (int v = 0; v < 3; v++) {
        ExecOpt o; o.variant = v; o.knobSet = v; o.nodes = {0}; o.faults = false;
        for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
        R->scratch[60] = 0;
        o.atEnd = [&](std::vector<App*>&) {
            // generators nobody seeded
            uint64_t d0 = E.draws; std::unique_ptr<MersenneTwister> a, b, c; { LibScope S; a.reset(new MersenneTwister); b.reset(new MersenneTwister); c.reset(new MersenneTwister); }
            if (E.draws == d0) { fail("no-entropy", "an unseeded generator does not use the operating system's entropy"); return; }
            unsigned sa, sb; { LibScope S; sa = a->getSeed(); sb = b->getSeed(); }
            auto draw = [](MersenneTwister& m, int k) { std::vector<double> v; LibScope S; for (int i = 0; i < k; i++) { v.push_back(m()); v.push_back(m.normal()); v.push_back(m.normal(0, 1)); v.push_back(m.integer(-5, 1000)); } return v; };
            std::vector<double> x = draw(*a, 6), y = draw(*b, 6);
            Rng r(p.knobNum("rs")); int junk = r.range(0, 9); { LibScope S; for (int i = 0; i < junk; i++) { if (i & 1) (void)c->normal(); else (void)(*c)(); } c->setSeed(sa); }
            std::vector<double> z = draw(*c, 6);
            if (x == y) { fail("same-stream", "two unseeded generators with different entropy give the same stream"); return; }
            if (z != x) { fail("seed-not-reproducible", "seeding a generator with the reported seed %u does not reproduce its stream", sa); return; }
            unsigned s1 = (unsigned)r.next(); { LibScope S; a->setSeed(s1); b->setSeed(s1 + 1 + (unsigned)r.below(1000)); if (a->getSeed() != s1) fail("wrong-seed", "getSeed does not report the seed that was set"); }
            std::vector<double> w1 = draw(*a, 6), w2; { LibScope S; for (int i = 0; i < (junk & 3); i++) (void)a->normal(); a->setSeed(s1); } w2 = draw(*a, 6);
            if (w1 != w2) { fail("seed-not-reproducible", "setting the seed the generator already has does not restart its stream"); return; }
            { LibScope S; a->setSeed(s1); }
            if (draw(*a, 6) == draw(*b, 6)) { fail("same-stream", "different seeds give the same stream"); return; }
            { LibScope S; for (int i = 0; i < 40; i++) { double u = (*a)(); int k = a->integer(3, 7); if (!(u >= 0 && u < 1) || k < 3 || k > 7) { fail("range", "a draw is outside its range: %g %d", u, k); break; } } }
            R->scratch[60] = ((uint64_t)sa << 32) | sb | 1ULL << 63; R->checks += 5;
        };
        ProcResult r = runHistory(p, o, "a seeded simulation"); if (judgeEnd(r, "a seeded simulation") || R->failed || R->errored) return;
        seeds[v] = R->scratch[60];
        if (v && !compareStreams(slot(0, 0), slot(v, 0), "not-reproducible", "same seed, different environment", true, p)) return;
        if (v && (seeds[v] & ~(1ULL << 63)) == (seeds[0] & ~(1ULL << 63)) && p.knobNum("entropy") != p.knobNum(v == 1 ? "entropy1" : "entropy2")) { fail("same-stream", "different entropy gives the same seeds"); return; }
    }
    R->nontrivial = slot(0, 0)->done; probe(1); for (uint32_t i = 0; i < slot(0, 0)->n; i++) if (p.lines[slot(0, 0)->r[i].line].str("do") == "noise" && slot(0, 0)->r[i].st == ST_OK) { probe(2); break; }
}

// ---------------------------------------------------------------- C05
Plan genC05(uint64_t seed, int tier) {
    Rng r = rngFor("C05", seed); Plan p = start("C05", seed, r);
    int n = r.chance(0.7) ? 2 : 3;
    p.add("knob").set("sched", "random").set("sseed", r.range(1, 1 << 30)).set("gap", r.chance(0.3) ? r.logUni(30, 400) : r.logUni(300, 20000));
    SimOpt o; o.maxSteps = tier ? 6 : 3; o.g.maxW = 14; o.g.pSwiss = 0; o.pSave = 0.35; o.pLoad = 0.2; o.pSens = 0.3; o.pOptimise = 0.5; o.pNoise = 0.5; o.pDraw = 0.3; o.pArea = 0.8;
    bool same = r.chance(0.3); uint64_t s1 = r.next(); maybeLong(o, r, 0.02);
    for (int i = 0; i < n; i++) { if (same) { Rng q(s1); genCfg(p, q, i, o.g); } else genCfg(p, r, i, o.g); genSim(p, r, i, o); }
    // different allocation patterns are part of every node's own history, so faults are too
    if (r.chance(0.4)) genFaults(p, r, 0.06);
    return p;
}
void execC05(const Plan& p) {
    std::vector<int> nodes = planNodes(p); if (nodes.size() < 2) return;
    std::vector<int> ok;
    for (int n : nodes) {
        ExecOpt o; o.nodes = {n}; o.variant = n;
        for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
        ProcResult r = runHistory(p, o, "a simulation on its own"); if (endedBadly(r, "a simulation on its own") || R->failed || R->errored) return;
        if (r.kind == ProcResult::EXITED) { if (judgeEnd(r, "a simulation on its own") && R->failed) return; continue; }
        if (slot(n, n)->done) ok.push_back(n);
    }
    if (ok.size() < 2) return;
    std::vector<std::pair<std::string, std::string>> solo; 
    ExecOpt o; o.nodes = ok; o.variant = 3; o.interleave = true; o.leak = true;
    for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
    ProcResult r = runHistory(p, o, "the interleaved simulations");
    if (endedBadly(r, "the interleaved simulations") || R->failed || R->errored) return;
    if (r.kind == ProcResult::EXITED) { R->errlog[std::min<uint32_t>(R->errlogLen, sizeof R->errlog - 1)] = 0; fail("interference", "a simulation that completes on its own ended the program when interleaved: %.200s", R->errlog); return; }
    for (int n : ok) { char w[60]; snprintf(w, sizeof w, "simulation %d interleaved with others", n); if (!compareStreams(slot(n, n), slot(3, n), "interference", w, true, p)) return; if (!slot(3, n)->done) { fail("interference", "%s did not finish", w); return; } }
    R->nontrivial = R->switches > 1; probe(1); if (R->fired[F_ALLOC]) probe(2);
}

// ---------------------------------------------------------------- C06
Plan genC06(uint64_t seed, int tier) {
    Rng r = rngFor("C06", seed); Plan p = start("C06", seed, r);
    SimOpt o; o.maxSteps = tier ? 8 : 5; o.g.pTarget = 0.3; o.pThrow = 0; o.pTargetDisc = 0.2;
    maybeLong(o, r, 0.07); genCfg(p, r, 0, o.g); genSim(p, r, 0, o);
    Plan q; double pObs = r.uni(0.1, 0.6), pFault = r.chance(0.4) ? r.uni(0, 0.4) : 0; int k = 0;
    static const char* rep[] = {"discretise", "area", "normals", "perimeter", "vel", "grad", "fmm"};
    static const char* kinds[] = {"discretise", "area", "normals", "perimeter", "sens", "ito", "vel", "save"};
    for (auto& l0 : p.lines) {
        Line l = l0;
        if (l.kind == "op") {
            if (l.str("do") != "build") while (r.chance(pObs) && k < 60) {
                if (r.chance(pFault)) q.add("fault").set("n", 0).set("do", "alloc").set("nth", r.chance(0.5) ? r.range(0, 8) : (int)r.logUni(1, 300)).set("run", r.chance(0.8) ? 1 : 3);
                const char* w = r.chance(0.01) ? "churn" : r.chance(0.05) ? "clone" : kinds[r.below(8)];
                Line& x = addOp(q, 0, w); x.set("obs", 1).set("rep", (int)r.chance(0.5)); k++;
                if (!strcmp(w, "save")) x.set("kind", r.range(0, 2)).set("v", (int)r.chance(0.5)).set("g", (int)r.chance(0.5)).set("file", std::string("obs") + std::to_string(k % 5));
                else if ((!strcmp(w, "perimeter") || !strcmp(w, "sens")) && r.chance(0.6)) x.set("own", 1).set("delta", r.chance(0.5) ? 1e-4 : r.logUni(1e-6, 0.3));
                else if (r.chance(0.25)) x.set("target", 1);
                if (!strcmp(w, "churn")) x.set("k", (int)r.logUni(8, 300));
                if (!strcmp(w, "clone")) x.set("what", r.range(1, 7));
                if (!strcmp(w, "vel")) x.set("g", (int)r.chance(0.5));
                if (!strcmp(w, "ito")) x.set("T", r.uni(0, 0.1));
            }
            for (auto s : rep) if (l.str("do") == s && r.chance(0.3)) l.set("rep", 1);
        }
        q.lines.push_back(l);
    }
    return q;
}
void execC06(const Plan& p) {
    for (int v = 0; v < 2; v++) {
        for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
        ExecOpt o; o.nodes = {0}; o.variant = v; o.observers = v == 1;
        ProcResult r = runHistory(p, o, v ? "the observed simulation" : "the unobserved simulation"); if (judgeEnd(r, v ? "the observed simulation" : "the unobserved simulation") || R->failed || R->errored) return;
    }
    int obs = 0; for (uint32_t i = 0; i < slot(1, 0)->n; i++) if (p.lines[slot(1, 0)->r[i].line].num("obs") && slot(1, 0)->r[i].st == ST_OK) { obs++; }
    if (!compareStreams(slot(0, 0), slot(1, 0), "observer-effect", "the observed simulation", true, p)) return;
    R->nontrivial = obs > 0; probe(1); if (obs) probe(2); if (R->fired[F_ALLOC]) probe(3);
}

// ---------------------------------------------------------------- C07
// After a failure the signed distance is what it was before, what it is between two stages of the operation,
// or complete; never a mixture.
struct AtomicChecker : Checker {
    std::vector<double> sd, grad, vel, pendSd; std::vector<unsigned> band; double dt = 0; bool pending = false; uint64_t target = 0;
    std::vector<double> tgt;
    void before(App& a, const Line& op) override {
        if (!a.ls) { sd.clear(); return; }
        sd = a.ls->signedDistance; tgt = a.ls->target; grad = a.ls->gradient; vel = a.ls->velocity; band.assign(a.ls->narrowBand.begin(), a.ls->narrowBand.begin() + a.ls->nNarrowBand); (void)op;
    }
    static bool near(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(a[i])))) return false; return true; }
    void after(App& a, const Line& op, const Outcome& r) override {
        std::string w = op.str("do");
        if (TA.hits && r.st == ST_OK) { fail("unreported", "%s returned normally although an allocation failed", w.c_str()); return; }
        if (r.st == ST_OK && pending) { pending = false; if (a.ls->signedDistance != pendSd) fail("mixture", "after running out of memory in %s the signed distance was neither the old nor the new one", w.c_str()); return; }
        if (r.st != ST_BADALLOC || sd.empty()) return;
        R->checks++; probe(1);
        {
            LevelSet& L = *a.ls; size_t n = (a.cfg.w + 1) * (size_t)(a.cfg.h + 1);
            if (L.velocity.size() != n || L.gradient.size() != n || L.mesh.nodes.size() != n || L.nNarrowBand > L.narrowBand.size() || L.nMines > L.mines.size()) { fail("unusable", "%s left the level set with %zu velocities, %zu gradients, %u of %zu band nodes and %u of %zu mines when it ran out of memory", w.c_str(), L.velocity.size(), L.gradient.size(), L.nNarrowBand, L.narrowBand.size(), L.nMines, L.mines.size()); return; }
        }
        auto& now = a.ls->signedDistance;
        if (now.size() != sd.size() || (a.ls->target != tgt)) { fail("mixture", "%s changed the size of the signed distance or the target when it ran out of memory", w.c_str()); return; }
        if (now == sd) { probe(2); return; }
        std::vector<double> st = sd;
        if (w == "update") { for (unsigned n : band) { st[n] -= a.usedDt * grad[n] * vel[n]; if (a.ls->mesh.nodes[n].isDomain && st[n] > 0) st[n] = 0; } if (near(now, st)) { probe(3); return; } }
        if (w.compare(0, 4, "mask") == 0) { for (size_t i = 0; i < st.size(); i++) { int side = ref::maskSide(op, a.ls->mesh.nodes[i].coord.x, a.ls->mesh.nodes[i].coord.y); if (side > 0 || (side == 0 && now[i] == -1e-6)) st[i] = -1e-6; } if (near(now, st)) { probe(3); return; } }
        if (w == "update" || w == "reinit" || w.compare(0, 4, "mask") == 0 || w == "ckpt") { pending = true; pendSd = now; return; }
        fail("mixture", "%s modified the signed distance when it ran out of memory", w.c_str());
    }
};
Plan genC07(uint64_t seed, int tier) {
    Rng r = rngFor("C07", seed); Plan p = start("C07", seed, r);
    SimOpt o; o.maxSteps = tier ? 8 : 4; o.g.pMask = 0.4; o.g.maxW = 18; o.pFmm = 0.08; o.pMaskMid = 0.1; o.pThrow = 0; o.solverFaults = false; o.pReinit = 0.4; o.pOptimise = 0.35; o.pSave = 0.05;
    maybeLong(o, r, 0.07); genCfg(p, r, 0, o.g); genSim(p, r, 0, o);
    genFaults(p, r, r.chance(0.3) ? 0.5 : r.uni(0.08, 0.4));
    return p;
}
void execC07(const Plan& p) {
    ExecOpt o; o.nodes = {0}; o.faults = false; o.leak = true;
    for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
    ProcResult r = runHistory(p, o, "the fault free simulation"); if (judgeEnd(r, "the fault free simulation") || R->failed || R->errored) return;
    for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
    AtomicChecker at; std::vector<Checker*> cs{&at};
    ExecOpt x; x.nodes = {0}; x.variant = 1; x.leak = true; x.checkers = &cs;
    ProcResult q = runHistory(p, x, "the simulation that runs out of memory"); if (judgeEnd(q, "the simulation that runs out of memory") || R->failed || R->errored) { if (!R->failed && !compareStreams(slot(0, 0), slot(1, 0), "retry-differs", "after running out of memory and trying again", true, p)) return; return; }
    if (!compareStreams(slot(0, 0), slot(1, 0), "retry-differs", "after running out of memory and trying again", true, p)) return;
    R->nontrivial = R->fired[F_ALLOC] > 0; if (R->nontrivial) probe(4);
}

// ---------------------------------------------------------------- C17
struct FiniteChecker : Checker { void after(App& a, const Line& op, const Outcome& r) override { if (r.st == ST_OK) judgeFinite(a, op.str("do").c_str()); } };
Plan genC17(uint64_t seed, int tier) {
    Rng r = rngFor("C17", seed); Plan p = start("C17", seed, r);
    SimOpt o; o.maxSteps = tier ? 20 : 9; o.g.maxW = tier ? 40 : 24; o.g.minW = 4; o.g.pMask = 0.4; o.g.pLattice = 0.3; o.g.pDomainHoles = 0.5; o.g.pTarget = 0.2; o.pMaskMid = 0.1; o.pSens = 0.25; o.pIto = 0.3; o.pNormals = 0.5; o.pPerim = 0.3; o.pOptimise = 0.4; o.pSave = 0.08; o.pLoad = 0.2; o.pSmear = 0.2;
    if (r.chance(0.006)) { p.add("knob").set("stack_kb", 192); o.g.minW = 160; o.g.maxW = r.chance(0.6) ? 190 : 280; o.g.pSwiss = 0; o.maxSteps = 1; o.pOptimise = 0; o.pFmm = o.pSens = o.pSmear = o.pSave = 0; }
    if (!p.knobNum("stack_kb")) maybeLong(o, r, 0.04); genCfg(p, r, 0, o.g); genSim(p, r, 0, o);
    { Plan q; for (auto& l : p.lines) { if (l.kind == "op" && l.str("do") == "reinit" && !q.lines.empty() && (q.lines.back().str("do") == "field" || q.lines.back().str("do") == "load") && r.chance(0.3)) addOp(q, 0, "careless").set("what", r.range(0, 15)); q.lines.push_back(l); } p = q; }
    if (r.chance(0.4)) genFaults(p, r, r.uni(0.02, 0.2));
    return p;
}
void execC17(const Plan& p) {
    FiniteChecker f; std::vector<Checker*> cs{&f};
    ExecOpt o; o.nodes = {0}; o.leak = true; o.checkers = &cs;
    for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
    ProcResult r = runHistory(p, o, "a simulation"); if (judgeEnd(r, "a simulation") || R->failed || R->errored) return;
    R->nontrivial = 1; probe(1); if (p.knobNum("stack_kb")) probe(2);
}

} // namespace sim
