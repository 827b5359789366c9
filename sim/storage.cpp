// C01 (saves are complete and faithful or reported) and C02 (loads restore or report).
#include "props.h"
#include <cmath>
#include <sstream>

namespace sim {
using namespace slsm;

bool endedBadly(const ProcResult& r, const char* where) {
    if (r.kind == ProcResult::SIGNALLED) { R->errlog[std::min<uint32_t>(R->errlogLen, sizeof R->errlog - 1)] = 0; fail("crashed", "the process died from signal %d during %s%s%.300s", r.code, where, R->errlogLen ? ": " : "", R->errlog); return true; }
    if (r.kind == ProcResult::TIMEOUT) { fail(r.code == -1 ? "no-progress" : "hang", "%s did not finish within its work budget", where); return true; }
    return false;
}

// ---------------------------------------------------------------- reference readers
static std::vector<std::string> splitLines(const std::string& s) { std::vector<std::string> v; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string w; while (i >> w) v.push_back(w); return v; }
static bool sameNumber(const std::string& tok, double v) {
    char* e; double x = strtod(tok.c_str(), &e); if (*e || tok.empty()) return false;
    if (std::isnan(v)) return std::isnan(x);
    if (std::isinf(v)) return x == v;
    return std::fabs(x - v) <= 6e-7 + 1e-14 * std::fabs(v);
}
struct Expect { std::string name; std::vector<std::vector<double>> rows; };   // text tables

static std::string checkTable(const std::string& data, const std::vector<std::vector<double>>& rows) {
    char b[200];
    if (!data.empty() && data.back() != '\n') return "the last line is not terminated";
    std::vector<std::string> ls; for (auto& l : splitLines(data)) if (!words(l).empty()) ls.push_back(l);
    if (ls.size() != rows.size()) { snprintf(b, sizeof b, "%zu data lines instead of %zu", ls.size(), rows.size()); return b; }
    for (size_t i = 0; i < rows.size(); i++) {
        auto w = words(ls[i]); if (w.size() != rows[i].size()) { snprintf(b, sizeof b, "line %zu has %zu values instead of %zu", i, w.size(), rows[i].size()); return b; }
        for (size_t j = 0; j < w.size(); j++) if (!sameNumber(w[j], rows[i][j])) { snprintf(b, sizeof b, "line %zu value %zu is %s instead of %.9g", i, j, w[j].substr(0, 40).c_str(), rows[i][j]); return b; }
    }
    return "";
}
static std::string checkVtk(const std::string& data, unsigned w, unsigned h, const char* block, const std::vector<std::pair<std::string, const std::vector<double>*>>& fields) {
    if (data.empty() || data.back() != '\n') return "file is not terminated";
    auto ls = splitLines(data); if (ls.size() < 4) return "header missing";
    if (ls[0].compare(0, 5, "# vtk")) return "not a vtk file";
    if (ls[2] != "ASCII") return "not ASCII";
    std::string rest; for (size_t i = 3; i < ls.size(); i++) { rest += ls[i]; rest += '\n'; }
    auto t = words(rest); size_t i = 0; bool ok = true;
    auto eat = [&](const std::string& s) { if (i < t.size() && t[i] == s) i++; else ok = false; };
    auto num = [&](unsigned v) { eat(std::to_string(v)); };
    eat("DATASET"); eat("RECTILINEAR_GRID"); eat("DIMENSIONS"); num(w + 1); num(h + 1); num(1);
    eat("X_COORDINATES"); num(w + 1); i++; for (unsigned k = 0; k <= w; k++) num(k);
    eat("Y_COORDINATES"); num(h + 1); i++; for (unsigned k = 0; k <= h; k++) num(k);
    eat("Z_COORDINATES"); num(1); i++; num(0);
    size_t n = fields[0].second->size();
    eat(block); num(n);
    if (!ok) return "the grid header is wrong near token " + std::to_string(i);
    for (auto& f : fields) {
        eat("SCALARS"); eat(f.first); i++; eat("1"); eat("LOOKUP_TABLE"); eat("default");
        if (!ok) return "the " + f.first + " block is missing or out of place";
        for (size_t k = 0; k < n; k++, i++) if (i >= t.size() || !sameNumber(t[i], (*f.second)[k])) { char b[160]; snprintf(b, sizeof b, "%s[%zu] is %s instead of %.9g", f.first.c_str(), k, i < t.size() ? t[i].substr(0, 40).c_str() : "missing", (*f.second)[k]); return b; }
    }
    if (i != t.size()) return "unexpected data after the last block";
    return "";
}

static std::string saveName(const Line& op) {
    if (!op.has("dp")) return op.str("file");
    std::string k = op.str("kind"), base = "level-set", ext = "txt"; char b[64];
    if (k == "bin") ext = "bin"; if (k == "vtk" || k == "area_vtk") ext = "vtk";
    if (k == "points") base = "boundary-points"; if (k == "segments") base = "boundary-segments"; if (k == "area_vtk" || k == "area_txt") base = "area";
    snprintf(b, sizeof b, "%s_%04ld.%s", base.c_str(), op.num("dp"), ext.c_str());
    std::string d = op.str("dir"); return d.empty() ? b : d + "/" + b;
}
static std::string checkSaved(const App& a, const Line& op) {
    std::string data, name = saveName(op), k = op.str("kind");
    if (!fsGet(name.c_str(), data)) return "no file " + name;
    const LevelSet& L = *a.ls; size_t n = L.mesh.nNodes;
    if (k == "bin") {
        if (data.size() != n * sizeof(double)) return "the file holds " + std::to_string(data.size()) + " bytes instead of " + std::to_string(n * sizeof(double));
        if (memcmp(data.data(), &L.signedDistance[0], data.size())) return "the file does not hold the signed distance";
        return "";
    }
    std::vector<std::vector<double>> rows; bool xy = op.num("xy");
    if (k == "txt") {
        for (size_t i = 0; i < n; i++) { std::vector<double> r; if (xy) { r.push_back(L.mesh.nodes[i].coord.x); r.push_back(L.mesh.nodes[i].coord.y); } r.push_back(L.signedDistance[i]); r.push_back(L.velocity[i]); r.push_back(L.gradient[i]); rows.push_back(r); }
        return checkTable(data, rows);
    }
    if (k == "vtk") {
        std::vector<std::pair<std::string, const std::vector<double>*>> f{{"distance", &L.signedDistance}};
        if (op.num("v")) f.push_back({"velocity", &L.velocity});
        if (op.num("g")) f.push_back({"gradient", &L.gradient});
        return checkVtk(data, L.mesh.width, L.mesh.height, "POINT_DATA", f);
    }
    if (k == "points") { for (auto& p : a.b->points) rows.push_back({p.coord.x, p.coord.y, p.length}); return checkTable(data, rows); }
    if (k == "segments") { for (auto& s : a.b->segments) { auto& p = a.b->points[s.start]; auto& q = a.b->points[s.end]; rows.push_back({p.coord.x, p.coord.y}); rows.push_back({q.coord.x, q.coord.y}); } return checkTable(data, rows); }
    std::vector<double> ar; for (auto& e : L.mesh.elements) ar.push_back(e.area);
    if (k == "area_vtk") return checkVtk(data, L.mesh.width, L.mesh.height, "CELL_DATA", {{"area", &ar}});
    if (k == "area_txt") { size_t i = 0; for (auto& e : L.mesh.elements) { std::vector<double> r; if (xy) { r.push_back(e.coord.x); r.push_back(e.coord.y); } r.push_back(ar[i++]); rows.push_back(r); } return checkTable(data, rows); }
    return "unknown kind";
}

static const char* kinds[] = {"bin", "txt", "vtk", "points", "segments", "area_vtk", "area_txt"};
static std::string longDir() { return std::string(150, 'd'); }
static void makeDirs() { for (const std::string& d : {std::string("out"), longDir()}) { fsPut(d.c_str(), "", 0); for (int i = 0; i < MAXFILES; i++) if (files[i].used && d == files[i].path) files[i].isDir = 1; } }
static void genSave(Plan& p, Rng& r, int i, bool last) {
    Line& l = addOp(p, 0, "save"); l.set("kind", kinds[r.below(7)]).set("force", 1);
    if (r.chance(0.5)) { l.set("dp", r.chance(0.8) ? r.range(0, 120) : r.range(0, 2000000)); if (r.chance(0.5)) l.set("dir", r.chance(0.9) ? "out" : "out/sub"); if (r.chance(0.06)) l.set("dir", longDir()); }
    else { l.set("file", std::string("f") + std::to_string(i)); if (r.chance(0.04)) l.set("file", std::string(r.range(30, 170), 'f') + std::to_string(i)); }
    l.set("xy", (int)r.chance(0.5)).set("v", (int)r.chance(0.5)).set("g", (int)r.chance(0.5));
    if (r.chance(0.3)) l.set("old", r.range(1, 60000));
    (void)last;
}
static void addPoke(Plan& p, Rng& r) { addOp(p, 0, "poke").setU("s", r.below(1u << 30)).set("mode", r.range(0, 3)); }
static void poke(App& a, const Line& op) {
    Rng r(op.u64("s")); int m = op.num("mode");
    auto val = [&](int i) -> double {
        switch (m) {
            case 0: return r.uni(-10, 10);
            case 1: return (r.chance(0.5) ? -1 : 1) * r.logUni(1e-9, 1e6);
            case 2: return r.chance(0.1) ? -0.0 : r.chance(0.1) ? 5e-324 : (r.chance(0.5) ? -1 : 1) * r.logUni(1e-300, 1e14);
            default: return (i % 7 == 0) ? 0.0 : r.uni(-1, 1) * 1e-6; } };
    int i = 0; for (auto& v : a.ls->signedDistance) v = val(i++); for (auto& v : a.ls->velocity) v = val(i++); for (auto& v : a.ls->gradient) v = val(i++);
    for (auto& e : a.ls->mesh.elements) e.area = std::fabs(r.uni());
    a.prepareDerived(); a.velFresh = a.gradFresh = false;
}

static uint64_t othersHash(const std::string& name) { uint64_t h = 5; for (int i = 0; i < MAXFILES; i++) if (files[i].used && name != files[i].path) { h = hashBytes(files[i].path, strlen(files[i].path), h); h = hashBytes(files[i].data, files[i].size, h); } return h; }
Plan genC01(uint64_t seed, int tier) {
    Rng r(seed * 2654435761u + 101); Plan p; p.add("prop").set("id", "C01").setU("seed", seed);
    GenOpt g; g.maxW = tier ? 40 : 24; g.pBig = 0.12; HistOpt h; h.maxSteps = 2; h.minSteps = 0; h.pNormals = 0;
    genCfg(p, r, 0, g); genHistory(p, r, 0, h, g);
    if (r.chance(0.4)) addOp(p, 0, "discretise");
    if (r.chance(0.5)) addPoke(p, r);
    p.add("knob").set("blk", (long)r.pick(std::vector<long>{4096, 4096, 1024, 512, 65536, 128})).set("short", r.chance(0.2) ? (long)r.range(1, 700) : 0L);
    int k = r.range(1, 4);
    for (int i = 0; i < k; i++) genSave(p, r, i, i == k - 1);
    // faults strike the last save
    if (r.chance(0.85)) {
        int c = r.range(0, 10);
        Line& f = p.add("fault");
        if (c <= 3) { f.set("op", r.pick(std::vector<std::string>{"write:ENOSPC", "write:EIO", "write:EDQUOT", "write:EINTR"})).set("nth", r.chance(0.5) ? r.range(0, 3) : r.range(0, 40)).set("sticky", (int)(r.chance(0.4) && f.str("op") != "write:EINTR")).set("fromEnd", (int)r.chance(0.5)); }
        else if (c == 4) f.set("op", "write:SHORT").set("nth", r.range(0, 12)).set("arg", r.range(1, 300)).set("sticky", (int)r.chance(0.3));
        else if (c == 5) f.set("op", r.pick(std::vector<std::string>{"open:EACCES", "open:EMFILE", "open:ENOSPC", "open:ENOENT", "open:EINTR"})).set("nth", 0);
        else if (c == 6) f.set("op", r.pick(std::vector<std::string>{"close:EIO", "close:ENOSPC", "close:EDQUOT"})).set("nth", 0);
        else if (c <= 8) f.set("op", "disk:FULL").set("frac", r.chance(0.3) ? 0.999999 : r.uni());
        else if (c == 10) f.set("op", "alloc").set("nth", r.range(0, 6)).set("run", r.chance(0.8) ? 1 : 3);
        else { f.set("op", "write:EIO").set("nth", r.range(0, 5)).set("fromEnd", 1); p.add("fault").set("op", "close:EIO").set("nth", 0); }
    }
    return p;
}

// Estimate of the number of write calls a save needs, so that faults can be placed from the end.
void execC01(const Plan& plan) {
    // Pass 1 (dry run in its own process): how many writes and bytes the last save takes.
    const Line* last = nullptr; for (auto& l : plan.lines) if (l.kind == "op" && l.str("do") == "save") last = &l;
    ProcResult pr;
    for (int pass = 0; pass < 2; pass++) {
        bool hasFault = false; for (auto& l : plan.lines) if (l.kind == "fault") hasFault = true;
        if (pass == 1 && !hasFault) break;
        if (pass == 1) for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
        R->scratch[0] = 0;   // 1 while the faulty save is in progress
        pr = runProcess([&]() {
            FS.blksize = plan.knobNum("blk", 4096); FS.shortMax = plan.knobNum("short", 0);
            makeDirs();
            App a(0); a.build(readCfg(plan, 0)); int idx = 0;
            for (auto& l : plan.lines) {
                if (l.kind != "op") continue; idx++;
                if (l.str("do") == "poke") { poke(a, l); continue; }
                if (l.str("do") != "save") { a.apply(l); R->ops++; continue; }
                std::string name = saveName(l);
                if (l.has("old")) { std::string junk(l.num("old"), 'x'); bool dir = name.find('/') != std::string::npos && name.compare(0, 8, "out/sub/") == 0; if (!dir) fsPut(name.c_str(), junk.data(), junk.size()); }
                std::vector<std::string> before(MAXFILES); for (int i = 0; i < MAXFILES; i++) if (files[i].used && name != files[i].path) before[i] = std::string((char*)files[i].data, files[i].size) + files[i].path;
                uint64_t st = a.digest(); uint64_t f0[F_NKINDS]; memcpy(f0, R->fired, sizeof f0);
                FS.faults.clear(); FS.capacity = -1; uint64_t used0 = 0; std::string old; if (fsGet(name.c_str(), old)) {}
                for (int i = 0; i < MAXFILES; i++) if (files[i].used && name != files[i].path) used0 += files[i].size;
                if (pass == 1 && &l == last) {
                    for (auto& f : plan.lines) if (f.kind == "fault") {
                        std::string o = f.str("op");
                        if (o == "alloc") { TA = AllocFault(); TA.failAt = f.num("nth"); TA.failRun = f.num("run", 1); continue; }
                        if (o == "disk:FULL") { double fr = f.dbl("frac"); uint64_t need = R->scratch[3]; uint64_t keep = (uint64_t)(fr * need); if (need && keep >= need) keep = need - 1; FS.capacity = used0 + keep; continue; }
                        uint64_t nth = f.u64("nth"); if (f.num("fromEnd")) { uint64_t tot = R->scratch[2]; nth = tot > nth ? tot - 1 - nth : 0; } else if (o.compare(0, 5, "write") == 0 && R->scratch[2]) nth %= R->scratch[2];
                        FS.faults.push_back(FsFault{nth, o, f.num("arg"), (int)f.num("sticky"), false});
                    }
                    for (auto& f : FS.faults) f.nth += 0;
                }
                uint64_t sys0 = g_sys; fsResetOrdinals();
                R->scratch[0] = idx; R->scratch[1] = 0; memcpy(&R->scratch[8], f0, sizeof(uint64_t) * 16);
                logEvent("save %s %s", l.str("kind").c_str(), name.c_str());
                R->scratch[40] = othersHash(name);
                Outcome o = a.apply(l); R->ops++;
                R->scratch[0] = 0; TA.failAt = -1;
                logEvent("save returned st=%d sys=%llu", o.st, (unsigned long long)(g_sys - sys0));
                if (o.st == ST_SKIP) continue;
                for (int i = 0; i < MAXFILES; i++) { std::string now; if (files[i].used && name != files[i].path) now = std::string((char*)files[i].data, files[i].size) + files[i].path; if (now != before[i]) fail("collateral", "saving %s changed another file%s%s", name.c_str(), now.empty() ? "" : ": ", files[i].path); }
                if (&l == last && pass == 0) { R->scratch[2] = fsWrites(); std::string d; R->scratch[3] = fsGet(name.c_str(), d) ? d.size() : 0; }
                if (o.st == ST_OK) {
                    R->checks++;
                    std::string why = checkSaved(a, l);
                    bool faulted = false; for (int i = 0; i < F_NKINDS; i++) if (i != F_SHORT_WRITE && R->fired[i] != f0[i]) faulted = true;
                    if (!why.empty()) fail(faulted ? "silent-loss" : "unfaithful-save", "a %s save to %s returned normally but %s", l.str("kind").c_str(), name.c_str(), why.c_str());
                    if (faulted) probe(1); else probe(0);
                    if (a.digest() != st) fail("save-perturbs", "a save changed the level set or the boundary");
                } else { probe(2); }
            }
        });
        if (endedBadly(pr, "save")) return;
        if (pr.kind == ProcResult::EXITED) {
            if (!R->scratch[0]) { if (pr.code == 0) fail("bad-exit", "the process ended with status 0 outside any save"); logEvent("terminated before the saves"); return; }
            // died inside a save
            uint64_t f0[16]; memcpy(f0, &R->scratch[8], sizeof f0);
            bool faulted = false; for (int i = 0; i < 16; i++) if (i != F_SHORT_WRITE && R->fired[i] != f0[i]) faulted = true;
            if (R->fired[F_REDIR]) faulted = true;
            // a missing directory is a fault of the configuration
            const Line* cur = nullptr; uint64_t k = 0; for (auto& l : plan.lines) if (l.kind == "op" && ++k == R->scratch[0]) cur = &l;
            bool missingDir = cur && cur->str("dir") == "out/sub" && cur->has("dp");
            logEvent("save reported an error code=%d", pr.code);
            R->checks++;
            if (cur && othersHash(saveName(*cur)) != R->scratch[40]) fail("collateral", "saving %s changed another file", saveName(*cur).c_str());
            if (pr.code == 0) fail("error-status", "a save gave up with exit status 0");
            if (R->errlogLen == 0) fail("silent-error", "a save gave up without an error message");
            if (!faulted && !missingDir) { R->errlog[std::min<uint32_t>(R->errlogLen, 300)] = 0; fail("false-error", "a save on healthy storage gave up: %s", R->errlog); }
            if (faulted) probe(3);
            if (pass == 0) return;
        }
        if (R->failed) return;
    }
    R->nontrivial = R->checks > 0;
    uint64_t sh = 0; for (int i = 0; i < MAXFILES; i++) if (files[i].used) sh ^= hashBytes(files[i].data, files[i].size); R->stateHash = sh;
}

// ---------------------------------------------------------------- C02
Plan genC02(uint64_t seed, int tier) {
    Rng r(seed * 2654435761u + 202); Plan p; p.add("prop").set("id", "C02").setU("seed", seed);
    GenOpt g; g.maxW = tier ? 40 : 24; g.pBig = 0.12; HistOpt h; h.maxSteps = 2; h.minSteps = 0; h.pNormals = 0;
    genCfg(p, r, 0, g); genHistory(p, r, 0, h, g);
    if (r.chance(0.5)) addPoke(p, r);
    p.add("knob").set("blk", (long)r.pick(std::vector<long>{4096, 4096, 1024, 512, 65536})).set("short", r.chance(0.2) ? (long)r.range(1, 900) : 0L);
    bool bin = r.chance(0.45); bool xy = r.chance(0.5);
    Line& s = addOp(p, 0, "save"); s.set("kind", bin ? "bin" : "txt").set("xy", (int)xy);
    bool dp = r.chance(0.5); long d = r.range(0, 20000); bool dir = r.chance(0.5); std::string dn = r.chance(0.1) ? longDir() : "out";
    if (dp) { s.set("dp", d); if (dir) s.set("dir", dn); } else s.set("file", "state");
    Line ld; ld.kind = "op"; ld.set("n", 0).set("do", "load").set("kind", bin ? "bin" : "txt").set("xy", (int)xy);
    if (dp) { ld.set("dp", d); if (dir) ld.set("dir", dn); } else ld.set("file", "state");
    // storage faults between save and load, or during the load
    int c = r.range(0, 14);
    if (c == 0) p.add("fault").set("op", "torn").set("frac", r.uni());
    else if (c == 1) p.add("fault").set("op", "torn").set("back", r.range(1, 120));
    else if (c == 2) p.add("fault").set("op", "torn").set("frac", 0.0);
    else if (c == 3) p.add("fault").set("op", "grow").set("bytes", r.chance(0.5) ? 8 : r.range(1, 5000));
    else if (c == 4) p.add("fault").set("op", "mutate").set("kind", r.pick(std::vector<std::string>{"dropline", "dupline", "droptoken", "addtoken", "badtoken", "blank", "swapxy", "jointokens"})).setU("s", r.below(1u << 30));
    else if (c == 5) p.add("fault").set("op", "crash").set("frac", r.uni()).set("mid", (int)r.chance(0.5));
    else if (c == 6) p.add("fault").set("op", "missing");
    else if (c == 7) p.add("fault").set("op", r.pick(std::vector<std::string>{"open:EACCES", "open:EMFILE", "open:EINTR"})).set("nth", 0);
    else if (c <= 9) p.add("fault").set("op", r.pick(std::vector<std::string>{"read:EIO", "read:EIO", "read:EINTR", "read:ESTALE"})).set("nth", r.chance(0.4) ? 0 : r.range(0, 40)).set("sticky", (int)(r.chance(0.3) && p.lines.back().str("op") != "read:EINTR"));
    else if (c == 10) p.add("fault").set("op", "read:SHORT").set("nth", r.range(0, 10)).set("arg", r.range(1, 500)).set("sticky", (int)r.chance(0.5));
    else if (c == 11) p.add("fault").set("op", "mesh").set("dw", r.range(-2, 2)).set("dh", r.range(-2, 2));
    else if (c == 12) p.add("fault").set("op", "seek:EIO").set("nth", r.range(0, 2));
    else if (c == 13) p.add("fault").set("op", "alloc").set("nth", bin ? r.range(0, 4) : r.chance(0.4) ? r.range(0, 6) : (int)r.logUni(1, 2000));
    if (r.chance(0.06)) { ld.set("xy", (int)!xy); }
    // the loading program may have a past: its own evolution and masks, and an earlier load
    if (r.chance(0.5)) ld.set("used", 1);
    if (r.chance(0.3)) ld.set("first", r.pick(std::vector<std::string>{"same", "other", "otherfmt"}));
    p.lines.push_back(ld);
    return p;
}

void execC02(const Plan& plan) {
    const Line *sv = nullptr, *ld = nullptr; for (auto& l : plan.lines) if (l.kind == "op") { if (l.str("do") == "save") sv = &l; if (l.str("do") == "load") ld = &l; }
    if (!sv || !ld) return;
    auto mkdirs = makeDirs;
    const Line* flt = plan.find("fault"); std::string fo = flt ? flt->str("op") : "";
    R->scratch[1] = 0;
    ProcResult pr;
    for (int pass = 0; pass < (fo == "crash" ? 2 : 1); pass++) {
        for (int i = 0; i < MAXFILES; i++) files[i].used = 0;
        mkdirs();
        R->blobLen = 0;
        pr = runProcess([&]() {
            FS.blksize = plan.knobNum("blk", 4096);
            App a(0); a.build(readCfg(plan, 0));
            for (auto& l : plan.lines) {
                if (l.kind != "op" || l.str("do") == "load") continue;
                if (l.str("do") == "poke") { poke(a, l); continue; }
                if (&l == sv) {
                    if (pass == 1) { uint64_t tot = R->scratch[2]; uint64_t at = g_sys + (uint64_t)(flt->dbl("frac") * tot); if (flt->num("mid")) crashMidSyscall(at); else crashAtSyscall(at); }
                    // what the file is meant to hold
                    R->blobLen = a.ls->signedDistance.size() * 8; if (R->blobLen <= sizeof R->blob) memcpy(R->blob, &a.ls->signedDistance[0], R->blobLen);
                    R->scratch[1] = 1; uint64_t s0 = g_sys; if (a.apply(l).st == ST_OK) R->scratch[1] = 2; R->scratch[2] = g_sys - s0;
                } else a.apply(l);
                R->ops++;
            }
        });
        if (endedBadly(pr, "preparing a saved state")) return;
        if (pr.kind == ProcResult::EXITED) { logEvent("no saved state"); return; }
    }
    if (R->scratch[1] == 0) return;
    // what happened to the file on disk in the meantime
    std::string name = saveName(*sv), data; bool have = fsGet(name.c_str(), data); std::string orig = data; bool bin = sv->str("kind") == "bin";
    if (fo == "torn") { size_t n = flt->has("back") ? (data.size() > (size_t)flt->num("back") ? data.size() - flt->num("back") : 0) : (size_t)(flt->dbl("frac") * data.size()); data.resize(n); fired(F_TORN_FILE); }
    else if (fo == "grow") { size_t n = flt->num("bytes"); Rng r(n); if (bin) for (size_t i = 0; i < n; i++) data += (char)r.next(); else for (size_t i = 0; i < 1 + n / 20; i++) data += "0.500000 0.000000 1.000000\n"; fired(F_CORRUPT_FILE); }
    else if (fo == "missing") { fsDel(name.c_str()); fired(F_CORRUPT_FILE); }
    else if (fo == "mutate") {
        Rng r(flt->u64("s")); std::string k = flt->str("kind"); fired(F_CORRUPT_FILE);
        if (bin) { if (!data.empty()) { if (k == "dropline") data.erase(r.below(data.size() / 8) * 8, 8); else if (k == "dupline") data += data.substr(0, 8); else data[r.below(data.size())] ^= 1 << r.below(8); } }
        else {
            auto ls = splitLines(data); if (ls.empty()) return; size_t i = r.below(ls.size()); auto w = words(ls[i]); size_t j = w.empty() ? 0 : r.below(w.size());
            if (k == "dropline") ls.erase(ls.begin() + i); else if (k == "dupline") ls.insert(ls.begin() + i, ls[i]);
            else if (k == "droptoken" && !w.empty()) w.erase(w.begin() + j); else if (k == "addtoken") w.insert(w.begin() + j, "0.25"); else if (k == "badtoken" && !w.empty()) w[j] = r.chance(0.5) ? "abc" : "1.2.x"; else if (k == "blank") w.clear();
            else if (k == "jointokens" && w.size() > 1) { j = r.below(w.size() - 1); w[j] = w[j] + "_" + w[j + 1]; w.erase(w.begin() + j + 1); }
            else if (k == "swapxy") { for (auto& l2 : ls) { auto w2 = words(l2); if (w2.size() == 3) l2 = "0.0 0.0 " + l2; else if (w2.size() == 5) l2 = w2[2] + " " + w2[3] + " " + w2[4]; } }
            if (k != "dropline" && k != "dupline" && k != "swapxy") { std::string s; for (size_t q = 0; q < w.size(); q++) s += (q ? " " : "") + w[q]; ls[i] = s; }
            data.clear(); for (auto& l2 : ls) data += l2 + "\n";
        }
    }
    if (have && fo != "missing") fsPut(name.c_str(), data.data(), data.size());
    logEvent("file %s bytes=%zu of %zu", fo.c_str(), data.size(), orig.size());
    // the process that loads
    Cfg c = readCfg(plan, 0); if (fo == "mesh") { int dw = flt->num("dw"), dh = flt->num("dh"); c.w = std::max(5, c.w + dw); c.h = std::max(5, c.h + dh); fired(F_CORRUPT_FILE); }
    uint64_t f0[F_NKINDS]; memcpy(f0, R->fired, sizeof f0);
    R->scratch[0] = 0; R->errlogLen = 0;
    size_t n = (size_t)(c.w + 1) * (c.h + 1); bool xy = ld->num("xy"); size_t cols = xy ? 5 : 3, at = xy ? 2 : 0;
    // reference: does the file hold exactly one value per node, and which
    std::vector<double> want(n); std::string why;
    bool exists = fo != "missing" && have;
    if (!exists) why = "missing file";
    else if (bin) { if (data.size() != n * 8) why = "wrong size"; else memcpy(want.data(), data.data(), n * 8); }
    else {
        auto ls = splitLines(data); if (ls.size() != n) why = "wrong number of lines";
        else for (size_t i = 0; i < n && why.empty(); i++) {
            auto w = words(ls[i]); if (w.size() != cols) { why = "wrong number of columns"; break; }
            for (size_t j = 0; j < cols; j++) { char* e; double v = strtod(w[j].c_str(), &e); if (*e) { why = "not a number"; break; } if (j == at) want[i] = v; }
        }
    }
    // an undamaged file gives back the state that was saved
    if (why.empty() && data == orig && R->scratch[1] == 2 && R->blobLen == n * 8 && R->blobLen <= sizeof R->blob) {
        std::vector<double> saved(n); memcpy(saved.data(), R->blob, n * 8); R->checks++;
        for (size_t i = 0; i < n; i++) if (bin ? memcmp(&want[i], &saved[i], 8) != 0 : !(std::fabs(want[i] - saved[i]) <= 6e-7 + 1e-14 * std::fabs(saved[i]))) { fail("lost-state", "node %zu was saved as %.9g but the file holds %.9g", i, saved[i], want[i]); return; }
    } else if (fo == "" && R->scratch[1] == 2 && ld->num("xy") == sv->num("xy")) { fail("lost-state", "a saved %s state cannot be read back: %s", bin ? "BIN" : "TXT", why.c_str()); return; }
    pr = runProcess([&]() {
        FS.blksize = plan.knobNum("blk", 4096); FS.shortMax = plan.knobNum("short", 0);
        App a(0); if (a.build(c) != ST_OK) return;
        if (ld->num("used")) for (auto& l : plan.lines) { if (l.kind != "op" || l.str("do") == "load" || l.str("do") == "save") continue; if (l.str("do") == "poke") poke(a, l); else a.apply(l); R->ops++; }
        Rng r(99); for (auto& v : a.ls->velocity) v = r.uni(); for (auto& v : a.ls->gradient) v = r.uni();
        uint64_t keep = hashDoubles(a.ls->velocity, 1); keep = hashDoubles(a.ls->gradient, keep); keep = hashDoubles(a.ls->target, keep); keep = digestMeshFlags(*a.ls, keep);
        if (ld->has("first")) {   // an earlier load, of a healthy file
            std::string k = ld->str("first"), body; bool bb = (k == "otherfmt") != bin, px = (k == "other") != xy; char b[120];
            std::vector<double> v0(n); for (auto& v : v0) v = r.range(-9000000, 9000000) * 1e-6;
            if (bb) body.assign((const char*)v0.data(), n * 8);
            else for (size_t i = 0; i < n; i++) {
                if (px) { snprintf(b, sizeof b, "%f %f ", a.ls->mesh.nodes[i].coord.x, a.ls->mesh.nodes[i].coord.y); body += b; }
                snprintf(b, sizeof b, "%f %f %f\n", v0[i], 0.25, 1.0); body += b;
            }
            fsPut("earlier", body.data(), body.size());
            Line pre; pre.kind = "op"; pre.set("n", 0).set("do", "load").set("kind", bb ? "bin" : "txt").set("xy", (int)px).set("file", "earlier");
            FS.faults.clear(); a.dead = false; R->scratch[0] = 3; Outcome o = a.apply(pre); R->ops++; R->scratch[0] = 0;
            if (o.st != ST_OK) { fail("failed", "a load threw an exception"); return; }
            for (size_t i = 0; i < n; i++) if (std::fabs(a.ls->signedDistance[i] - v0[i]) > 1e-12) { fail("wrong-load", "node %zu was loaded as %.9g but the file holds %.9g", i, a.ls->signedDistance[i], v0[i]); return; }
        }
        FS.faults.clear(); fsResetOrdinals();
        if (flt && fo.find(':') != std::string::npos) FS.faults.push_back(FsFault{flt->u64("nth"), fo, flt->num("arg"), (int)flt->num("sticky"), false});
        if (fo == "alloc") { TA = AllocFault(); TA.failAt = flt->num("nth"); }
        R->scratch[0] = 1; a.dead = false;
        Outcome o = a.apply(*ld); R->ops++;
        bool starved = TA.hits > 0; TA = AllocFault(); logEvent("load returned st=%d", o.st);
        // a load that ran out of memory is tried again
        if (starved && o.st == ST_OK) { fail("unreported", "a load returned normally although an allocation failed"); return; }
        if (o.st == ST_BADALLOC) { probe(2); o = a.apply(*ld); R->ops++; logEvent("load returned st=%d", o.st); }
        R->scratch[0] = 2;
        if (o.st != ST_OK) { fail("failed", "a load threw an exception"); return; }
        R->checks++;
        if (!why.empty()) { fail("bad-load-accepted", "loading a %s file with %s returned normally", bin ? "BIN" : "TXT", why.c_str()); return; }
        if (a.ls->signedDistance.size() != n) fail("bad-load", "the number of nodes changed");
        for (size_t i = 0; i < n; i++) if (memcmp(&a.ls->signedDistance[i], &want[i], 8) && !(a.ls->signedDistance[i] == want[i])) {
            bool ioFault = R->fired[F_EIO_READ] != f0[F_EIO_READ] || R->fired[F_SEEK_FAIL] != f0[F_SEEK_FAIL];
            fail(ioFault ? "silent-read-error" : "wrong-load", "node %zu was loaded as %.9g but the file holds %.9g", i, a.ls->signedDistance[i], want[i]); break; }
        uint64_t k2 = hashDoubles(a.ls->velocity, 1); k2 = hashDoubles(a.ls->gradient, k2); k2 = hashDoubles(a.ls->target, k2); k2 = digestMeshFlags(*a.ls, k2);
        if (k2 != keep) fail("collateral", "a load changed more than the signed distance");
        std::string now; if (fsGet(name.c_str(), now) && now != data) fail("collateral", "a load changed the file");
        probe(1);
    });
    if (endedBadly(pr, "load")) return;
    if (pr.kind == ProcResult::EXITED) {
        if (R->scratch[0] == 3) { fail("false-error", "loading a complete file from healthy storage gave up"); return; }
        if (R->scratch[0] != 1) { logEvent("ended outside the load"); return; }
        R->checks++; probe(3); logEvent("load reported an error code=%d", pr.code);
        if (pr.code == 0) fail("error-status", "a load gave up with exit status 0");
        if (!R->errlogLen) fail("silent-error", "a load gave up without an error message");
        bool ioFault = false; for (int i : {F_ALLOC, F_EIO_READ, F_EINTR_READ, F_OPEN_FAIL, F_SEEK_FAIL, F_STAT_FAIL}) if (R->fired[i] != f0[i]) ioFault = true;
        if (why.empty() && !ioFault) { R->errlog[std::min<uint32_t>(R->errlogLen, 300)] = 0; fail("false-error", "loading a complete file from healthy storage gave up: %s", R->errlog); }
    }
    // A state whose text form is not a number cannot be restored, and must be refused.
    R->nontrivial = R->probes[1] || R->probes[3];
    R->stateHash = hashBytes(data.data(), data.size(), hashBytes(R->errlog, R->errlogLen));
}

} // namespace sim
