#include "props.h"
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <locale>
#include <sstream>
#include <signal.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <unistd.h>

using namespace sim;

static const Prop* findProp(const std::string& id) { for (int i = 0; i < nProps; i++) if (id == props[i].id) return &props[i]; return nullptr; }

static std::string esc(const char* s) { std::string o; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += ' '; else if (c > 126) o += '?'; else o += c; } return o; }

static void execute(const Prop& p, const Plan& plan) { resetRun(); p.exec(plan); }

static void report(const char* tag, uint64_t seed) {
    uint64_t h = hashBytes(&R->failed, sizeof R->failed, R->hash); h = hashBytes(R->cls, strlen(R->cls), h); h = hashBytes(&R->steps, 8, h);
    std::ostringstream o;
    o << tag << " {\"seed\":" << seed << ",\"failed\":" << R->failed << ",\"cls\":\"" << esc(R->cls) << "\",\"msg\":\"" << esc(R->msg) << "\",\"err\":\"" << (R->errored ? esc(R->errmsg) : "") << "\"";
    char b[40]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
    o << ",\"hash\":\"" << b << "\",\"steps\":" << R->steps << ",\"ops\":" << R->ops << ",\"events\":" << R->events << ",\"checks\":" << R->checks << ",\"simTime\":" << R->simTime << ",\"switches\":" << R->switches << ",\"sched\":" << R->schedHash << ",\"state\":" << R->stateHash << ",\"nt\":" << R->nontrivial << ",\"fired\":{";
    bool first = true; for (int i = 0; i < F_NKINDS; i++) if (R->fired[i]) { o << (first ? "" : ",") << "\"" << faultNames[i] << "\":" << R->fired[i]; first = false; }
    if (getenv("SIM_WL")) fprintf(stderr, "WL %llu %llu\n", (unsigned long long)R->scratch[59], (unsigned long long)seed);
    o << "},\"probes\":["; for (int i = 0, f = 1; i < 64; i++) if (R->probes[i]) { o << (f ? "" : ",") << "[" << i << "," << R->probes[i] << "]"; f = 0; }
    o << "]}";
    puts(o.str().c_str()); fflush(stdout);
}

static bool removable(const Line& l) { return l.kind == "op" || l.kind == "fault" || l.kind == "switch" || l.kind == "hole"; }

struct Verdict { bool failed; std::string cls; };
static Verdict tryPlan(const Prop& p, const Plan& plan) { execute(p, plan); return {R->failed && !R->errored, R->cls}; }

static Plan minimise(const Prop& p, Plan plan, const std::string& cls, double budgetSeconds) {
    struct timeval a; gettimeofday(&a, 0);
    auto left = [&]() { struct timeval n; gettimeofday(&n, 0); return budgetSeconds - ((n.tv_sec - a.tv_sec) + 1e-6 * (n.tv_usec - a.tv_usec)); };
    // make the schedule explicit
    if (R->nSw > 0 && R->nSw < 20000) {
        Plan q; for (auto& l : plan.lines) { Line c = l; if (c.kind == "knob" && c.has("sched")) c.set("sched", "explicit"); if (c.kind != "switch") q.lines.push_back(c); }
        for (uint32_t i = 0; i < R->nSw; i++) q.add("switch").setU("step", R->sw[i].step).set("to", R->sw[i].to);
        Verdict v = tryPlan(p, q); if (v.failed && v.cls == cls) plan = q;
    }
    for (size_t chunk = std::max<size_t>(1, plan.lines.size() / 2); chunk >= 1 && left() > 0; chunk /= 2) {
        bool any = true;
        while (any && left() > 0) {
            any = false;
            for (size_t i = 0; i < plan.lines.size() && left() > 0;) {
                Plan q; size_t dropped = 0, j = 0;
                // drop up to `chunk` removable lines starting at i
                for (j = 0; j < plan.lines.size(); j++) { if (j >= i && dropped < chunk && removable(plan.lines[j])) { dropped++; continue; } q.lines.push_back(plan.lines[j]); }
                if (!dropped) break;
                Verdict v = tryPlan(p, q);
                if (v.failed && v.cls == cls) { plan = q; any = true; } else i += chunk;
            }
            if (chunk > 1) any = false;
        }
        if (chunk == 1) break;
    }
    return plan;
}

static std::string slurp(const char* f) { std::ifstream in(f); std::stringstream s; s << in.rdbuf(); return s.str(); }
// The C++ library initialises parts of its locale facets on first use; do that
// before the first simulated process, so that every run starts from one state.
static void warmUp() {
    std::ostringstream o; o.fill('0'); o.width(4); o << 7 << ' ' << 1.5 << 'x' << std::endl; (void)o.narrow('a', 0); (void)o.str();
    std::istringstream i("1 2.5 abc\nline\n"); int a; double d; std::string s; i >> a >> d >> s; std::getline(i, s); std::getline(i, s);
    for (int c = 0; c < 256; c++) { (void)std::use_facet<std::ctype<char>>(o.getloc()).widen((char)c); (void)std::use_facet<std::ctype<char>>(o.getloc()).narrow((char)c, 0); }
}
static void onAlarm(int) {}

int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sigaction(SIGALRM, &sa, 0);
    struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &it, 0);
    warmUp();
    std::string mode = argc > 1 ? argv[1] : "list";
    if (mode == "list") { for (int i = 0; i < nProps; i++) puts(props[i].id); return 0; }
    if (mode == "run" && argc >= 6) {
        const Prop* p = findProp(argv[2]); if (!p) { fprintf(stderr, "no such property\n"); return 2; }
        uint64_t start = strtoull(argv[3], 0, 10), count = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10);
        int tier = argc > 6 ? atoi(argv[6]) : 0; double secs = argc > 7 ? atof(argv[7]) : 1e9; int maxFail = argc > 8 ? atoi(argv[8]) : 3;
        struct timeval a; gettimeofday(&a, 0);
        for (uint64_t i = 0; i < count; i++) {
            struct timeval n; gettimeofday(&n, 0); if ((n.tv_sec - a.tv_sec) + 1e-6 * (n.tv_usec - a.tv_usec) > secs) break;
            uint64_t seed = start + i * stride;
            Plan plan = p->gen(seed, tier); execute(*p, plan); report("RUN", seed);
            if (R->failed && --maxFail <= 0) break;
        }
        int c = 0; for (int i = 0; i < COVSIZE; i++) c += covMap[i];
        printf("COV %d ", c); for (int i = 0; i < COVSIZE; i += 8) { int b = 0; for (int j = 0; j < 8; j++) b |= covMap[i + j] << j; printf("%02x", b); } printf("\n");
        return 0;
    }
    if (mode == "gen" && argc >= 4) { const Prop* p = findProp(argv[2]); if (!p) return 2; resetRun(); Plan pl = p->gen(strtoull(argv[3], 0, 10), argc > 4 ? atoi(argv[4]) : 0); fputs(pl.text().c_str(), stdout); return 0; }
    if ((mode == "replay" || mode == "trace") && argc >= 3) {
        Plan pl = Plan::parse(slurp(argv[2])); std::string id; for (auto& l : pl.lines) if (l.kind == "prop") id = l.str("id");
        const Prop* p = findProp(id); if (!p) { fprintf(stderr, "plan names no known property\n"); return 2; }
        if (mode == "trace") { dup2(1, 9); setVerbose(true); }
        execute(*p, pl); report("RUN", pl.find("prop")->u64("seed"));
        if (mode == "trace" && R->errlogLen) { R->errlog[R->errlogLen] = 0; printf("stderr: %s\n", R->errlog); }
        return R->errored ? 2 : R->failed ? 1 : 0;
    }
    if (mode == "minimise" && argc >= 4) {
        Plan pl = Plan::parse(slurp(argv[2])); std::string id = pl.find("prop")->str("id"); const Prop* p = findProp(id); if (!p) return 2;
        Verdict v = tryPlan(*p, pl); if (!v.failed) { printf("NOFAIL\n"); return 3; }
        Plan m = minimise(*p, pl, v.cls, argc > 4 ? atof(argv[4]) : 60);
        Verdict v2 = tryPlan(*p, m); if (!v2.failed || v2.cls != v.cls) m = pl;
        std::ofstream(argv[3]) << m.text(); printf("MIN %zu -> %zu\n", pl.lines.size(), m.lines.size()); return 0;
    }
    fprintf(stderr, "usage\n"); return 2;
}
