// Simulator core: seeds, plans, shared run record, and the seams
// (storage, allocator, entropy, clock, scheduler, process lifetime).
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1);
    uint64_t next();
    uint64_t below(uint64_t n);              // [0,n)
    int range(int lo, int hi);               // inclusive
    double uni();                            // [0,1)
    double uni(double lo, double hi);
    bool chance(double p);
    double logUni(double lo, double hi);
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t mix64(uint64_t x);
uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);

// ---------------------------------------------------------------- Plan
// A plan is an explicit, line based description of one simulated run: every
// knob, operation, fault and (optionally) every context switch. Executing a
// plan is a pure function of the plan and of the code under test.
struct Line {
    std::string kind;                                        // knob | op | fault | switch | ...
    std::vector<std::pair<std::string, std::string>> kv;
    bool has(const char* k) const;
    std::string str(const char* k, const char* def = "") const;
    long num(const char* k, long def = 0) const;
    uint64_t u64(const char* k, uint64_t def = 0) const;
    double dbl(const char* k, double def = 0) const;
    Line& set(const char* k, const std::string& v);
    Line& set(const char* k, const char* v) { return set(k, std::string(v)); }
    Line& set(const char* k, long v);
    Line& set(const char* k, int v) { return set(k, (long)v); }
    Line& set(const char* k, unsigned v) { return set(k, (long)v); }
    Line& setU(const char* k, uint64_t v);
    Line& set(const char* k, double v);
    std::string text() const;
};
struct Plan {
    std::vector<Line> lines;
    Line& add(const std::string& kind) { lines.push_back(Line()); lines.back().kind = kind; return lines.back(); }
    const Line* find(const std::string& kind) const;
    std::string knob(const char* k, const char* def = "") const;     // from the first "knob" line holding k
    long knobNum(const char* k, long def = 0) const;
    double knobDbl(const char* k, double def = 0) const;
    std::string text() const;
    static Plan parse(const std::string& text);
};

// ---------------------------------------------------------------- Run record (shared memory)
enum FaultKind {
    F_ALLOC, F_ENOSPC, F_EIO_WRITE, F_SHORT_WRITE, F_EINTR_WRITE, F_OPEN_FAIL, F_CLOSE_FAIL,
    F_EIO_READ, F_SHORT_READ, F_EINTR_READ, F_CRASH, F_TORN_FILE, F_CORRUPT_FILE, F_SWITCH, F_ENTROPY,
    F_CLOCK_JUMP, F_HEAP_GARBAGE, F_STACK_GARBAGE, F_NOISE, F_SOLVER_ROUNDOFF, F_SOLVER_INVALID,
    F_SOLVER_EARLY, F_CALLBACK_THROW, F_RESEED, F_RESTART, F_STALL, F_REDIR, F_SEEK_FAIL, F_STAT_FAIL, F_NKINDS
};
extern const char* const faultNames[F_NKINDS];

struct SimFile { int used; char path[200]; uint32_t size; uint32_t cap; uint8_t* data; int isDir; };
enum { MAXFILES = 48, FILECAP = 1 << 20 };

struct RunRecord {
    int failed;                   // a violation was recorded
    char cls[64];                 // violation class
    char msg[1500];
    int errored;                  // harness problem (not a violation)
    char errmsg[500];
    uint64_t hash;                // event log hash
    uint64_t events;
    uint64_t steps;               // basic blocks executed in library code
    uint64_t ops;
    double simTime;
    uint64_t fired[F_NKINDS];
    uint64_t schedHash, switches;
    uint64_t stateHash;           // last library state digest
    uint64_t checks;              // oracle evaluations
    int nontrivial;
    uint64_t probes[64];
    uint64_t maxLive;
    // process outcome
    int exitCalled, exitCode;
    uint32_t errlogLen; char errlog[2000];   // what the code under test wrote on stdout/stderr
    // profile of each op (for placing faults)
    uint32_t nProf; struct { uint32_t steps, allocs, sys; } prof[4000];
    // explicit switches recorded (for minimisation)
    uint32_t nSw; struct { uint64_t step; int to; } sw[20000];
    uint64_t scratch[64];         // property private, survives crashed processes
    uint32_t blobLen; uint8_t blob[1 << 20];   // property private byte channel
};
extern RunRecord* R;
extern SimFile* files;            // simulated disk (shared memory: survives process crashes)
extern uint8_t* covMap;           // basic block edge bitmap, accumulated over a worker's runs
enum { COVSIZE = 1 << 16 };

void resetRun();
bool verbose();
void setVerbose(bool);
void logEvent(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // goes into the hash (and the trace when verbose)
void logHash(uint64_t v);
void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // record violation (first one wins)
void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void probe(int i) { R->probes[i]++; }
inline void fired(FaultKind k) { R->fired[k]++; }

// ---------------------------------------------------------------- Processes
struct ProcResult { enum Kind { RETURNED, EXITED, CRASHED, SIGNALLED, TIMEOUT } kind; int code; };
// Runs fn in a forked process with every seam armed. The simulated disk and
// the run record survive it, nothing else does.
ProcResult runProcess(const std::function<void()>& fn, uint64_t stepBudget = 400000000ULL, int wallSeconds = 60);
[[noreturn]] void crashNow();      // kill the simulated process at this instant

// ---------------------------------------------------------------- Library scope
// Code inside a LibScope is the code under test: allocation faults, step
// counting, preemption and crashes apply to it and only to it.
extern thread_local int t_lib;
struct LibScope { int old; LibScope() : old(t_lib) { t_lib = 1; } ~LibScope() { t_lib = old; } };
struct HarnessScope { int old; HarnessScope() : old(t_lib) { t_lib = 0; } ~HarnessScope() { t_lib = old; } };

// Allocator seam
struct AllocCtl {
    int64_t count;        // library allocations so far
    int64_t limitBytes;   // fail when live library bytes exceed this, -1 unlimited
    int fillMode;         // 0 zero, 1 0xFF, 2 0x7f, 3 pseudo random, 4 no fill
    int fillSalt;
    int padMode;          // 0 none, else pseudo random extra padding in front of blocks
    int64_t liveBlocks, liveBytes;
    int64_t injected;
};
extern AllocCtl A;
// Allocation faults are per simulated node, so that they strike the same
// allocation whatever the interleaving.
struct AllocFault { int64_t n = 0, failAt = -1, failRun = 1, hits = 0; };
extern thread_local AllocFault TA;
int64_t badHeap();        // number of red zone violations seen so far (fatal anyway)

// Step counter (basic blocks of library code)
extern uint64_t g_steps;
extern uint64_t g_stepBudget;
void crashAtStep(uint64_t step);          // absolute step number
void crashAtSyscall(uint64_t n);          // before executing the n-th storage call (0 based), half: after half of a write
void crashMidSyscall(uint64_t n);
extern uint64_t g_sys;                    // storage calls so far

// Stack garbage
void smearStack(uint8_t byte);
extern uint8_t g_stackByte;
uint8_t* mapStack(int k, size_t n);

// Storage seam
struct FsFault { uint64_t nth; std::string kind; long arg; int sticky; bool used; };
struct FsCtl {
    std::vector<FsFault> faults;
    long capacity = -1;      // total bytes on the simulated disk, -1 unlimited
    long blksize = 4096;
    long shortMax = 0;       // >0: reads and writes never move more than this many bytes per call (legal)
};
extern FsCtl FS;
bool fsPut(const char* path, const void* data, size_t n);
bool fsGet(const char* path, std::string& out);
void fsDel(const char* path);
void fsTruncate(const char* path, size_t n);
void fsResetOrdinals();       // fault ordinals count from here
uint64_t fsWrites();          // write calls since then
int fsEscapes();             // attempts to modify anything outside the simulated disk

// Entropy and clock seams
struct EnvCtl { uint64_t entropySeed; int64_t clock; int64_t clockStep; uint64_t draws; uint64_t clockReads; int entropyMode; };
extern EnvCtl E;

// ---------------------------------------------------------------- Cooperative scheduling of real threads
struct Sched {
    // random mode: draw a gap in library steps and then a successor from seed
    static void run(std::vector<std::function<void()>> nodes, uint64_t seed, double meanGap,
                    const std::vector<std::pair<uint64_t, int>>* explicitSwitches);
    static int self();
};

} // namespace sim
#endif
