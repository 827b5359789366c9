#include "core.h"
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdlib>
#include <cstddef>
#include <new>
#include <random>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

namespace sim {

const char* const faultNames[F_NKINDS] = {
    "alloc_failure", "write_enospc", "write_eio", "short_write", "write_eintr", "open_failure", "close_failure",
    "read_eio", "short_read", "read_eintr", "process_crash", "torn_file", "corrupt_file", "context_switch",
    "entropy_value", "clock_jump", "heap_garbage", "stack_garbage", "thermal_noise", "solver_roundoff",
    "solver_invalid_argument", "solver_early_stop", "callback_exception", "reseed", "restart", "stalled_node",
    "disk_capacity", "seek_failure", "stat_failure" };

// ---------------------------------------------------------------- PRNG
uint64_t mix64(uint64_t x) { x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL; x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31); }
Rng::Rng(uint64_t seed) { s[0] = mix64(seed); s[1] = mix64(seed ^ 0xabcdef1234567ULL); if (!s[0] && !s[1]) s[0] = 1; }
uint64_t Rng::next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b; }
uint64_t Rng::below(uint64_t n) { return n ? next() % n : 0; }
int Rng::range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
double Rng::uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
double Rng::uni(double lo, double hi) { return lo + (hi - lo) * uni(); }
bool Rng::chance(double p) { return uni() < p; }
double Rng::logUni(double lo, double hi) { return std::exp(uni(std::log(lo), std::log(hi))); }
uint64_t hashBytes(const void* p, size_t n, uint64_t h) { const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ULL; } return h; }

// ---------------------------------------------------------------- Plan
bool Line::has(const char* k) const { for (auto& p : kv) if (p.first == k) return true; return false; }
std::string Line::str(const char* k, const char* def) const { for (auto& p : kv) if (p.first == k) return p.second; return def; }
long Line::num(const char* k, long def) const { for (auto& p : kv) if (p.first == k) return strtol(p.second.c_str(), 0, 10); return def; }
uint64_t Line::u64(const char* k, uint64_t def) const { for (auto& p : kv) if (p.first == k) return strtoull(p.second.c_str(), 0, 10); return def; }
double Line::dbl(const char* k, double def) const { for (auto& p : kv) if (p.first == k) return strtod(p.second.c_str(), 0); return def; }
Line& Line::set(const char* k, const std::string& v) { for (auto& p : kv) if (p.first == k) { p.second = v; return *this; } kv.push_back({k, v}); return *this; }
Line& Line::set(const char* k, long v) { char b[32]; snprintf(b, sizeof b, "%ld", v); return set(k, std::string(b)); }
Line& Line::setU(const char* k, uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v); return set(k, std::string(b)); }
Line& Line::set(const char* k, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return set(k, std::string(b)); }
std::string Line::text() const { std::string s = kind; for (auto& p : kv) { s += ' '; s += p.first; s += '='; s += p.second; } return s; }
const Line* Plan::find(const std::string& kind) const { for (auto& l : lines) if (l.kind == kind) return &l; return nullptr; }
std::string Plan::knob(const char* k, const char* def) const { for (auto& l : lines) if (l.kind == "knob" && l.has(k)) return l.str(k); return def; }
long Plan::knobNum(const char* k, long def) const { for (auto& l : lines) if (l.kind == "knob" && l.has(k)) return l.num(k); return def; }
double Plan::knobDbl(const char* k, double def) const { for (auto& l : lines) if (l.kind == "knob" && l.has(k)) return l.dbl(k); return def; }
std::string Plan::text() const { std::string s; for (auto& l : lines) { s += l.text(); s += '\n'; } return s; }
Plan Plan::parse(const std::string& text) {
    Plan p; size_t i = 0;
    while (i < text.size()) {
        size_t e = text.find('\n', i); if (e == std::string::npos) e = text.size();
        std::string ln = text.substr(i, e - i); i = e + 1;
        if (ln.empty() || ln[0] == '#') continue;
        Line l; size_t j = 0; bool first = true;
        while (j < ln.size()) {
            size_t f = ln.find(' ', j); if (f == std::string::npos) f = ln.size();
            std::string w = ln.substr(j, f - j); j = f + 1;
            if (w.empty()) continue;
            if (first) { l.kind = w; first = false; }
            else { size_t q = w.find('='); if (q == std::string::npos) l.kv.push_back({w, ""}); else l.kv.push_back({w.substr(0, q), w.substr(q + 1)}); }
        }
        p.lines.push_back(l);
    }
    return p;
}

// ---------------------------------------------------------------- Run record
static RunRecord* mapRecord() { return (RunRecord*)mmap(0, sizeof(RunRecord), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static SimFile* mapFiles() {
    SimFile* f = (SimFile*)mmap(0, sizeof(SimFile) * MAXFILES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint8_t* d = (uint8_t*)mmap(0, (size_t)FILECAP * MAXFILES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < MAXFILES; i++) { f[i].data = d + (size_t)i * FILECAP; f[i].cap = FILECAP; }
    return f;
}
RunRecord* R = mapRecord();
SimFile* files = mapFiles();
uint8_t* covMap = (uint8_t*)mmap(0, COVSIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
static bool g_verbose = false;
bool verbose() { return g_verbose; }
void setVerbose(bool v) { g_verbose = v; }

void resetRun() {
    // Everything except the large arrays, which are length prefixed.
    uint32_t keep = 0; (void)keep;
    memset(R, 0, offsetof(RunRecord, prof));
    R->nSw = 0; memset(R->scratch, 0, sizeof R->scratch); R->blobLen = 0;
    R->hash = 1469598103934665603ULL;
    for (int i = 0; i < MAXFILES; i++) { files[i].used = 0; files[i].size = 0; files[i].isDir = 0; }
}
void logHash(uint64_t v) { R->hash = hashBytes(&v, 8, R->hash); R->events++; }
static void rawOut(const char* b, size_t n) { ssize_t r = syscall(SYS_pwrite64, -1, b, 0, 0); (void)r; (void)n; }
static int g_traceFd = -1;
void logEvent(const char* fmt, ...) {
    HarnessScope hs;
    char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n < 0) n = 0; if (n >= (int)sizeof b) n = sizeof b - 1;
    R->hash = hashBytes(b, n, R->hash); R->events++;
    if (g_verbose) { if (g_traceFd < 0) g_traceFd = 9; b[n] = '\n'; ssize_t r = write(g_traceFd, b, n + 1); (void)r; }
    (void)rawOut;
}
void fail(const char* cls, const char* fmt, ...) {
    HarnessScope hs;
    char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!R->failed) { R->failed = 1; snprintf(R->cls, sizeof R->cls, "%s", cls); snprintf(R->msg, sizeof R->msg, "%s", b); }
    logEvent("VIOLATED %s: %.400s", cls, b);
}
void harnessError(const char* fmt, ...) {
    HarnessScope hs;
    va_list ap; va_start(ap, fmt);
    if (!R->errored) { R->errored = 1; vsnprintf(R->errmsg, sizeof R->errmsg, fmt, ap); }
    va_end(ap);
}

// ---------------------------------------------------------------- Steps
thread_local int t_lib = 0;
static thread_local int t_noPreempt = 0;
uint64_t g_steps = 0, g_stepBudget = ~0ULL, g_sys = 0;
static uint64_t g_nextEvent = ~0ULL, g_crashStep = ~0ULL, g_nextSwitch = ~0ULL;
static uint64_t g_crashSys = ~0ULL; static bool g_crashMid = false;
static bool g_inProc = false;
static void schedSwitchPoint();
static void recompute() { uint64_t m = g_crashStep; if (g_nextSwitch < m) m = g_nextSwitch; if (g_stepBudget < m) m = g_stepBudget; g_nextEvent = m; }
void crashAtStep(uint64_t s) { g_crashStep = s; recompute(); }
void crashAtSyscall(uint64_t n) { g_crashSys = n; g_crashMid = false; }
void crashMidSyscall(uint64_t n) { g_crashSys = n; g_crashMid = true; }
enum { EX_RETURNED = 200, EX_CRASH = 201, EX_BUDGET = 202 };
static void endRecord() { R->steps += g_steps; }
void crashNow() {
    R->fired[F_CRASH]++; logEvent("crash step=%llu sys=%llu", (unsigned long long)g_steps, (unsigned long long)g_sys);
    endRecord(); syscall(SYS_exit_group, EX_CRASH); __builtin_unreachable();
}
static thread_local uintptr_t g_prevPc = 0;
static __attribute__((noinline)) void stepSlow() {
    HarnessScope hs;
    if (g_steps >= g_crashStep) crashNow();
    if (g_steps >= g_stepBudget) { logEvent("step budget exhausted"); endRecord(); syscall(SYS_exit_group, EX_BUDGET); }
    if (g_steps >= g_nextSwitch && !t_noPreempt) schedSwitchPoint();
}
extern "C" void __sanitizer_cov_trace_pc() {
    if (!t_lib) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    covMap[((pc >> 1) ^ (g_prevPc << 3)) & (COVSIZE - 1)] = 1; g_prevPc = pc >> 1;
    if (__builtin_expect(++g_steps >= g_nextEvent, 0)) stepSlow();
}

uint8_t g_stackByte = 0xA7;
__attribute__((noinline)) void smearStack(uint8_t byte) { volatile uint8_t buf[192 * 1024]; for (size_t i = 0; i < sizeof buf; i++) buf[i] = byte; __asm__ volatile("" ::: "memory"); }

// ---------------------------------------------------------------- Allocator
AllocCtl A = { 0, -1, 3, 0, 0, 0, 0, 0 };
thread_local AllocFault TA;
struct Hdr { uint64_t magic; uint64_t size; Hdr *prev, *next; uint32_t lib, pad; uint64_t seq; };   // 48 bytes
static Hdr g_live = { 0, 0, &g_live, &g_live, 0, 0, 0 };
static const uint64_t MAGIC = 0x51a5c0de51a5c0deULL, DEAD = 0xdeadc0dedeadc0deULL;
static int64_t g_badHeap = 0;
int64_t badHeap() {   // scan the red zones of the live library blocks
    for (Hdr* h = g_live.next; h != &g_live; h = h->next) {
        const uint8_t* t = (const uint8_t*)(h + 1) + h->size;
        for (int i = 0; i < 16; i++) if (t[i] != 0xA5) { g_badHeap++; break; }
    }
    return g_badHeap;
}
[[noreturn]] static void heapCorrupt(const char* what, Hdr* h) {
    t_lib = 0; fail("heap-corruption", "%s (block of %llu bytes, allocation #%llu)", what, (unsigned long long)h->size, (unsigned long long)h->seq);
    endRecord(); syscall(SYS_exit_group, 203); __builtin_unreachable();
}
static void fill(void* p, size_t n) {
    switch (A.fillMode) {
        case 0: memset(p, 0, n); break; case 1: memset(p, 0xFF, n); break; case 2: memset(p, 0x7f, n); break;
        case 3: { uint64_t x = mix64(A.count * 7919 + A.fillSalt); uint8_t* b = (uint8_t*)p; for (size_t i = 0; i < n; i++) { if ((i & 7) == 0) x = mix64(x); b[i] = (uint8_t)(x >> ((i & 7) * 8)); } break; }
        default: break;
    }
}
// The library's heap is an arena at a fixed address, so that every address the
// library sees is the same in every execution of a seed, whatever ran before.
static uint8_t* const ARENA = (uint8_t*)0x200000000000ULL; static const size_t ARENASIZE = 4ULL << 30;
static uint8_t* mapAt(uint8_t* at, size_t n) {
    void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) return nullptr; if (p != at) { munmap(p, n); return nullptr; } return at;
}
static uint8_t* const g_arena = mapAt(ARENA, ARENASIZE);
static size_t g_arenaTop = 0;
static void* g_freeList[128];
static int sizeClass(size_t n, size_t& cap) {
    if (n <= 1024) { int c = (int)((n + 15) / 16); cap = c * 16; return c; }
    int e = 63 - __builtin_clzll(n - 1); size_t step = 1ULL << (e - 1), base = 1ULL << e;        // two steps per doubling
    size_t k = (n - base + step - 1) / step; cap = base + k * step; return 65 + (e - 10) * 2 + (int)k - 1;
}
static void* arenaAlloc(size_t n, uint32_t& cls) {
    size_t cap; cls = sizeClass(n, cap); if (!g_arena || cls >= 128) { cls = 255; return malloc(n); }
    if (void* p = g_freeList[cls]) { g_freeList[cls] = *(void**)p; return p; }
    if (g_arenaTop + cap > ARENASIZE) { cls = 255; return malloc(n); }
    void* p = g_arena + g_arenaTop; g_arenaTop += cap; return p;
}
static void arenaFree(void* p, uint32_t cls) { if (cls == 255) free(p); else { *(void**)p = g_freeList[cls]; g_freeList[cls] = p; } }
static void* simAlloc(size_t n, size_t align, bool nothrow) {
    bool lib = t_lib && g_inProc;
    if (lib) {
        A.count++; int64_t c = TA.n++;
        if ((TA.failAt >= 0 && c >= TA.failAt && c < TA.failAt + TA.failRun) || (A.limitBytes >= 0 && A.liveBytes + (int64_t)n > A.limitBytes)) {
            A.injected++; TA.hits++; R->fired[F_ALLOC]++;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    size_t pad = 0;
    if (lib && A.padMode) pad = 16 * (mix64(A.count * 31 + A.padMode) % 24);
    if (align < 16) align = 16;
    size_t front = pad + sizeof(Hdr); front = (front + align - 1) / align * align;
    size_t total = front + n + 16; total = (total + align - 1) / align * align;
    uint32_t cls = 0; uint8_t* raw;
    if (lib) { raw = (uint8_t*)arenaAlloc(align > 16 ? total + align : total, cls); if (raw && align > 16) front = (((uintptr_t)raw + front + align - 1) & ~(uintptr_t)(align - 1)) - (uintptr_t)raw; }
    else raw = (uint8_t*)(align > 16 ? aligned_alloc(align, total) : malloc(total));
    if (!raw) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    Hdr* h = (Hdr*)(raw + front - sizeof(Hdr));
    h->magic = MAGIC; h->size = n; h->lib = lib ? 1 + cls : 0; h->pad = (uint32_t)front; h->seq = A.count;
    memset((uint8_t*)(h + 1) + n, 0xA5, 16);
    if (lib) {
        fill(h + 1, n);
        h->next = g_live.next; h->prev = &g_live; g_live.next->prev = h; g_live.next = h;
        A.liveBlocks++; A.liveBytes += n; if ((uint64_t)A.liveBytes > R->maxLive) R->maxLive = A.liveBytes;
    }
    return h + 1;
}
static void simFree(void* p) {
    if (!p) return;
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == DEAD) heapCorrupt("double free", h);
    if (h->magic != MAGIC) heapCorrupt("bad free", h);
    if (h->lib) {
        const uint8_t* t = (const uint8_t*)p + h->size;
        for (int i = 0; i < 16; i++) if (t[i] != 0xA5) heapCorrupt("write past the end of a heap block", h);
        h->prev->next = h->next; h->next->prev = h->prev; A.liveBlocks--; A.liveBytes -= h->size;
        if (A.fillMode != 4) memset(p, 0xDD, h->size);
    }
    h->magic = DEAD;
    uint8_t* raw = (uint8_t*)(h + 1) - h->pad;
    if (h->lib) { uint32_t c = h->lib - 1; arenaFree(raw, c); } else free(raw);
}

// ---------------------------------------------------------------- Entropy and clock
EnvCtl E = { 0, 1500000000LL * 1000000000LL, 1000, 0, 0, 0 };
static int64_t simNow() { E.clockReads++; E.clock += E.clockStep; R->fired[F_CLOCK_JUMP]++; return E.clock; }

// ---------------------------------------------------------------- Storage
FsCtl FS;
static const int FAKE = 100000;
struct Fd { bool used; int file; uint64_t pos; int flags; uint32_t lastWriteStart; bool dirty; };
static Fd fds[64];
static uint64_t nWrite, nRead, nOpen, nClose, nSeek, nStat;
static int g_escapes = 0;
int fsEscapes() { return g_escapes; }
void fsResetOrdinals() { nWrite = nRead = nOpen = nClose = nSeek = nStat = 0; }
uint64_t fsWrites() { return nWrite; }
static const unsigned long PASS = 0x51D0C0DEUL;

static int fileIndex(const char* key, bool create) {
    int freeI = -1;
    for (int i = 0; i < MAXFILES; i++) { if (files[i].used) { if (!strcmp(files[i].path, key)) return i; } else if (freeI < 0) freeI = i; }
    if (!create || freeI < 0) return -1;
    files[freeI].used = 1; files[freeI].size = 0; files[freeI].isDir = 0; snprintf(files[freeI].path, sizeof files[freeI].path, "%s", key); return freeI;
}
static void normPath(const char* p, char* out, size_t n) {
    if (!strncmp(p, "/sim/", 5)) p += 5;
    size_t o = 0;
    while (*p && o + 1 < n) {
        if (p[0] == '/' && (o == 0 || out[o - 1] == '/')) { p++; continue; }
        if ((o == 0 || out[o - 1] == '/') && p[0] == '.' && p[1] == '/') { p += 2; continue; }
        out[o++] = *p++;
    }
    while (o > 1 && out[o - 1] == '/') o--;
    out[o] = 0;
}
static bool inSim(const char* p) { return p[0] != '/' || !strncmp(p, "/sim/", 5); }
bool fsPut(const char* path, const void* data, size_t n) { char k[200]; normPath(path, k, sizeof k); int i = fileIndex(k, true); if (i < 0 || n > FILECAP) return false; if (n) memcpy(files[i].data, data, n); files[i].size = n; return true; }
bool fsGet(const char* path, std::string& out) { char k[200]; normPath(path, k, sizeof k); int i = fileIndex(k, false); if (i < 0 || files[i].isDir) return false; out.assign((char*)files[i].data, files[i].size); return true; }
void fsDel(const char* path) { char k[200]; normPath(path, k, sizeof k); int i = fileIndex(k, false); if (i >= 0) files[i].used = 0; }
void fsTruncate(const char* path, size_t n) { char k[200]; normPath(path, k, sizeof k); int i = fileIndex(k, false); if (i >= 0 && n < files[i].size) files[i].size = n; }

static int errOf(const std::string& s) {
    if (s == "ENOSPC") return ENOSPC; if (s == "EIO") return EIO; if (s == "EINTR") return EINTR; if (s == "EDQUOT") return EDQUOT;
    if (s == "EFBIG") return EFBIG; if (s == "EACCES") return EACCES; if (s == "EMFILE") return EMFILE; if (s == "ENOENT") return ENOENT;
    if (s == "EROFS") return EROFS; if (s == "ENOMEM") return ENOMEM; if (s == "EAGAIN") return EAGAIN; if (s == "ESTALE") return ESTALE; return EIO;
}
static FsFault* matchFault(const char* op, uint64_t ordinal) {
    for (auto& f : FS.faults) {
        // kind is "op:ERR"
        size_t c = f.kind.find(':'); if (f.kind.compare(0, c, op)) continue;
        if (f.sticky ? ordinal >= f.nth : ordinal == f.nth) return &f;
    }
    return nullptr;
}
static std::string faultErr(const FsFault* f) { return f->kind.substr(f->kind.find(':') + 1); }
static uint64_t diskUsed() { uint64_t t = 0; for (int i = 0; i < MAXFILES; i++) if (files[i].used) t += files[i].size; return t; }

static long sysWrite(Fd& fd, const uint8_t* b, size_t n) {
    uint64_t ord = nWrite++;
    SimFile& f = files[fd.file];
    if ((fd.flags & O_ACCMODE) == O_RDONLY) return -EBADF;
    size_t want = n;
    if (FsFault* ft = matchFault("write", ord)) {
        std::string e = faultErr(ft);
        if (e == "SHORT") { size_t m = ft->arg > 0 ? (size_t)ft->arg : 1; if (m < want) { want = m; fired(F_SHORT_WRITE); } }
        else { fired(e == "EINTR" ? F_EINTR_WRITE : (e == "EIO" ? F_EIO_WRITE : F_ENOSPC)); logEvent("fault write %s ord=%llu", e.c_str(), (unsigned long long)ord); return -errOf(e); }
    }
    if (FS.shortMax > 0 && want > (size_t)FS.shortMax) { want = FS.shortMax; fired(F_SHORT_WRITE); }
    uint64_t pos = (fd.flags & O_APPEND) ? f.size : fd.pos;
    if (FS.capacity >= 0 && pos + want > f.size) {
        uint64_t used = diskUsed(); uint64_t grow = pos + want - f.size;
        uint64_t room = used >= (uint64_t)FS.capacity ? 0 : FS.capacity - used;
        if (grow > room) { size_t m = (f.size + room > pos) ? f.size + room - pos : 0; fired(F_REDIR); if (m == 0 && want) { logEvent("fault disk full"); return -ENOSPC; } want = m; }
    }
    if (pos + want > f.cap) { if (pos >= f.cap) return -EFBIG; want = f.cap - pos; }
    if (g_crashMid && g_sys == g_crashSys + 1) want = want / 2;
    if (pos > f.size) memset(f.data + f.size, 0, pos - f.size);
    if (want) memcpy(f.data + pos, b, want);
    if (pos + want > f.size) f.size = pos + want;
    fd.lastWriteStart = pos; fd.dirty = true; fd.pos = pos + want;
    if (g_crashMid && g_sys == g_crashSys + 1) crashNow();
    return want;
}
static long sysRead(Fd& fd, uint8_t* b, size_t n) {
    uint64_t ord = nRead++;
    SimFile& f = files[fd.file];
    if (f.isDir) return -EISDIR;
    if ((fd.flags & O_ACCMODE) == O_WRONLY) return -EBADF;
    size_t want = fd.pos >= f.size ? 0 : f.size - fd.pos; if (want > n) want = n;
    if (FsFault* ft = matchFault("read", ord)) {
        std::string e = faultErr(ft);
        if (e == "SHORT") { size_t m = ft->arg > 0 ? (size_t)ft->arg : 1; if (m < want) { want = m; fired(F_SHORT_READ); } }
        else { fired(e == "EINTR" ? F_EINTR_READ : F_EIO_READ); logEvent("fault read %s ord=%llu", e.c_str(), (unsigned long long)ord); return -errOf(e); }
    }
    if (FS.shortMax > 0 && want > (size_t)FS.shortMax) { want = FS.shortMax; fired(F_SHORT_READ); }
    if (want) memcpy(b, f.data + fd.pos, want);
    fd.pos += want; return want;
}
static long sysOpen(const char* path, int flags) {
    uint64_t ord = nOpen++;
    char k[200]; normPath(path, k, sizeof k);
    if (FsFault* ft = matchFault("open", ord)) { fired(F_OPEN_FAIL); logEvent("fault open %s", faultErr(ft).c_str()); return -errOf(faultErr(ft)); }
    std::string ks = k; size_t sl = ks.rfind('/');
    if (sl != std::string::npos) { int d = fileIndex(ks.substr(0, sl).c_str(), false); if (d < 0) return -ENOENT; if (!files[d].isDir) return -ENOTDIR; }
    int i = fileIndex(k, false);
    if (i >= 0 && files[i].isDir && (flags & O_ACCMODE) != O_RDONLY) return -EISDIR;
    if (i >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
    if (i < 0) { if (!(flags & O_CREAT)) return -ENOENT; i = fileIndex(k, true); if (i < 0) return -ENOSPC; }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) files[i].size = 0;
    for (int j = 0; j < 64; j++) if (!fds[j].used) { fds[j] = Fd{true, i, 0, flags, 0, false}; return FAKE + j; }
    return -EMFILE;
}
static long sysClose(int j) {
    uint64_t ord = nClose++;
    if (!fds[j].used) return -EBADF;
    Fd fd = fds[j]; fds[j].used = false;
    if (FsFault* ft = matchFault("close", ord)) {
        fired(F_CLOSE_FAIL); std::string e = faultErr(ft);
        logEvent("fault close %s", e.c_str());
        // An error on close reports delayed write-back that failed: the tail is lost.
        if (fd.dirty && fd.lastWriteStart < files[fd.file].size) files[fd.file].size = fd.lastWriteStart;
        return -errOf(e);
    }
    return 0;
}
static void fillStat(struct stat* st, const SimFile& f) {
    memset(st, 0, sizeof *st); st->st_mode = f.isDir ? (S_IFDIR | 0755) : (S_IFREG | 0644); st->st_size = f.size; st->st_blksize = FS.blksize; st->st_nlink = 1; st->st_ino = 1 + (&f - files); st->st_blocks = (f.size + 511) / 512;
}
static long pathCall(long nr, const char* p, const char* p2, long a1, long a2) {
    char k[200], k2[200];
    normPath(p, k, sizeof k); int i = fileIndex(k, false);
    switch (nr) {
        case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: if (i < 0) return -ENOENT; files[i].used = 0; return 0;
        case SYS_mkdir: case SYS_mkdirat: if (i >= 0) return -EEXIST; i = fileIndex(k, true); if (i < 0) return -ENOSPC; files[i].isDir = 1; return 0;
        case SYS_rename: case SYS_renameat: case SYS_renameat2: {
            if (i < 0) return -ENOENT; normPath(p2, k2, sizeof k2);
            std::string ks = k2; size_t sl = ks.rfind('/');
            if (sl != std::string::npos) { int d = fileIndex(ks.substr(0, sl).c_str(), false); if (d < 0 || !files[d].isDir) return -ENOENT; }
            int j = fileIndex(k2, false); if (j == i) return 0; if (j >= 0) files[j].used = 0; snprintf(files[i].path, sizeof files[i].path, "%s", k2); return 0; }
        case SYS_truncate: if (i < 0) return -ENOENT; if ((uint64_t)a1 > FILECAP) return -EFBIG; if ((uint64_t)a1 > files[i].size) memset(files[i].data + files[i].size, 0, a1 - files[i].size); files[i].size = a1; return 0;
        case SYS_access: case SYS_faccessat: case 439: return i < 0 ? -ENOENT : 0;
        case SYS_stat: case SYS_lstat: case SYS_newfstatat: if (i < 0) return -ENOENT; fillStat((struct stat*)a2, files[i]); return 0;
        default: return -ENOSYS;
    }
}
static long handleSys(long nr, const greg_t* g) {
    long a0 = g[REG_RDI], a1 = g[REG_RSI], a2 = g[REG_RDX], a3 = g[REG_R10], a4 = g[REG_R8];
    // stdout / stderr of the code under test
    if ((nr == SYS_write || nr == SYS_writev) && (a0 == 1 || a0 == 2)) {
        auto put = [](const char* b, size_t n) { for (size_t i = 0; i < n && R->errlogLen + 1 < sizeof R->errlog; i++) R->errlog[R->errlogLen++] = b[i]; };
        if (nr == SYS_write) { put((const char*)a1, a2); return a2; }
        long t = 0; const struct iovec* v = (const struct iovec*)a1; for (long i = 0; i < a2; i++) { put((const char*)v[i].iov_base, v[i].iov_len); t += v[i].iov_len; } return t;
    }
    // path calls
    const char* path = nullptr; const char* path2 = nullptr; bool mod = true; long ext1 = 0, ext2 = 0; bool isOpen = false; int oflags = 0;
    switch (nr) {
        case SYS_open: path = (const char*)a0; oflags = a1; isOpen = true; break;
        case SYS_creat: path = (const char*)a0; oflags = O_CREAT | O_WRONLY | O_TRUNC; isOpen = true; break;
        case SYS_openat: path = (const char*)a1; oflags = a2; isOpen = true; break;
        case SYS_unlink: case SYS_rmdir: case SYS_mkdir: path = (const char*)a0; break;
        case SYS_unlinkat: case SYS_mkdirat: path = (const char*)a1; break;
        case SYS_rename: path = (const char*)a0; path2 = (const char*)a1; break;
        case SYS_renameat: case SYS_renameat2: path = (const char*)a1; path2 = (const char*)a3; break;
        case SYS_truncate: path = (const char*)a0; ext1 = a1; break;
        case SYS_access: path = (const char*)a0; mod = false; break;
        case SYS_faccessat: case 439: path = (const char*)a1; mod = false; break;
        case SYS_stat: case SYS_lstat: path = (const char*)a0; ext2 = a1; mod = false; break;
        case SYS_newfstatat:
            if (a0 >= FAKE && (!a1 || !*(const char*)a1)) { if (matchFault("stat", nStat++)) { fired(F_STAT_FAIL); return -EIO; } if (!fds[a0 - FAKE].used) return -EBADF; fillStat((struct stat*)a2, files[fds[a0 - FAKE].file]); return 0; }
            path = (const char*)a1; ext2 = a2; mod = false; break;
        case SYS_statx: path = (const char*)a1; mod = false; break;
        case SYS_readlink: path = (const char*)a0; mod = false; break;
        case SYS_readlinkat: path = (const char*)a1; mod = false; break;
        case SYS_link: case SYS_symlink: case SYS_chmod: case SYS_chown: case SYS_lchown: case SYS_mknod: case SYS_chroot: case SYS_mount: case SYS_chdir: g_escapes++; return -EROFS;
        case SYS_execve: case SYS_kill: g_escapes++; return -EPERM;
        default: break;
    }
    if (path || path2) {
        if (!path) return -EFAULT;
        if (!inSim(path) || (path2 && !inSim(path2))) {
            // Outside the simulated disk: reading is passed through, writing is refused.
            if (isOpen && (oflags & O_ACCMODE) == O_RDONLY && !(oflags & (O_CREAT | O_TRUNC))) { long r = syscall(SYS_openat, AT_FDCWD, path, oflags, 0, 0, PASS); return r < 0 ? -errno : r; }
            if (!mod && nr == SYS_access) { long r = syscall(SYS_access, path, a1, 0, 0, 0, PASS); return r < 0 ? -errno : r; }
            if (!mod && (nr == SYS_stat || nr == SYS_lstat)) { long r = syscall(nr, path, a1, 0, 0, 0, PASS); return r < 0 ? -errno : r; }
            if (!mod && nr == SYS_newfstatat) { long r = syscall(nr, a0, a1, a2, a3, 0, PASS); return r < 0 ? -errno : r; }
            if (!mod) return -ENOENT;
            g_escapes++; logEvent("refused modification outside the simulated disk"); return -EROFS;
        }
        if (isOpen || mod) { uint64_t me = g_sys++; if (me == g_crashSys && !(g_crashMid)) crashNow(); }
        if (isOpen) return sysOpen(path, oflags);
        return pathCall(nr, path, path2, ext1, ext2);
    }
    // descriptor calls on simulated files
    int j = (int)(a0 - FAKE); if (j < 0 || j >= 64) return -EBADF;
    if (!fds[j].used) return -EBADF;
    Fd& fd = fds[j];
    uint64_t me = g_sys++; if (me == g_crashSys && (!g_crashMid || (nr != SYS_write && nr != SYS_writev))) crashNow();
    switch (nr) {
        case SYS_write: return sysWrite(fd, (const uint8_t*)a1, a2);
        case SYS_read: return sysRead(fd, (uint8_t*)a1, a2);
        case SYS_writev: { const struct iovec* v = (const struct iovec*)a1; long t = 0; std::string all; for (long i = 0; i < a2; i++) all.append((const char*)v[i].iov_base, v[i].iov_len); t = sysWrite(fd, (const uint8_t*)all.data(), all.size()); return t; }
        case SYS_readv: { const struct iovec* v = (const struct iovec*)a1; long t = 0; for (long i = 0; i < a2; i++) { long r = sysRead(fd, (uint8_t*)v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
        case SYS_pread64: { uint64_t sv = fd.pos; fd.pos = a3; long r = sysRead(fd, (uint8_t*)a1, a2); fd.pos = sv; return r; }
        case SYS_pwrite64: { uint64_t sv = fd.pos; fd.pos = a3; long r = sysWrite(fd, (const uint8_t*)a1, a2); fd.pos = sv; return r; }
        case SYS_lseek: {
            if (FsFault* ft = matchFault("seek", nSeek++)) { fired(F_SEEK_FAIL); return -errOf(faultErr(ft)); }
            int64_t np = a2 == SEEK_SET ? a1 : a2 == SEEK_CUR ? (int64_t)fd.pos + a1 : (int64_t)files[fd.file].size + a1; if (np < 0) return -EINVAL; fd.pos = np; return np; }
        case SYS_fstat: if (matchFault("stat", nStat++)) { fired(F_STAT_FAIL); return -EIO; } fillStat((struct stat*)a1, files[fd.file]); return 0;
        case SYS_ftruncate: if ((uint64_t)a1 > FILECAP) return -EFBIG; if ((uint64_t)a1 > files[fd.file].size) memset(files[fd.file].data + files[fd.file].size, 0, a1 - files[fd.file].size); files[fd.file].size = a1; return 0;
        case SYS_fsync: case SYS_fdatasync: if (FsFault* ft = matchFault("fsync", 0)) { fired(F_EIO_WRITE); return -errOf(faultErr(ft)); } return 0;
        case SYS_close: return sysClose(j);
        case SYS_fcntl: if (a1 == F_GETFL) return fd.flags; return 0;
        case SYS_ioctl: return -ENOTTY;
        case SYS_fadvise64: case SYS_fchmod: return 0;
        default: (void)a4; return -ENOSYS;
    }
}
static void onSigsys(int, siginfo_t* si, void* uc_) {
    ucontext_t* uc = (ucontext_t*)uc_;
    int old = t_lib; t_lib = 0; int e = errno;
    uc->uc_mcontext.gregs[REG_RAX] = handleSys(si->si_syscall, uc->uc_mcontext.gregs);
    errno = e; t_lib = old;
}
static void installSeams() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSigsys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, 0);
    static std::vector<sock_filter> f; f.clear();
    auto S = [&](uint16_t c, uint32_t k) { f.push_back(sock_filter{c, 0, 0, k}); };
    auto J = [&](uint16_t c, uint32_t k, uint8_t jt, uint8_t jf) { f.push_back(sock_filter{c, jt, jf, k}); };
    const uint32_t NR = offsetof(seccomp_data, nr), ARG0 = offsetof(seccomp_data, args[0]), ARG4 = offsetof(seccomp_data, args[4]), ARG5 = offsetof(seccomp_data, args[5]);
    S(BPF_LD | BPF_W | BPF_ABS, NR);
    // descriptor calls: trap when the descriptor is simulated
    for (int nr : {SYS_read, SYS_readv, SYS_pread64, SYS_pwrite64, SYS_lseek, SYS_fstat, SYS_ftruncate, SYS_fsync, SYS_fdatasync, SYS_close, SYS_fcntl, SYS_ioctl, SYS_fadvise64, SYS_fchmod, SYS_dup, SYS_dup2, SYS_fallocate, SYS_getdents64, SYS_sendfile}) {
        J(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 4);
        S(BPF_LD | BPF_W | BPF_ABS, ARG0);
        J(BPF_JMP | BPF_JGE | BPF_K, FAKE, 0, 1);
        S(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
        S(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
        // falls here when not equal: A still holds nr
    }
    for (int nr : {SYS_write, SYS_writev}) {
        J(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 6);
        S(BPF_LD | BPF_W | BPF_ABS, ARG0);
        J(BPF_JMP | BPF_JGE | BPF_K, FAKE, 3, 0);
        J(BPF_JMP | BPF_JEQ | BPF_K, 1, 2, 0);
        J(BPF_JMP | BPF_JEQ | BPF_K, 2, 1, 0);
        S(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
        S(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    }
    // mapping a simulated file
    J(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 5);
    S(BPF_LD | BPF_W | BPF_ABS, ARG4);
    J(BPF_JMP | BPF_JGE | BPF_K, 0x80000000U, 1, 0);
    J(BPF_JMP | BPF_JGE | BPF_K, FAKE, 1, 0);
    S(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    S(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | ENODEV);
    // path calls: trap unless issued by the simulator itself
    for (int nr : {SYS_open, SYS_creat, SYS_openat, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_mkdir, SYS_mkdirat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_truncate, SYS_access, SYS_faccessat, 439, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx, SYS_readlink, SYS_readlinkat, SYS_link, SYS_symlink, SYS_chmod, SYS_chown, SYS_lchown, SYS_mknod, SYS_chroot, SYS_mount, SYS_chdir, SYS_execve, SYS_kill}) {
        J(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 4);
        S(BPF_LD | BPF_W | BPF_ABS, ARG5);
        J(BPF_JMP | BPF_JEQ | BPF_K, PASS, 1, 0);
        S(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
        S(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    }
    S(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    struct sock_fprog prog = { (unsigned short)f.size(), f.data() };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) { harnessError("cannot install the storage seam: %s", strerror(errno)); _exit(99); }
}

// ---------------------------------------------------------------- Processes
// Simulated processes run on a stack at a fixed address with defined contents.
static uint8_t* const STACKAT = (uint8_t*)0x210000000000ULL; static const size_t STACKSIZE = 8 << 20;
uint8_t* mapStack(int k, size_t n) { return mapAt(STACKAT + (size_t)k * (256ULL << 20), n); }
static const std::function<void()>* g_fn; static ucontext_t g_ctxMain, g_ctxProc;
static void procMain() {
    smearStack(0xA7);
    try { (*g_fn)(); } catch (const std::exception& e) { t_lib = 0; harnessError("exception escaped the harness: %s", e.what()); } catch (...) { t_lib = 0; harnessError("unknown exception escaped the harness"); }
}
static void onFixedStack(const std::function<void()>& fn) {
    g_fn = &fn; uint8_t* s = mapStack(0, STACKSIZE);
    if (!s) { harnessError("no memory for a stack"); return; }
    getcontext(&g_ctxProc); g_ctxProc.uc_stack.ss_sp = s; g_ctxProc.uc_stack.ss_size = STACKSIZE; g_ctxProc.uc_link = &g_ctxMain;
    makecontext(&g_ctxProc, procMain, 0); swapcontext(&g_ctxMain, &g_ctxProc);
}
ProcResult runProcess(const std::function<void()>& fn, uint64_t budget, int wall) {
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { harnessError("fork failed"); return {ProcResult::TIMEOUT, 0}; }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = wall; rl.rlim_max = wall + 2; setrlimit(RLIMIT_CPU, &rl);
        installSeams();
        g_inProc = true; g_steps = 0; g_sys = 0; g_stepBudget = budget; recompute();
        R->exitCalled = 0; g_prevPc = 0;
        onFixedStack(fn);
        t_lib = 0;
        if (badHeap()) fail("heap-corruption", "write past the end of a live heap block");
        if (g_escapes) fail("escape", "the library tried to modify something outside the files it was given");
        endRecord();
        syscall(SYS_exit_group, EX_RETURNED);
    }
    int st = 0; time_t dead = 0; (void)dead;
    // wall clock guard (a stuck process is a harness level event, reported as TIMEOUT)
    struct timespec t0; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
    int polls = 0;
    for (;;) {
        pid_t r = waitpid(pid, &st, polls < 1 ? 0 : WNOHANG);
        if (r == pid) break;
        if (r < 0 && errno == EINTR) {
            struct timespec t1; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
            if (t1.tv_sec - t0.tv_sec > wall) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return {ProcResult::TIMEOUT, 0}; }
            continue;
        }
        if (r < 0) return {ProcResult::TIMEOUT, 0};
    }
    if (WIFSIGNALED(st)) { int sg = WTERMSIG(st); if (sg == SIGXCPU || sg == SIGKILL) return {ProcResult::TIMEOUT, sg}; return {ProcResult::SIGNALLED, sg}; }
    int c = WEXITSTATUS(st);
    if (R->exitCalled) return {ProcResult::EXITED, c};
    if (c == EX_RETURNED) return {ProcResult::RETURNED, 0};
    if (c == EX_CRASH) return {ProcResult::CRASHED, 0};
    if (c == EX_BUDGET) return {ProcResult::TIMEOUT, -1};
    if (c == 203) return {ProcResult::SIGNALLED, 203};
    return {ProcResult::EXITED, c};
}

// ---------------------------------------------------------------- Scheduler
static int ftx(int* a, int op, int v) { return syscall(SYS_futex, a, op, v, 0, 0, 0); }
struct NodeT { int go; bool done; std::function<void()> fn; pthread_t th; };
static std::vector<NodeT>* g_nodes = nullptr; static int g_cur = -1; static int g_allDone = 0;
static Rng g_srng(1); static double g_gap = 1000; static bool g_explicit = false;
static std::vector<std::pair<uint64_t, int>> g_sw; static size_t g_swPos = 0;
static thread_local int t_self = -1;
int Sched::self() { return t_self; }
static void parkSelf(int me) { NodeT& n = (*g_nodes)[me]; while (__atomic_load_n(&n.go, __ATOMIC_ACQUIRE) == 0) ftx(&n.go, FUTEX_WAIT, 0); __atomic_store_n(&n.go, 0, __ATOMIC_RELEASE); }
static void wake(int to) { g_cur = to; NodeT& n = (*g_nodes)[to]; __atomic_store_n(&n.go, 1, __ATOMIC_RELEASE); ftx(&n.go, FUTEX_WAKE, 1); }
static void drawGap() {
    if (g_explicit) { g_nextSwitch = g_swPos < g_sw.size() ? g_sw[g_swPos].first : g_steps + 3000000; }
    else { double u = g_srng.uni(); uint64_t d = (uint64_t)(-g_gap * std::log(1 - u)) + 1; g_nextSwitch = g_steps + d; }
    recompute();
}
static void switchTo(int to) {
    int me = t_self;
    R->switches++; fired(F_SWITCH); R->schedHash = hashBytes(&g_prevPc, 8, R->schedHash + to);
    logHash(g_steps * 64 + to);
    if (R->nSw < 20000) { R->sw[R->nSw].step = g_steps; R->sw[R->nSw].to = to; R->nSw++; }
    int lib = t_lib; wake(to); parkSelf(me); t_lib = lib;
}
static int otherAlive(int me) { int n = g_nodes->size(); for (int k = 1; k < n; k++) { int c = (me + k) % n; if (!(*g_nodes)[c].done) return c; } return -1; }
static void schedSwitchPoint() {
    if (!g_nodes || t_self < 0) { g_nextSwitch = ~0ULL; recompute(); return; }
    int to = -1;
    if (g_explicit) { if (g_swPos < g_sw.size()) { to = g_sw[g_swPos++].second; if (to == t_self || to < 0 || to >= (int)g_nodes->size() || (*g_nodes)[to].done) to = -1; } else to = otherAlive(t_self); }
    else { std::vector<int> alive; for (int i = 0; i < (int)g_nodes->size(); i++) if (i != t_self && !(*g_nodes)[i].done) alive.push_back(i); if (!alive.empty()) to = alive[g_srng.below(alive.size())]; }
    drawGap();
    if (to >= 0) switchTo(to);
}
static void yieldNow() {   // the running node cannot proceed: give the baton away
    if (!g_nodes || t_self < 0) return;
    HarnessScope hs; int to = otherAlive(t_self); if (to >= 0) { fired(F_STALL); switchTo(to); }
}
static void* nodeMain(void* p) {
    int me = (int)(intptr_t)p; t_self = me; t_lib = 0; smearStack(g_stackByte); parkSelf(me);
    try { (*g_nodes)[me].fn(); } catch (const std::exception& e) { t_lib = 0; harnessError("exception escaped a node: %s", e.what()); }
    t_lib = 0; (*g_nodes)[me].done = true;
    int to = otherAlive(me);
    if (to >= 0) wake(to); else { __atomic_store_n(&g_allDone, 1, __ATOMIC_RELEASE); ftx(&g_allDone, FUTEX_WAKE, 1); }
    return nullptr;
}
void Sched::run(std::vector<std::function<void()>> fns, uint64_t seed, double gap, const std::vector<std::pair<uint64_t, int>>* ex) {
    static std::vector<NodeT> nodes; nodes.clear(); nodes.resize(fns.size());
    g_srng = Rng(seed); g_gap = gap; g_explicit = ex != nullptr; g_sw.clear(); if (ex) g_sw = *ex; g_swPos = 0; g_allDone = 0;
    for (size_t i = 0; i < fns.size(); i++) { nodes[i].go = 0; nodes[i].done = false; nodes[i].fn = fns[i]; }
    g_nodes = &nodes;
    for (size_t i = 0; i < fns.size(); i++) {
        pthread_attr_t at; pthread_attr_init(&at); uint8_t* s = mapStack(8 + (int)i, STACKSIZE); if (s) pthread_attr_setstack(&at, s, STACKSIZE);
        if (!s || pthread_create(&nodes[i].th, &at, nodeMain, (void*)(intptr_t)i)) { harnessError("pthread_create"); return; }
        pthread_attr_destroy(&at);
    }
    drawGap();
    wake(0);
    while (!__atomic_load_n(&g_allDone, __ATOMIC_ACQUIRE)) ftx(&g_allDone, FUTEX_WAIT, 0);
    for (auto& n : nodes) pthread_join(n.th, 0);
    for (size_t i = 0; i < fns.size(); i++) munmap(STACKAT + (8 + i) * (256ULL << 20), STACKSIZE);
    g_nodes = nullptr; g_nextSwitch = ~0ULL; recompute();
}

} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- Replaced runtime entry points
void* operator new(size_t n) { return simAlloc(n, 16, false); }
void* operator new[](size_t n) { return simAlloc(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simAlloc(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simAlloc(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return simAlloc(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return simAlloc(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return simAlloc(n, (size_t)a, true); }
void operator delete(void* p) noexcept { simFree(p); }
void operator delete[](void* p) noexcept { simFree(p); }
void operator delete(void* p, size_t) noexcept { simFree(p); }
void operator delete[](void* p, size_t) noexcept { simFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { simFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { simFree(p); }

namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
    E.draws++; R->fired[F_ENTROPY]++;
    if (E.entropyMode == 1) return 0; if (E.entropyMode == 2) return 0xffffffffu;
    return (random_device::result_type)mix64(E.entropySeed * 1000003 + E.draws);
}
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
}

extern "C" {
[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_exit(int code) {
    t_lib = 0;
    if (R && !R->exitCalled) { R->exitCalled = 1; R->exitCode = code; logEvent("exit(%d)", code); R->steps += g_steps; }
    if (badHeap()) fail("heap-corruption", "write past the end of a live heap block");
    __real_exit(code);
}
time_t time(time_t* t) { time_t v; if (t_lib) v = simNow() / 1000000000LL; else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec* ts) { if (t_lib) { int64_t n = simNow(); ts->tv_sec = n / 1000000000LL; ts->tv_nsec = n % 1000000000LL; return 0; } return syscall(SYS_clock_gettime, c, ts); }
int gettimeofday(struct timeval* tv, void*) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
clock_t clock(void) { if (t_lib) return simNow() / 1000; return 0; }

int pthread_mutex_lock(pthread_mutex_t* m) {
    int r; uint64_t spins = 0;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) { yieldNow(); if (++spins > 1000000) { if (g_inProc) { t_lib = 0; fail("deadlock", "a lock is never released"); syscall(SYS_exit_group, 203); } sched_yield(); } }
    return r;
}
int __cxa_guard_acquire(long long* gg) {
    uint8_t* g = (uint8_t*)gg;
    if (__atomic_load_n(&g[0], __ATOMIC_ACQUIRE)) return 0;
    while (g[1]) { yieldNow(); if (g[0]) return 0; }
    g[1] = 1; return 1;
}
void __cxa_guard_release(long long* gg) { uint8_t* g = (uint8_t*)gg; g[1] = 0; __atomic_store_n(&g[0], 1, __ATOMIC_RELEASE); }
void __cxa_guard_abort(long long* gg) { ((uint8_t*)gg)[1] = 0; }
}
