// Execution of operation histories: faults, crashes and restarts, observers, context switches, and the
// checkers that judge every operation.
#ifndef SIM_HIST_H
#define SIM_HIST_H
#include "props.h"
namespace sim {
struct Checker {
    virtual ~Checker() {}
    virtual void before(App&, const Line&) {}
    // called after every attempt of an operation; st tells how it ended
    virtual void after(App&, const Line&, const Outcome&) {}
    virtual void end(std::vector<App*>&) {}
};
struct Rec { int line, st; uint64_t dig, evo; double ret, dt; uint32_t steps, allocs, sys, hits; };
enum { MAXREC = 1500 };
struct Slot { uint32_t n; int done, skipped; Rec r[MAXREC]; };
Slot* slot(int variant, int node);          // survives the simulated process
const Rec* findRec(const Slot* s, int line);

struct ExecOpt {
    int variant = 0;              // where the records go
    bool faults = true;           // honour "fault" lines
    bool observers = true;        // honour operations marked obs=1
    bool leak = false;            // everything must be released at the end
    bool crash = false; int restartLine = -1;
    const Slot* ref = nullptr;    // profile for faults placed by fraction
    int knobSet = 0;              // which set of environment knobs
    std::vector<int> nodes;       // empty: all
    bool interleave = false;
    std::vector<Checker*>* checkers = nullptr;
    std::function<void(std::vector<App*>&)> atEnd;
};
void armKnobs(const Plan& p, int set);
std::vector<int> planNodes(const Plan& p);
ProcResult runHistory(const Plan& p, const ExecOpt& o, const char* where);    // forks a simulated process
// an exit during the run that the library had no reason for is a violation; true: the run ended early but legitimately
bool judgeEnd(const ProcResult& r, const char* where);
void genFaults(Plan& p, Rng& r, double perOp, double maxRun = 3);
void judgeFinite(App& a, const char* op);
}
#endif
