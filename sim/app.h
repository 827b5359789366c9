// A client application of the library: the optimisation loop of the demos,
// broken into single operations so that faults, crashes, observers and context
// switches can be placed between (and inside) them.
#ifndef SIM_APP_H
#define SIM_APP_H
#include "core.h"
#include <memory>
#include "Boundary.h"
#include "Common.h"
#include "FastMarchingMethod.h"
#include "Hole.h"
#include "InputOutput.h"
#include "LevelSet.h"
#include "MersenneTwister.h"
#include "stub/nlopt.hpp"
#include "Optimise.h"
#include "Mesh.h"
#include "Sensitivity.h"

namespace sim {

struct Cfg {
    int w = 12, h = 12, bw = 6, init = 1; double ml = 0.5; bool fixed = false;
    std::vector<slsm::Hole> holes, tholes;
    std::vector<slsm::Coord> pts, tpts;
    bool hasTarget() const { return init >= 3; }
};
Cfg readCfg(const Plan& p, int node);

enum Status { ST_OK, ST_SKIP, ST_BADALLOC, ST_EXC };
struct Outcome { Status st = ST_SKIP; double ret = 0; };

class App {
public:
    explicit App(int node_ = 0) : node(node_) {}
    int node;
    Cfg cfg, nextCfg;             // nextCfg: what "rebuild" constructs
    std::unique_ptr<slsm::LevelSet> ls;
    std::unique_ptr<slsm::Boundary> b;
    std::unique_ptr<slsm::MersenneTwister> rng;
    slsm::InputOutput io;
    // what the application knows about the freshness of derived data
    bool boundaryFresh = false, velFresh = false, gradFresh = false, areaFresh = false, targetBoundary = false, normalsFresh = false;
    bool bandStale = false;       // the level set was replaced and has not been reinitialised yet
    double lastDt = -1;
    double usedDt = 0;            // the time step of the last update
    // records of the last operation, for the checkers
    struct SensCall { int point; double x, y, f; bool clean; };
    std::vector<SensCall> sensCalls; std::vector<std::pair<int, double>> sensOut; bool sensThrew = false;
    struct OptRec { bool ran = false, oom = false, isMax = false; unsigned nc = 0; std::vector<bool> eq; std::vector<double> cd, lambdas; double dt = 0, ret = 0, maxDisp = 0, l0 = 0; std::vector<double> vel; } opt;
    std::unique_ptr<slsm::Optimise> optObj;
    std::vector<double> fmmA, fmmB, fmmIn, fmmV, fmmVA, fmmVB, fmmSA; std::vector<double> draws, perims;
    int ckpts = 0;
    std::vector<std::unique_ptr<slsm::LevelSet>> kept;      // earlier simulations, still in memory
    struct Lookup { double x, y; unsigned elem, elem2, node, node2; }; std::vector<Lookup> lookups;
    std::unique_ptr<slsm::Boundary> ob;      // the observers' own boundary
    double simTime = 0;
    bool dead = false;            // the structure vanished: nothing left to simulate
    Status build(const Cfg& c);
    Outcome apply(const Line& op);
    Outcome observe(const Line& op);
    bool degenerate() const;      // no interface left
    uint64_t digest() const;      // everything observable
    uint64_t digestSd() const;
    uint64_t digestEvolution() const;   // what the evolution depends on / produces
    // exact front motion (C21) and descent (C22)
    std::vector<double> flowV;    // mode, speed or ux/uy or omega/cx/cy of the last prescribed velocity
    double goal = 0; std::vector<double> lam, targetArea; int descents = 0;
    void assignVelocities(const Line& op, double dt);
    void prepareDerived() { boundaryFresh = velFresh = gradFresh = areaFresh = false; }
};

// the shapes an application draws itself: exact signed distance, positive inside
struct Shape { int kind = 0; double x = 0, y = 0, a = 1, b = 1, ph = 0; double d(double px, double py) const; };
std::vector<Shape> readShapes(const Line& l);
double shapesDistance(const std::vector<Shape>& s, bool material, double x, double y);
uint64_t digestBoundary(const slsm::Boundary& b, uint64_t h);
uint64_t digestMeshFlags(const slsm::LevelSet& ls, uint64_t h);
uint64_t hashDoubles(const std::vector<double>& v, uint64_t h);

// ---- plan generation helpers
struct GenOpt {
    int minW = 4, maxW = 20; double pFixed = 0.2, pMask = 0.3, pLattice = 0.15, pPoints = 0.2, pTarget = 0.15, pDomainHoles = 0.3, pSwiss = 0.02, pNarrow = 0, pBig = 0.012, pWide = 0.008, pHuge = 0; int bigW = 70, swissMax = 112;
    bool smallMove = false;
};
void genCfg(Plan& p, Rng& r, int node, const GenOpt& o);
struct HistOpt { int minSteps = 1, maxSteps = 6; double pNoise = 0.4, pReinit = 0.3, pNormals = 0.3, pMaskMid = 0.05, pArea = 0.7, pIto = 0.1; bool mask = true; };
void genHistory(Plan& p, Rng& r, int node, const HistOpt& o, const GenOpt& g);
struct SimOpt {
    GenOpt g;
    int minSteps = 1, maxSteps = 6;
    double slow = 1, pNoise = 0.4, pReinit = 0.3, pNormals = 0.3, pArea = 0.6, pIto = 0.1, pMaskMid = 0.06, pOptimise = 0.25, pSens = 0.1, pPerim = 0.1,
           pTargetDisc = 0.5, pSave = 0.05, pFmm = 0.1, pDraw = 0.1, pSmear = 0.1, pCkpt = 0, pThrow = 0.3, pReseed = 0.1, pLoad = 0, pGrow = 0.25, pField = 0.1, pChurn = 0.02;
    bool solverFaults = true; bool finalFull = false;
};
void genSim(Plan& p, Rng& r, int node, const SimOpt& o);
void maybeLong(SimOpt& o, Rng& r, double prob);     // now and then a long history on a small mesh
void genKnobs(Plan& p, Rng& r);
uint64_t seedValue(Rng& r);
Line& addOp(Plan& p, int node, const char* what);
void genMask(Plan& p, Rng& r, int node, int w, int h);

} // namespace sim
#endif
