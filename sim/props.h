#ifndef SIM_PROPS_H
#define SIM_PROPS_H
#include "app.h"
namespace sim {
struct Prop { const char* id; Plan (*gen)(uint64_t seed, int tier); void (*exec)(const Plan&); };
extern const Prop props[]; extern const int nProps;
// common oracle: what a process is allowed to end like
bool endedBadly(const ProcResult& r, const char* where);   // records a violation for signals / hangs
Plan genC01(uint64_t, int); void execC01(const Plan&);
Plan genC02(uint64_t, int); void execC02(const Plan&);
Plan genC03(uint64_t, int); void execC03(const Plan&);
Plan genC04(uint64_t, int); void execC04(const Plan&);
Plan genC05(uint64_t, int); void execC05(const Plan&);
Plan genC06(uint64_t, int); void execC06(const Plan&);
Plan genC07(uint64_t, int); void execC07(const Plan&);
Plan genC08(uint64_t, int); void execC08(const Plan&);
Plan genC09(uint64_t, int); void execC09(const Plan&);
Plan genC10(uint64_t, int); void execC10(const Plan&);
Plan genC11(uint64_t, int); void execC11(const Plan&);
Plan genC12(uint64_t, int); void execC12(const Plan&);
Plan genC13(uint64_t, int); void execC13(const Plan&);
Plan genC14(uint64_t, int); void execC14(const Plan&);
Plan genC15(uint64_t, int); void execC15(const Plan&);
Plan genC16(uint64_t, int); void execC16(const Plan&);
Plan genC17(uint64_t, int); void execC17(const Plan&);
Plan genC19(uint64_t, int); void execC19(const Plan&);
Plan genC18(uint64_t, int); void execC18(const Plan&);
Plan genC21(uint64_t, int); void execC21(const Plan&);
Plan genC23(uint64_t, int); void execC23(const Plan&);
Plan genC22(uint64_t, int); void execC22(const Plan&);
}
#endif
