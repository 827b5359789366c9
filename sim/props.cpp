#include "props.h"
namespace sim {
const Prop props[] = {
    {"C01", genC01, execC01},
    {"C02", genC02, execC02},
    {"C03", genC03, execC03},
    {"C04", genC04, execC04},
    {"C05", genC05, execC05},
    {"C06", genC06, execC06},
    {"C07", genC07, execC07},
    {"C08", genC08, execC08},
    {"C09", genC09, execC09},
    {"C10", genC10, execC10},
    {"C11", genC11, execC11},
    {"C12", genC12, execC12},
    {"C13", genC13, execC13},
    {"C14", genC14, execC14},
    {"C15", genC15, execC15},
    {"C16", genC16, execC16},
    {"C17", genC17, execC17},
    {"C18", genC18, execC18},
    {"C19", genC19, execC19},
    {"C21", genC21, execC21},
    {"C22", genC22, execC22},
    {"C23", genC23, execC23},
};
const int nProps = sizeof props / sizeof props[0];
}
