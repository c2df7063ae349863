#include "sim.h"
#define S(id, about) extern void scn_##id(void);
#include "scenarios.def"
#undef S
scenario_t scenarios[] = {
#define S(id, about) { #id, scn_##id, about },
#include "scenarios.def"
#undef S
    { NULL, NULL, NULL }
};
