#ifndef RESULT_H
#define RESULT_H
#include "sim.h"
#define MAXCHOICES (1u << 21)
#define MAXPROBES 96
typedef struct {
    int status;                 /* 0 not finished, 1 ok, 2 violation, 3 simulator error */
    int in_node; uint64_t in_hash;   /* node whose code is running (1, 2), and the trace hash when it began */
    char kind[64];
    char msg[2048];
    uint64_t hash;
    int64_t simtime;
    uint64_t nevents;
    uint64_t faults[F_NKINDS];
    int nprobes; char probe_name[MAXPROBES][40]; uint64_t probe_n[MAXPROBES];
    int nontrivial; char sample[400];
    uint32_t nchoices;
    uint32_t choices[MAXCHOICES];
} result_t;
extern result_t *result;
typedef struct {
    unsigned char edges[65536];
    unsigned char states[1 << 19];   /* bitmap of abstract state signatures, 4M bits */
} covmap_t;
extern covmap_t *cov;
void core_begin(uint64_t seed, const uint32_t *replay, uint32_t nreplay);
void core_install_handlers(void);
#endif
