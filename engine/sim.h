// interface between the engine (sim.c) and the rank library (driver.c)
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
typedef struct { char* p; size_t len, cap; } OutBuf;

typedef struct {
    // per-rank traffic counters, updated by the simulated MPI
    unsigned long sends, recvs, isends, irecvs, reduces;
    unsigned long elemSend, elemRecv, elemReduce, byteSend, byteRecv, byteReduce;
    unsigned long hash;   // hash over the sequence of MPI calls (type, peer, tag, count)
} SimStat;

typedef struct {
    int rank, size;            // of this rank in the simulated world
    SimStat* stat;
    OutBuf* out;               // observations
    void (*yield)(void);       // let another rank run
} DrvEnv;

// exported by the rank library
typedef int (*drv_run_t)(DrvEnv* env, const char* script);

void ob_add(OutBuf* b, const char* fmt, ...) __attribute__((format(printf,2,3)));
#endif
