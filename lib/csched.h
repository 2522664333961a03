/* Controlled scheduler: threads of the process run one at a time; the explorer decides at which
 * access to shared data, or call with a shared object, the running one is preempted. */
#ifndef SCHED_H
#define SCHED_H
#include "mc.h"
#include <stdio.h>
#define SC_MAXT 3
#define SC_MAXPT 4000
#define SC_MAXPRE 4
typedef struct { int n; struct { int at, to; } p[SC_MAXPRE]; int first; } plan;
typedef struct {            /* filled by a run, shared with the explorer */
    int npoints; u8 run[SC_MAXPT];      /* at each point: which others could run */
    int fresh;              /* code reached shared data that was not a point yet */
    int infeasible, deadlock;
    long live, switches;
    void *where[SC_MAXPRE];
} runres;
void sc_init(void);                     /* before the first allocation of the library */
/* in a forked copy: runs f[i](arg[i]) for all i under the plan; learn: extend the set of points */
void sc_run(int nt, void (**f)(void *), void **arg, const plan *p, int cap, runres *r);
const char *sc_where(const runres *r, int i);    /* the i-th preemption's place in the source */
void sc_forget(void);                   /* forget the points (a new scenario) */
void sc_merge(void);                    /* points found by the last run are in force from now on */
int sc_npcs(void);
void sc_dump(FILE *f);       /* the points, for people */
long sc_live(void);                     /* blocks allocated and not freed */
extern void (*sc_switch)(int from, int to);     /* called when the running thread changes; -1: none */
#endif
