/* Bounded exhaustive exploration runtime shared by all harnesses.
 *
 *  - MC_CASE(...)  one member of the finite case family; cases are dealt round
 *                  robin to the shards, so a shard explores a fixed subset.
 *  - mc_explore(f) stateless depth-first enumeration of every sequence of
 *                  mc_choose() answers of f (replay based).
 *  - mc_state()    explicit-state bookkeeping: hashes visited states.
 *  - MC_CHECK()    the oracle; a failure is recorded with its operation trace
 *                  and the exploration goes on with the next execution.
 */
#ifndef MC_H
#define MC_H
#include <setjmp.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned char u8;

extern int mc_thorough;             /* tier */
extern long mc_n_states, mc_n_trans, mc_n_execs;
extern sigjmp_buf mc_jb;

void mc_init(int argc, char **argv);
int mc_finish(void);
void mc_alive(void);                /* re-arm the hang detector */

int mc_case_start(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_case_end(void);
#define MC_CASE(...) \
    for (int mc_go_ = mc_case_start(__VA_ARGS__); mc_go_; mc_go_ = (mc_case_end(), 0)) \
        if (sigsetjmp(mc_jb, 0) == 0)

int mc_choose(int n);
long mc_explore(void (*f)(void *), void *arg);

void mc_reset_trace(void);
void mc_op(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
size_t mc_trace_mark(void);
void mc_trace_cut(size_t mark);

/* record a failure; mc_fail ends the current execution, mc_note_fail does not */
void mc_fail(const char *sig, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void mc_note_fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define MC_CHECK(c, sig, ...) do { if (!(c)) mc_fail(sig, __VA_ARGS__); } while (0)
/* runs f in a forked copy of the process; its failures and crashes are this process's */
void mc_isolate(void (*f)(void *), void *arg);
const char *mc_fmt(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
const char *mc_hex(const void *p, size_t n);

/* explicit state set of the current case: 1 if new */
int mc_state(const void *p, size_t n);
void mc_states_reset(void);
uint64_t mc_hash(const void *p, size_t n, uint64_t seed);
/* memo table for reference values: *new is set when the n-byte slot for the key was just made */
u8 *mc_memo(const void *key, size_t klen, size_t n, int *new);
#define mc_trans(n) (mc_n_trans += (n))
void mc_count(const char *name, long n);       /* coverage counter, summed */
void mc_outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* set of distinct outcomes */
void mc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_internal(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2))); /* harness error */
#endif
