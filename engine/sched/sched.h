/* Controlled scheduler: stateless exploration of the real code with fibres. See sched.c. */
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MAXT 6                     /* fibres; index MAXT is the main context */

enum { ACC_SYNC = 0, ACC_ALL = 1 };

typedef struct Cfg
{
	int pb;                    /* preemption bound, -1: none          */
	int spur;                  /* spurious wake-ups per execution     */
	bool eager;                /* clock may advance at any point      */
	bool access;               /* scheduling points at every access   */
	bool races;                /* report data races                   */
	bool count;                /* count memory accesses, nothing else */
	int64_t clock0;            /* initial CLOCK_REALTIME, ns          */
	int efail;                 /* error codes tried for one failing primitive, 0: none fails */
	uint64_t cap;              /* executions per exploration, 0: none */
} Cfg;
extern Cfg cfg;

extern uint64_t n_touch, n_exec, n_points, n_accesses, n_capped, n_switch, n_skipped;
extern int nfib;
extern int cur;                    /* running fibre, MAXT: main context   */
extern bool in_lib;
extern int a_fill;
int live_sync_objects(void);
enum { I_NONE, I_MINIT, I_CINIT, I_LOCK, I_UNLOCK, I_WAIT, I_SIGNAL, I_BCAST };
extern int inj_by, inj_kind;                /* thread whose call failed, -1: none; which one   */
extern uint64_t n_inj, n_stopped;
const char *inj_name(void);
extern bool held_points;
bool mutex_held(void);                      /* by the running thread */

void fib_start(void (*fn)(int id));         /* create a fibre for the next execution   */
bool explore(void (*setup)(void), void (*finish)(bool all_done), void (*quiet)(void));
void replay(const char *trace, void (*setup)(void), void (*finish)(bool all_done), void (*quiet)(void));

void point(void);                           /* scheduling point                        */
void fib_sleep(int64_t ns);
int64_t now_ns(void);
bool fib_done(int id);
bool fib_blocked(int id);                   /* waits on a condition variable           */
bool fib_stuck(int id);                     /* cannot run for another reason           */
void *a_alloc(size_t n);                    /* arena memory of the harness             */
uint64_t stamp(void);

extern char prog_text[256];
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
extern void (*history_cb)(char *buf, size_t n);

long opt(const char *key, long dflt);
const char *opts(const char *key, const char *dflt);

int s_aq(const char *mode);
int s_iso(const char *mode);
int s_rd(const char *mode);
int s_cost(const char *mode);
void core_reset(void);
void core_stat(void);
#endif
