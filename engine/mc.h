/* Explicit-state model checker that runs on the real library code. See mc.c. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

typedef struct Sys
{
	const char *name;
	size_t host_size;                       /* bytes of host (model) state            */
	void (*init)(void);                     /* create container(s) and model          */
	int (*ops)(uint32_t *out);              /* enabled operations in current state    */
	void (*apply)(uint32_t op);             /* run one operation on code and model    */
	void (*observe)(void);                  /* compare every query with the model     */
	void (*finish)(void);                   /* destroy everything, final checks       */
	void (*describe)(uint32_t op, char *buf, size_t n);
	void (*abstract)(void);                 /* optional: mc_mix() what identifies a state (abs=1) */
} Sys;

#define MC_MAX_OPS 4096

extern void *mc_host;                       /* host state, part of every snapshot     */
extern bool mc_passthrough;                 /* sweeps: library memory from real malloc */
void mc_mix(uint64_t v);
extern uint64_t mc_cnt_checks;              /* single comparisons made                */
extern uint64_t mc_progress;
extern const char *mc_phase;

/* harness-owned objects living in the arena (tokens, caller-provided structs) */
void *h_alloc(size_t n, int kind);
void h_free(void *p);
enum { CH_LIB = 1, CH_HOST = 2, CH_POOL = 3, CH_AUX = 4 /* bookkeeping, not part of a state */ };
int mc_chunk_kind(const void *p);           /* 0 when p is not the start of a live chunk */
size_t mc_chunk_size(const void *p);
void *mc_user_malloc(size_t n);             /* a block the library may resize or release */
size_t mc_lib_bytes(void);                  /* sweeps: bytes in these blocks           */
size_t mc_lib_live(void);                   /* blocks the library holds               */
size_t mc_lib_allocs(void);                 /* allocations made by library since op begin */
bool mc_readable(const void *p, size_t n);  /* whole range addressable                */
void mc_poison(const void *p, size_t n);
void mc_unpoison(const void *p, size_t n);

/* environment hooks */
extern long (*mc_read_hook)(int fd, void *buf, size_t n);
extern bool mc_alias_bug;

void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
#define CHECK(c, ...) do { ++mc_cnt_checks; if(!(c)) mc_fail(__VA_ARGS__); } while(0)

/* sweeps: call around each case so that a failure names it */
void sw_case(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern uint64_t sw_cases, sw_steps;
void sw_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool sw_selected(void);                     /* false when a shard/replay skips this case */

/* option access: key=value arguments */
long opt(const char *key, long dflt);
const char *opts(const char *key, const char *dflt);

typedef struct Harness
{
	const char *name;
	Sys *(*bfs)(void);                      /* NULL when only a sweep */
	void (*sweep)(void);
} Harness;
extern const Harness *harnesses[];
#endif
