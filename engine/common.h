#ifndef COMMON_H
#define COMMON_H
#include "mc.h"
#include "datatypes.h"

/* what a check judges (several may be on) */
enum
{
	F_FUNC = 1,   /* answers equal the reference model          */
	F_OWN  = 2,   /* release callbacks exactly as specified     */
	F_MEM  = 4,   /* every block given back                     */
	F_BAL  = 8,   /* comparison cost / tree shape               */
	F_ITER = 16,  /* iterator life cycles                       */
	F_POOL = 32   /* node pool accounting                       */
};
extern int flags;
void parse_flags(void);

/* objects handed to the library */
#define TOK_MAGIC 0x70c370c370c3ULL
#define TOK_DEAD  0xdeadULL
enum { T_KEY = 1, T_VAL = 2 };
typedef struct
{
	uint64_t magic;
	int64_t label;
	uint64_t kind;
} Tok;

Tok *tok_new(int kind, int64_t label);
void tok_drop(Tok *t);                 /* harness disposes of it            */
void tok_check(const void *p, const char *who);

/* release events of the current operation */
void ev_reset(void);
void ev_expect(Tok *t);                /* library must release it           */
void ev_verify(void);                  /* compare (F_OWN) and forget        */
void nest_run(int k, void (*a)(void), void (*b)(void));
void cb_free_key(void *p);
void cb_free_val(void *p);
int32_t cb_compare(const void *a, const void *b);
bool cb_equal(const void *a, const void *b);
extern uint64_t cmp_calls;
extern void (*cb_hook)(const char *which); /* called at every callback */

/* recording pool */
typedef struct RecPool
{
	Pool base;
	Pool *inner;
	size_t item_size;
	uint32_t live, cap;
	void **item;
} RecPool;
RecPool *rec_pool_new(int mode, size_t item_size, uint32_t cap); /* 1 recording, 2.. library pool inside */
void rec_pool_destroy(RecPool *p);

/* permutations of 0..n-1 used as insertion / removal orders */
#define NPERM 9
void perm(int which, int n, int *out);
const char *perm_name(int which);
#endif
