/*
 * Stateless model checker for code that uses pthread mutexes, condition variables and clocks.
 *
 * The library is compiled with -fsanitize=thread, but the __tsan_* runtime is this file; pthread, clock and
 * allocation functions are redirected here (ld --wrap). Threads are fibres. Every choice - which thread runs
 * next, which waiter a signal wakes, spurious wake-ups, time-outs, passing of time - is taken from a recorded path
 * that is advanced depth-first until all paths within the bounds have been executed.
 *
 * Happens-before (vector clocks) over mutexes, atomics, thread start and join decides data races on every
 * executed schedule. Time is virtual.
 */
#define _GNU_SOURCE
#include "sched.h"
#include <stdarg.h>
#include <link.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <setjmp.h>

Cfg cfg;
uint64_t n_touch, n_exec, n_points, n_accesses, n_capped, n_switch;
int nfib;
int cur = MAXT;
char prog_text[256];
void (*history_cb)(char *, size_t);

/* ---------------------------------------------------------------- options */
static int g_argc;
static char **g_argv;

const char *
opts(const char *key, const char *dflt)
{
	size_t n = strlen(key);

	for(int i = 3; i < g_argc; ++i)
	{
		if(!strncmp(g_argv[i], key, n) && g_argv[i][n] == '=')
		{
			return g_argv[i] + n + 1;
		}
	}

	return dflt;
}

long
opt(const char *key, long dflt)
{
	const char *s = opts(key, NULL);

	return s ? strtol(s, NULL, 0) : dflt;
}

/* ---------------------------------------------------------------- path of choices */
#define MAXPATH 200000
static struct { uint16_t n, c; } path[MAXPATH];
static int plen, pos;
static bool replaying, diverged;

static int
choose(int n)
{
	if(n <= 1)
	{
		return 0;
	}

	if(pos < plen)
	{
		if(path[pos].n == 0)
		{
			path[pos].n = n; /* replay from text */

			if(path[pos].c >= n)
			{
				diverged = true;
				path[pos].c = 0;
			}
		}
		else if(path[pos].n != n)
		{
			fprintf(stdout, "{\"error\":\"divergence at choice %d: %d instead of %d alternatives\"}\n", pos, n, path[pos].n);
			fflush(stdout);
			_Exit(3);
		}

		return path[pos++].c;
	}

	if(pos >= MAXPATH)
	{
		fail("an execution does not come to an end");
	}

	path[pos].n = n;
	path[pos].c = 0;
	plen = ++pos;

	return 0;
}

static bool
path_next(void)
{
	while(plen > 0 && path[plen - 1].c + 1 >= path[plen - 1].n)
	{
		--plen;
	}

	if(!plen)
	{
		return false;
	}

	++path[plen - 1].c;

	return true;
}

/* ---------------------------------------------------------------- reporting */
static void
jput(const char *s)
{
	for(; *s; ++s)
	{
		if(*s == '"' || *s == '\\')
		{
			putchar('\\');
		}

		if((unsigned char)*s < 32)
		{
			putchar(' ');
		}
		else
		{
			putchar(*s);
		}
	}
}

void
fail(const char *fmt, ...)
{
	char msg[512], hist[8192] = "";
	va_list ap;

	va_start(ap, fmt);
	vsnprintf(msg, sizeof msg, fmt, ap);
	va_end(ap);

	if(history_cb)
	{
		history_cb(hist, sizeof hist);
	}

	printf("{\"violation\":\"");
	jput(msg);
	printf("\",\"prog\":\"");
	jput(prog_text);
	printf("\",\"trace\":\"");

	int last = 0;

	for(int i = 0; i < pos && i < plen; ++i)
	{
		if(path[i].c)
		{
			last = i + 1;
		}
	}

	for(int i = 0; i < last; ++i)
	{
		printf("%s%u", i ? "." : "", path[i].c);
	}

	printf("\",\"history\":\"");
	jput(hist);
	printf("\"}\n");
	fflush(stdout);
	_Exit(1);
}

/* ---------------------------------------------------------------- library data, TLS */
typedef struct { uint8_t *p; size_t n; uint8_t *save; } Seg;
static Seg seg[8];
static int nseg;
static Seg tls;

static int
phdr_cb(struct dl_phdr_info *i, size_t sz, void *u)
{
	(void)sz;
	(void)u;

	const char *b = strrchr(i->dlpi_name, '/');

	b = b ? b + 1 : i->dlpi_name;

	if(strncmp(b, "libdt", 5))
	{
		return 0;
	}

	uintptr_t ro = 0, roe = 0;

	for(int k = 0; k < i->dlpi_phnum; ++k)
	{
		const ElfW(Phdr) *h = &i->dlpi_phdr[k];

		if(h->p_type == PT_GNU_RELRO)
		{
			ro = i->dlpi_addr + h->p_vaddr;
			roe = (ro + h->p_memsz + 4095) & ~4095UL;
		}
	}

	for(int k = 0; k < i->dlpi_phnum; ++k)
	{
		const ElfW(Phdr) *h = &i->dlpi_phdr[k];

		if(h->p_type == PT_LOAD && (h->p_flags & PF_W))
		{
			uintptr_t a = i->dlpi_addr + h->p_vaddr, e = a + h->p_memsz;

			if(ro && a < roe && ro <= a)
			{
				a = roe < e ? roe : e;
			}

			if(e > a)
			{
				seg[nseg++] = (Seg){ (uint8_t *)a, e - a, malloc(e - a) };
			}
		}

		if(h->p_type == PT_TLS && i->dlpi_tls_data && h->p_memsz)
		{
			tls = (Seg){ i->dlpi_tls_data, h->p_memsz, malloc(h->p_memsz) };
		}
	}

	return 0;
}

/* ---------------------------------------------------------------- vector clocks, shadow memory */
#define NC (MAXT + 1)
typedef struct { uint32_t c[NC]; } VC;
static VC vc[NC];

static void vc_join(VC *a, const VC *b) { for(int i = 0; i < NC; ++i) if(b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

typedef struct
{
	uint32_t stamp;
	uint8_t wt, freed;
	uint32_t wc;
	uint32_t r[NC], a[NC];
} Cell;

#define ARENA (32UL << 20)
static uint8_t *arena;
static size_t top;
static Cell *ashadow, *dshadow[8];
static uint32_t exec_stamp;
static int quiet_hooks;

static Cell *
cell_of(const void *p)
{
	const uint8_t *b = p;
	Cell *c;

	if(b >= arena && b < arena + ARENA)
	{
		c = &ashadow[b - arena];
	}
	else
	{
		c = NULL;

		for(int i = 0; i < nseg; ++i)
		{
			if(b >= seg[i].p && b < seg[i].p + seg[i].n)
			{
				c = &dshadow[i][b - seg[i].p];
				break;
			}
		}

		if(!c)
		{
			return NULL;
		}
	}

	if(c->stamp != exec_stamp)
	{
		memset(c, 0, sizeof *c);
		c->stamp = exec_stamp;
	}

	return c;
}

static void
where(const void *p, char *out, size_t n)
{
	const uint8_t *b = p;

	if(b >= arena && b < arena + ARENA)
	{
		snprintf(out, n, "heap+%zu", (size_t)(b - arena));
	}
	else
	{
		snprintf(out, n, "static data of the library");
	}
}

static const char *
tname(int t)
{
	static char b[2][16];
	static int i;

	i ^= 1;
	snprintf(b[i], sizeof b[i], t == MAXT ? "main" : "thread %d", t);

	return b[i];
}

enum { A_R, A_W, A_AR, A_AW, A_FREE };
static bool dirty[NC];
static bool access_points;

static void
access_mem(const void *p, size_t n, int kind)
{
	if(quiet_hooks)
	{
		return;
	}

	if(cfg.count)
	{
		/* effort: memory cells touched, 16 bytes of a block operation count as one */
		n_touch += kind == A_FREE ? 1 : 1 + n / 16;
		return;
	}

	Cell *first = cell_of(p);

	if(!first)
	{
		return;
	}

	++n_accesses;
	dirty[cur] = true;

	if(access_points && cur != MAXT && kind != A_FREE)
	{
		point();
	}

	VC *me = &vc[cur];

	for(size_t i = 0; i < n; ++i)
	{
		Cell *c = cell_of((const uint8_t *)p + i);

		if(!c)
		{
			break;
		}

		if(c->freed)
		{
			fail("%s accesses released memory", tname(cur));
		}

		if(cfg.races)
		{
			bool race = false;
			int other = -1;

			if(c->wc && c->wt != cur && c->wc > me->c[c->wt])
			{
				race = true;
				other = c->wt;
			}

			for(int t = 0; t < NC && !race; ++t)
			{
				if(t == cur)
				{
					continue;
				}

				if((kind == A_W || kind == A_AW || kind == A_FREE) && c->r[t] > me->c[t])
				{
					race = true;
					other = t;
				}

				if((kind == A_W || kind == A_R || kind == A_FREE) && c->a[t] > me->c[t])
				{
					race = true;
					other = t;
				}
			}

			if(race)
			{
				char w[64];

				where(p, w, sizeof w);
				fail("data race: %s %s %s without synchronisation with %s", tname(cur),
				     kind == A_R || kind == A_AR ? "reads" : kind == A_FREE ? "releases" : "writes", w, tname(other));
			}
		}

		switch(kind)
		{
			case A_R: c->r[cur] = me->c[cur]; break;
			case A_W: c->wt = cur; c->wc = me->c[cur]; break;
			case A_FREE: c->freed = 1; break;
			default: c->a[cur] = me->c[cur];
		}
	}
}

#define RW(n) \
	void __tsan_read##n(void *p) { access_mem(p, n, A_R); } \
	void __tsan_write##n(void *p) { access_mem(p, n, A_W); } \
	void __tsan_unaligned_read##n(void *p) { access_mem(p, n, A_R); } \
	void __tsan_unaligned_write##n(void *p) { access_mem(p, n, A_W); } \
	void __tsan_volatile_read##n(void *p) { access_mem(p, n, A_R); } \
	void __tsan_volatile_write##n(void *p) { access_mem(p, n, A_W); } \
	void __tsan_unaligned_volatile_read##n(void *p) { access_mem(p, n, A_R); } \
	void __tsan_unaligned_volatile_write##n(void *p) { access_mem(p, n, A_W); } \
	void __tsan_read_write##n(void *p) { access_mem(p, n, A_R); access_mem(p, n, A_W); } \
	void __tsan_unaligned_read_write##n(void *p) { access_mem(p, n, A_R); access_mem(p, n, A_W); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_read_range(void *p, size_t n) { access_mem(p, n, A_R); }
void __tsan_write_range(void *p, size_t n) { access_mem(p, n, A_W); }
void __tsan_vptr_update(void **p, void *v) { (void)v; access_mem(p, 8, A_W); }
void __tsan_vptr_read(void **p) { access_mem(p, 8, A_R); }

/* atomics: sequentially consistent, synchronising */
#define NSYNC 64
static struct { const void *p; VC v; } sync_var[NSYNC];
static int nsync;

static VC *
sync_of(const void *p)
{
	for(int i = 0; i < nsync; ++i)
	{
		if(sync_var[i].p == p)
		{
			return &sync_var[i].v;
		}
	}

	if(nsync == NSYNC)
	{
		nsync = 0;
	}

	sync_var[nsync].p = p;
	memset(&sync_var[nsync].v, 0, sizeof(VC));

	return &sync_var[nsync++].v;
}

static void atomic_point(void);

static void
atomic_pre(const void *p, size_t n, bool write)
{
	if(quiet_hooks)
	{
		return;
	}

	if(cur != MAXT)
	{
		dirty[cur] = true;
		atomic_point();
	}

	VC *v = sync_of(p);

	vc_join(&vc[cur], v);

	if(write)
	{
		vc_join(v, &vc[cur]);
		++vc[cur].c[cur];
	}

	bool s = access_points;

	access_points = false;
	access_mem(p, n, write ? A_AW : A_AR);
	access_points = s;
	dirty[cur] = true;
}

#define AT(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int mo) { (void)mo; atomic_pre((const void *)a, sizeof(T), false); return *a; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { (void)mo; atomic_pre((const void *)a, sizeof(T), true); *a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { (void)mo; atomic_pre((const void *)a, sizeof(T), true); T o = *a; *a = v; return o; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { (void)mo; atomic_pre((const void *)a, sizeof(T), true); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; atomic_pre((const void *)a, sizeof(T), true); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { (void)mo; atomic_pre((const void *)a, sizeof(T), true); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { (void)mo; atomic_pre((const void *)a, sizeof(T), true); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; atomic_pre((const void *)a, sizeof(T), true); T o = *a; *a = o ^ v; return o; } \
	T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; atomic_pre((const void *)a, sizeof(T), true); T o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int f) { (void)mo; (void)f; atomic_pre((const void *)a, sizeof(T), true); if(*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, f); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int f) { (void)mo; (void)f; atomic_pre((const void *)a, sizeof(T), true); T o = *a; if(o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---------------------------------------------------------------- arena */
#define HDR 16
int a_fill = 0xA5;                          /* what new memory contains */

void *
a_alloc(size_t n)
{
	size_t sz = (n + 15 + HDR) & ~15UL;

	if(top + sz > ARENA)
	{
		fail("out of arena memory");
	}

	uint8_t *p = arena + top;

	*(size_t *)p = n;
	*(size_t *)(p + 8) = 0xA110C;
	top += sz;
	memset(p + HDR, a_fill, n);

	return p + HDR;
}

static size_t lib_blocks;

static void
a_free(void *v)
{
	if(!v)
	{
		return;
	}

	uint8_t *p = (uint8_t *)v - HDR;

	if(p < arena || p >= arena + top || ((uintptr_t)p & 15) || *(size_t *)(p + 8) != 0xA110C)
	{
		fail("free() of a pointer that is no live block");
	}

	access_mem(v, *(size_t *)p, A_FREE);
	*(size_t *)(p + 8) = 0xDEAD;
}

void *__real_malloc(size_t);
void *__wrap_malloc(size_t n) { ++lib_blocks; return a_alloc(n); }
void *__wrap_calloc(size_t a, size_t b) { ++lib_blocks; void *p = a_alloc(a * b); memset(p, 0, a * b); n_touch += a * b / 16; return p; }
void
__wrap_free(void *p)
{
	if(p)
	{
		--lib_blocks;
	}

	a_free(p);
}
void *
__wrap_realloc(void *p, size_t n)
{
	if(!p)
	{
		return __wrap_malloc(n);
	}

	size_t o = *(size_t *)((uint8_t *)p - HDR);
	void *q = a_alloc(n);

	uint64_t touched = n_touch;

	access_mem(p, o, A_R);

	/* shrinking copies nothing: it happens in place in any real allocator */
	if(n <= o)
	{
		n_touch = touched + 1;
	}

	memcpy(q, p, o < n ? o : n);
	a_free(p);

	return q;
}
void *__wrap_reallocarray(void *p, size_t a, size_t b) { return __wrap_realloc(p, a * b); }
void *__wrap_aligned_alloc(size_t a, size_t n) { (void)a; return __wrap_malloc(n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { (void)a; *p = __wrap_malloc(n); return 0; }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); memcpy(p, s, n); return p; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { access_mem(s, n, A_R); access_mem(d, n, A_W); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access_mem(s, n, A_R); access_mem(d, n, A_W); return memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { access_mem(d, n, A_W); return memset(d, v, n); }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)f; (void)l; fail("a debug build stops in %s(): assertion '%s' does not hold", fn, e); }

/* A primitive was made to fail: ending the process is what should happen then. */
static void end_process(void);
void __wrap_abort(void) { end_process(); fail("the library calls abort()"); }
void __wrap_exit(int rc) { end_process(); fail("the library calls exit(%d)", rc); }
void __wrap__exit(int rc) { end_process(); fail("the library calls _exit(%d)", rc); }
void __wrap_err(int rc, const char *f, ...) { (void)f; end_process(); fail("the library ends the process, error %d", rc); }
void __wrap_errx(int rc, const char *f, ...) { (void)f; end_process(); fail("the library ends the process, error %d", rc); }
void __wrap_perror(const char *s) { (void)s; }

/* ---------------------------------------------------------------- fibres */
enum { S_READY, S_LOCK, S_COND, S_SLEEP, S_DONE };
typedef struct
{
	void *sp;
	uint8_t *stack;
	void (*fn)(int);
	int state;
	const void *m, *c;
	bool timed, signaled;
	int64_t deadline;           /* CLOCK_REALTIME ns                          */
	int rc;
	uint8_t *tls;
	bool yielded;
} Fib;
static Fib fib[MAXT];
static void *main_sp;
#define STACK (256UL << 10)

/* swap stacks, callee-saved registers only */
__asm__(
	".text\n.globl fib_switch\n.type fib_switch,@function\nfib_switch:\n"
	"  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
	"  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
	"  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
	".size fib_switch,.-fib_switch\n");
void fib_switch(void **from, void *to);

static void
tls_out(uint8_t *buf)
{
	if(tls.n)
	{
		memcpy(buf, tls.p, tls.n);
	}
}

static void
tls_in(const uint8_t *buf)
{
	if(tls.n)
	{
		memcpy(tls.p, buf, tls.n);
	}
}

static uint8_t *main_tls;

static void
to_fib(int id)
{
	tls_out(main_tls);
	tls_in(fib[id].tls);
	cur = id;
	++n_switch;
	fib_switch(&main_sp, fib[id].sp);
	cur = MAXT;
	tls_out(fib[id].tls);
	tls_in(main_tls);
}

static void to_main(int id) { fib_switch(&fib[id].sp, main_sp); }

static void
fib_main(void)
{
	int id = cur;

	fib[id].fn(id);
	fib[id].state = S_DONE;
	to_main(id);
	__builtin_unreachable();
}

void
fib_start(void (*fn)(int))
{
	int id = nfib++;
	Fib *f = &fib[id];

	if(!f->stack)
	{
		f->stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		f->tls = malloc(tls.n + 1);
		/* guard page */
		mprotect(f->stack, 4096, PROT_NONE);
	}

	if(tls.n)
	{
		memcpy(f->tls, tls.save, tls.n);
	}

	f->fn = fn;
	f->state = S_READY;
	f->c = f->m = NULL;
	f->rc = 0;
	f->timed = f->signaled = f->yielded = false;

	void **sp = (void **)(f->stack + STACK - 64);

	*--sp = NULL;
	*--sp = (void *)fib_main;

	for(int i = 0; i < 6; ++i)
	{
		*--sp = NULL;
	}

	f->sp = sp;
	/* start: happens-after the main context so far */
	vc[id] = vc[MAXT];
	vc[id].c[id] = 1;
	++vc[MAXT].c[MAXT];
	dirty[id] = false;
}

bool fib_done(int id) { return fib[id].state == S_DONE; }
bool fib_blocked(int id) { return fib[id].state == S_COND; }
bool fib_stuck(int id) { return fib[id].state == S_LOCK || fib[id].state == S_SLEEP || fib[id].state == S_READY; }

/* ---------------------------------------------------------------- failing primitives */
int inj_by = -1, inj_kind;
uint64_t n_inj, n_stopped;
static bool stopped;
static jmp_buf stop_jmp;
static const char *const inj_names[] = { "", "pthread_mutex_init", "pthread_cond_init", "pthread_mutex_lock", "pthread_mutex_unlock", "a wait", "pthread_cond_signal", "pthread_cond_broadcast" };

const char *inj_name(void) { return inj_names[inj_kind]; }

static void
end_process(void)
{
	if(inj_by < 0)
	{
		return;
	}

	stopped = true;

	if(cur == MAXT)
	{
		longjmp(stop_jmp, 1);
	}

	to_main(cur);
	__builtin_unreachable();
}

/* error code of the primitive about to be executed, 0: it works */
static int
inject(int kind)
{
	static const int codes[][4] = { [I_MINIT] = { ENOMEM, EAGAIN, EPERM, EINVAL }, [I_CINIT] = { ENOMEM, EAGAIN, EBUSY, EINVAL }, [I_LOCK] = { EINVAL, EAGAIN, EDEADLK, EPERM },
	                                [I_UNLOCK] = { EPERM, EINVAL, EAGAIN, EBUSY }, [I_WAIT] = { EINVAL, EPERM, EINVAL, EPERM }, [I_SIGNAL] = { EINVAL, EAGAIN, ENOMEM, EPERM },
	                                [I_BCAST] = { EINVAL, EAGAIN, ENOMEM, EPERM } };

	if(!cfg.efail || inj_by >= 0 || (cur == MAXT && kind != I_MINIT && kind != I_CINIT))
	{
		return 0;
	}

	int c = choose(1 + cfg.efail);

	if(!c)
	{
		return 0;
	}

	inj_by = cur;
	inj_kind = kind;
	++n_inj;

	return codes[kind][c - 1];
}

/* ---------------------------------------------------------------- virtual time */
static int64_t vnow;
static int64_t *vclock = &vnow;
#define MONO_OFS (3000000000LL * 1000000000LL / 1000LL)
static uint64_t ts;
static int n_advance;

int64_t now_ns(void) { return *vclock; }
uint64_t stamp(void) { return ++ts; }

static int64_t
clk_base(clockid_t c)
{
	switch(c)
	{
		case CLOCK_REALTIME:
		case CLOCK_REALTIME_COARSE:
		case CLOCK_TAI:
			return 0;
		default: /* counts since boot */
			return cfg.clock0 - 12345678901234LL;
	}
}

static int64_t
clk_get(clockid_t c)
{
	dirty[cur] = true;

	return vnow - clk_base(c);
}

int
__wrap_gettimeofday(struct timeval *tv, void *tz)
{
	(void)tz;

	int64_t t = clk_get(CLOCK_REALTIME);

	tv->tv_sec = t / 1000000000;
	tv->tv_usec = t % 1000000000 / 1000;

	return 0;
}

int
__wrap_clock_gettime(clockid_t c, struct timespec *o)
{
	int64_t t = clk_get(c);

	o->tv_sec = t / 1000000000;
	o->tv_nsec = t % 1000000000;

	return 0;
}

int
__wrap_timespec_get(struct timespec *o, int base)
{
	__wrap_clock_gettime(CLOCK_REALTIME, o);

	return base;
}

time_t
__wrap_time(time_t *o)
{
	time_t t = clk_get(CLOCK_REALTIME) / 1000000000;

	if(o)
	{
		*o = t;
	}

	return t;
}

void
fib_sleep(int64_t ns)
{
	if(cur == MAXT)
	{
		vnow += ns;
		return;
	}

	Fib *f = &fib[cur];

	f->state = S_SLEEP;
	f->deadline = vnow + ns;
	to_main(cur);
}

int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { (void)r; fib_sleep(t->tv_sec * 1000000000LL + t->tv_nsec); return 0; }
int
__wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r)
{
	(void)r;

	int64_t v = t->tv_sec * 1000000000LL + t->tv_nsec;

	fib_sleep(fl & TIMER_ABSTIME ? v + clk_base(c) - vnow : v);

	return 0;
}
int __wrap_usleep(unsigned us) { fib_sleep(us * 1000LL); return 0; }
unsigned __wrap_sleep(unsigned s) { fib_sleep(s * 1000000000LL); return 0; }
int
__wrap_sched_yield(void)
{
	if(cur != MAXT)
	{
		fib[cur].yielded = true;
		dirty[cur] = true;
		point();
	}

	return 0;
}

/* ---------------------------------------------------------------- synchronisation objects */
typedef struct { const void *p; int owner, depth, type; bool inited; clockid_t clk; VC v; } Obj;
#define NOBJ 64
static Obj obj[NOBJ];
static int nobj;

static Obj *
obj_of(const void *p)
{
	for(int i = 0; i < nobj; ++i)
	{
		if(obj[i].p == p)
		{
			return &obj[i];
		}
	}

	if(nobj == NOBJ)
	{
		fail("too many synchronisation objects");
	}

	Obj *o = &obj[nobj++];

	memset(o, 0, sizeof *o);
	o->p = p;
	o->owner = -1;
	o->clk = CLOCK_REALTIME;

	return o;
}

static bool in_atomic;

static bool
holds_mutex(int who)
{
	for(int i = 0; i < nobj; ++i)
	{
		if(obj[i].owner == who)
		{
			return true;
		}
	}

	return false;
}

bool held_points, held_wanted;              /* the code tests whether a mutex is held */

bool mutex_held(void) { return holds_mutex(cur); }

void
point(void)
{
	if(cur == MAXT || !dirty[cur])
	{
		return;
	}

	/* Inside a critical section a switch adds nothing: whatever other threads can do without the mutex commutes
	   with the (race-free) rest of the section - unless they can see that the mutex is held. */
	if(!access_points && !in_atomic && !held_points && holds_mutex(cur))
	{
		return;
	}

	++n_points;
	dirty[cur] = false;

	bool s = access_points;

	access_points = in_atomic = false;
	to_main(cur);
	access_points = s;
}

static void
atomic_point(void)
{
	in_atomic = true;
	point();
	in_atomic = false;
}

static void
acquired(Obj *o, int who)
{
	o->owner = who;
	o->depth = 1;
	vc_join(&vc[who], &o->v);
	dirty[who] = true;
}

static void
released(Obj *o)
{
	o->owner = -1;
	o->depth = 0;
	vc_join(&o->v, &vc[cur]);
	++vc[cur].c[cur];
	dirty[cur] = true;
}

static void
lock_point(void)
{
	in_atomic = true;
	point();
	in_atomic = false;
}

static int
lock_obj(Obj *o, bool try)
{
	if(o->owner == cur)
	{
		if(o->type == PTHREAD_MUTEX_RECURSIVE)
		{
			++o->depth;
			return 0;
		}

		if(try)
		{
			return EBUSY;
		}

		if(o->type == PTHREAD_MUTEX_ERRORCHECK)
		{
			return EDEADLK;
		}
	}

	if(o->owner >= 0)
	{
		if(try)
		{
			return EBUSY;
		}

		if(cur == MAXT)
		{
			fail("deadlock: the mutex is held although no operation is in progress");
		}

		Fib *f = &fib[cur];

		f->state = S_LOCK;
		f->m = o->p;
		to_main(cur);

		return f->rc; /* scheduler acquired it for us */
	}

	acquired(o, cur);

	return 0;
}

int
__wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
	int e = inject(I_MINIT);

	if(e)
	{
		return e;
	}

	Obj *o = obj_of(m);
	int t = PTHREAD_MUTEX_DEFAULT;

	if(a)
	{
		pthread_mutexattr_gettype(a, &t);
	}

	memset(o, 0, sizeof *o);
	o->p = m;
	o->owner = -1;
	o->type = t;
	o->inited = true;

	return 0;
}

int
__wrap_pthread_mutex_destroy(pthread_mutex_t *m)
{
	Obj *o = obj_of(m);

	if(o->owner >= 0)
	{
		return EBUSY;
	}

	o->inited = false;

	return 0;
}

int
__wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	lock_point();

	int e = inject(I_LOCK);

	if(e)
	{
		return e;
	}

	Obj *o = obj_of(m);

	if(cur != MAXT)
	{
		fib[cur].rc = 0;
	}

	return lock_obj(o, false);
}

int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { held_wanted = true; lock_point(); dirty[cur] = true; return lock_obj(obj_of(m), true); }

int
__wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	Obj *o = obj_of(m);

	if(o->owner != cur)
	{
		fail("a mutex is unlocked by a thread that does not hold it");
	}

	if(held_points)
	{
		dirty[cur] = cur != MAXT;
		point();
	}

	int e = inject(I_UNLOCK);

	if(e)
	{
		return e;
	}

	if(--o->depth == 0)
	{
		released(o);
	}

	return 0;
}

static void
set_timed(Fib *f, const struct timespec *t, clockid_t c)
{
	/* saturate: far future */
	if(t->tv_sec > INT64_MAX / 2000000000LL)
	{
		f->deadline = INT64_MAX / 2;
	}
	else
	{
		f->deadline = t->tv_sec * 1000000000LL + t->tv_nsec + clk_base(c);
	}

	f->timed = true;
}

int
__wrap_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t)
{
	held_wanted = true;
	point();

	Obj *o = obj_of(m);

	if(o->owner >= 0 && cur != MAXT)
	{
		set_timed(&fib[cur], t, c);
	}

	int rc = lock_obj(o, false);

	if(cur != MAXT)
	{
		fib[cur].timed = false;
	}

	return rc;
}

int __wrap_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { return __wrap_pthread_mutex_clocklock(m, CLOCK_REALTIME, t); }

int
__wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a)
{
	int e = inject(I_CINIT);

	if(e)
	{
		return e;
	}

	Obj *o = obj_of(c);

	memset(o, 0, sizeof *o);
	o->p = c;
	o->owner = -1;
	o->clk = CLOCK_REALTIME;

	o->inited = true;

	if(a)
	{
		pthread_condattr_getclock(a, &o->clk);
	}

	return 0;
}

int
__wrap_pthread_cond_destroy(pthread_cond_t *c)
{
	for(int i = 0; i < nfib; ++i)
	{
		if(fib[i].state == S_COND && fib[i].c == c)
		{
			fail("a condition variable is destroyed while threads wait on it");
		}
	}

	obj_of(c)->inited = false;

	return 0;
}

static int
cond_wait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t, int clk)
{
	Obj *o = obj_of(m), *co = obj_of(c);

	if(t && (t->tv_nsec < 0 || t->tv_nsec >= 1000000000L))
	{
		return EINVAL;
	}

	point();

	if(o->owner != cur)
	{
		fail("a thread waits without holding the mutex");
	}

	int e = inject(I_WAIT);

	if(e)
	{
		return e;
	}

	if(cur == MAXT)
	{
		if(!t)
		{
			fail("an operation of the last running thread blocks");
		}

		Fib tmp;

		set_timed(&tmp, t, clk >= 0 ? clk : co->clk);

		if(tmp.deadline > vnow)
		{
			vnow = tmp.deadline;
		}

		if(++n_advance > 400)
		{
			fail("a pop with time-out does not come to an end");
		}

		return ETIMEDOUT;
	}

	Fib *f = &fib[cur];

	released(o);
	f->timed = false;

	if(t)
	{
		set_timed(f, t, clk >= 0 ? clk : co->clk);
	}

	f->m = m;
	f->c = c;
	f->signaled = false;
	f->rc = 0;
	f->state = S_COND;
	to_main(cur);
	f->timed = false;
	f->c = NULL;

	return f->rc;
}

int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, NULL, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return cond_wait(c, m, t, -1); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return cond_wait(c, m, t, k); }

static void
wake(Fib *f)
{
	f->signaled = true;
	f->state = S_LOCK; /* has to get the mutex back */
}

int
__wrap_pthread_cond_signal(pthread_cond_t *c)
{
	point();

	int e = inject(I_SIGNAL);

	if(e)
	{
		return e;
	}

	int w[MAXT], n = 0;

	for(int i = 0; i < nfib; ++i)
	{
		if(fib[i].state == S_COND && fib[i].c == c)
		{
			w[n++] = i;
		}
	}

	if(n)
	{
		wake(&fib[w[choose(n)]]);
	}

	if(cur != MAXT)
	{
		dirty[cur] = true;
	}

	return 0;
}

int
__wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
	point();

	int e = inject(I_BCAST);

	if(e)
	{
		return e;
	}

	for(int i = 0; i < nfib; ++i)
	{
		if(fib[i].state == S_COND && fib[i].c == c)
		{
			wake(&fib[i]);
		}
	}

	if(cur != MAXT)
	{
		dirty[cur] = true;
	}

	return 0;
}

pthread_t __wrap_pthread_self(void) { return (pthread_t)(0x1000 + cur); }
int
__wrap_pthread_once(pthread_once_t *o, void (*fn)(void))
{
	VC *v = sync_of(o);

	if(!*(int *)o)
	{
		fn();
		*(int *)o = 1;
		vc_join(v, &vc[cur]);
		++vc[cur].c[cur];
	}

	vc_join(&vc[cur], v);

	return 0;
}

/* ---------------------------------------------------------------- one execution */
enum { O_RUN, O_TIMEOUT, O_SPUR, O_TIME };
typedef struct { int kind, id; } Alt;

static void
exec_reset(void)
{
	++exec_stamp;
	top = 0;
	lib_blocks = 0;
	nfib = 0;
	nobj = 0;
	nsync = 0;
	ts = 0;
	pos = 0;
	n_advance = 0;
	inj_by = -1;
	inj_kind = 0;
	stopped = false;
	cur = MAXT;
	vnow = cfg.clock0;
	memset(vc, 0, sizeof vc);
	vc[MAXT].c[MAXT] = 1;
	access_points = cfg.access;

	for(int i = 0; i < nseg; ++i)
	{
		memcpy(seg[i].p, seg[i].save, seg[i].n);
	}

	if(tls.n)
	{
		memcpy(tls.p, tls.save, tls.n);
	}
}

#define MAX_HELD 2                 /* preemptions in the pass that interrupts holders of a mutex */

static void
run_exec(void (*setup)(void), void (*finish)(bool), void (*quiet)(void))
{
	int pre = 0, spur = 0, last = -1;
	uint64_t steps = 0;

	exec_reset();

	if(cfg.efail && setjmp(stop_jmp))
	{
		++n_exec;
		++n_stopped;
		return;
	}

	setup();

	for(;;)
	{
		Alt alt[64];
		int n = 0, run = 0;
		int pb = held_points && (cfg.pb < 0 || cfg.pb > MAX_HELD) ? MAX_HELD : cfg.pb;
		bool can_pre = pb < 0 || pre < pb;
		bool lastok = false;

		if(++steps > 100000)
		{
			fail("an execution does not come to an end");
		}

		/* threads that can run, current one first */
		for(int k = -1; k < nfib; ++k)
		{
			int i = k < 0 ? last : k;

			if(i < 0 || (k >= 0 && i == last))
			{
				continue;
			}

			Fib *f = &fib[i];
			bool ok = f->state == S_READY || (f->state == S_LOCK && obj_of(f->m)->owner < 0) ||
			          (f->state == S_SLEEP && f->deadline <= vnow) ||
			          (f->state == S_LOCK && f->timed && !f->c && f->deadline <= vnow);

			if(!ok)
			{
				continue;
			}

			++run;

			if(k < 0)
			{
				lastok = f->state == S_READY && !f->yielded;
			}

			if(k >= 0 && lastok && !can_pre)
			{
				continue;
			}

			alt[n++] = (Alt){ O_RUN, i };
		}

		if(last >= 0 && fib[last].yielded)
		{
			fib[last].yielded = false;

			if(n > 1 && alt[0].id == last)
			{
				alt[0] = alt[--n];
			}
		}

		/* time-outs that are due */
		int due = 0;

		for(int i = 0; i < nfib; ++i)
		{
			if(fib[i].state == S_COND && fib[i].timed && fib[i].deadline <= vnow)
			{
				alt[n++] = (Alt){ O_TIMEOUT, i };
				++due;
			}
		}

		bool idle = !run && !due;
		int64_t next = INT64_MAX;

		for(int i = 0; i < nfib; ++i)
		{
			Fib *f = &fib[i];

			if(((f->state == S_COND || f->state == S_LOCK) && f->timed && f->deadline > vnow) ||
			   (f->state == S_SLEEP && f->deadline > vnow))
			{
				if(f->deadline < next)
				{
					next = f->deadline;
				}
			}
		}

		if(idle)
		{
			quiet();
		}

		if(next != INT64_MAX && (idle || cfg.eager))
		{
			alt[n++] = (Alt){ O_TIME, 0 };
		}

		if(idle && (next == INT64_MAX || n_advance > 300))
		{
			bool rescue = false;

			/* everything that can happen has happened, except for a spurious wake-up */
			if(spur < cfg.spur)
			{
				int w[MAXT], m = 0;

				for(int i = 0; i < nfib; ++i)
				{
					if(fib[i].state == S_COND)
					{
						w[m++] = i;
					}
				}

				if(m)
				{
					int c = choose(m + 1);

					if(c)
					{
						++spur;
						wake(&fib[w[c - 1]]);
						fib[w[c - 1]].signaled = false;
						rescue = true;
					}
				}
			}

			if(rescue)
			{
				last = -1;
				continue;
			}

			break;
		}

		if(spur < cfg.spur)
		{
			for(int i = 0; i < nfib; ++i)
			{
				if(fib[i].state == S_COND)
				{
					alt[n++] = (Alt){ O_SPUR, i };
				}
			}
		}

		if(!n)
		{
			/* only possible when the preemption bound hides alternatives - cannot happen */
			break;
		}

		Alt a = alt[choose(n)];

		switch(a.kind)
		{
			case O_TIME:
				vnow = next;
				++n_advance;
				break;

			case O_TIMEOUT:
				fib[a.id].state = S_LOCK;
				fib[a.id].rc = ETIMEDOUT;
				break;

			case O_SPUR:
				++spur;
				fib[a.id].state = S_LOCK;
				break;

			case O_RUN:
			{
				Fib *f = &fib[a.id];

				if(last >= 0 && last != a.id && lastok)
				{
					++pre;
				}

				if(f->state == S_LOCK)
				{
					Obj *o = obj_of(f->m);

					if(o->owner < 0)
					{
						acquired(o, a.id);
						f->rc = f->c ? f->rc : 0;

						/* a time-out may swallow a signal that is directed at the thread */
						if(f->c && f->timed && f->signaled && f->rc == 0 && f->deadline <= vnow)
						{
							f->rc = choose(2) ? ETIMEDOUT : 0;
						}
					}
					else
					{
						f->rc = ETIMEDOUT; /* timed lock */
					}
				}

				f->state = S_READY;
				to_fib(a.id);
				last = a.id;

				if(stopped)
				{
					++n_exec;
					++n_stopped;
					return;
				}

				if(f->state == S_DONE)
				{
					vc_join(&vc[MAXT], &vc[a.id]);
					last = -1;
				}
				break;
			}
		}
	}

	bool all = true;

	for(int i = 0; i < nfib; ++i)
	{
		all &= fib[i].state == S_DONE;
	}

	++n_exec;
	finish(all);
}

/* wall-clock budget: programs left out are counted, never silently dropped */
uint64_t n_skipped;
static struct timespec t_start;

static bool
out_of_time(void)
{
	static long secs = -1;
	struct timespec t;

	if(secs < 0)
	{
		secs = opt("secs", 0);
	}

	if(!secs)
	{
		return false;
	}

	clock_gettime(CLOCK_MONOTONIC, &t);

	return t.tv_sec - t_start.tv_sec >= secs;
}

bool
explore(void (*setup)(void), void (*finish)(bool), void (*quiet)(void))
{
	uint64_t start = n_exec;

	if(out_of_time())
	{
		++n_skipped;
		return false;
	}

	held_points = held_wanted = false;

	for(;;)
	{
		plen = 0;

		do
		{
			run_exec(setup, finish, quiet);

			if((cfg.cap && n_exec - start >= cfg.cap) || (!(n_exec & 1023) && out_of_time()))
			{
				++n_capped;
				return false;
			}
		} while(path_next());

		if(!held_wanted || held_points || cfg.access)
		{
			break;
		}

		/* again, with threads interrupted while they hold a mutex */
		held_points = true;
		snprintf(prog_text + strlen(prog_text), sizeof prog_text - strlen(prog_text), ";held=1");
	}

	held_points = false;

	return true;
}

void
replay(const char *trace, void (*setup)(void), void (*finish)(bool), void (*quiet)(void))
{
	plen = 0;

	while(*trace)
	{
		path[plen].n = 0;
		path[plen++].c = strtoul(trace, (char **)&trace, 10);

		if(*trace == '.')
		{
			++trace;
		}
	}

	replaying = true;
	held_points = strstr(opts("prog", ""), ";held=1") != NULL;
	run_exec(setup, finish, quiet);
	printf("{\"replay\":\"no violation%s\"}\n", diverged ? ", diverged" : "");
}

/* ---------------------------------------------------------------- main */
static uint64_t last_exec, last_points;
static int stall;

static void
tick(int sig)
{
	(void)sig;

	if(n_exec == last_exec && n_points == last_points)
	{
		if(++stall >= 5)
		{
			fail("an operation does not come to an end");
		}
	}
	else
	{
		stall = 0;
	}

	last_exec = n_exec;
	last_points = n_points;
}

static void
crash(int sig)
{
	fail("crash: signal %d in %s", sig, tname(cur));
}

int
main(int argc, char **argv)
{
	g_argc = argc;
	g_argv = argv;
	clock_gettime(CLOCK_MONOTONIC, &t_start);

	if(argc < 3)
	{
		return 3;
	}

	if(!opt("keepstderr", 0))
	{
		if(!freopen("/dev/null", "w", stderr))
		{
			return 3;
		}
	}

	arena = mmap((void *)0x300000000000, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	ashadow = mmap(NULL, ARENA * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	dl_iterate_phdr(phdr_cb, NULL);

	for(int i = 0; i < nseg; ++i)
	{
		memcpy(seg[i].save, seg[i].p, seg[i].n);
		dshadow[i] = mmap(NULL, seg[i].n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}

	if(tls.n)
	{
		memcpy(tls.save, tls.p, tls.n);
	}

	main_tls = malloc(tls.n + 1);

	stack_t ss = { .ss_sp = malloc(65536), .ss_size = 65536 };

	sigaltstack(&ss, NULL);

	struct sigaction sa = { .sa_handler = crash, .sa_flags = SA_ONSTACK };

	sigaction(SIGSEGV, &sa, NULL);
	sigaction(SIGBUS, &sa, NULL);
	sigaction(SIGFPE, &sa, NULL);
	sigaction(SIGILL, &sa, NULL);
	sa.sa_handler = tick;
	sa.sa_flags = SA_ONSTACK | SA_RESTART;
	sigaction(SIGVTALRM, &sa, NULL);

	struct itimerval it = { { 1, 0 }, { 1, 0 } };

	setitimer(ITIMER_VIRTUAL, &it, NULL);

	if(!strcmp(argv[1], "aq"))
	{
		return s_aq(argv[2]);
	}

	if(!strcmp(argv[1], "rd"))
	{
		return s_rd(argv[2]);
	}

	if(!strcmp(argv[1], "cost"))
	{
		return s_cost(argv[2]);
	}

	if(!strcmp(argv[1], "iso"))
	{
		return s_iso(argv[2]);
	}

	return 3;
}

size_t lib_live_blocks(void);
size_t lib_live_blocks(void) { return lib_blocks; }

/* mutexes and condition variables set up and not destroyed */
int
live_sync_objects(void)
{
	int n = 0;

	for(int i = 0; i < nobj; ++i)
	{
		n += obj[i].inited;
	}

	return n;
}
