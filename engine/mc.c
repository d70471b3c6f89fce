/*
 * mc.c - explicit-state model checker over the real library code.
 *
 * usage: mc HARNESS bfs|sweep|replay out=RESULT.json [key=value ...] [trace=op,op,...]
 *
 * The library (a shared object built from /repo with malloc & co. redirected here) allocates from a
 * deterministic arena at a fixed address. A state is: host (model) region + arena + static data and TLS
 * of the library. States are stored as operation histories (parent, op) and re-created by replay; one
 * snapshot per expanded state makes trying all its operations cheap. Two states are identified when the
 * heap graphs reachable from host region and library data are isomorphic (128 bit hash of the canonical
 * graph walk). This file is compiled without AddressSanitizer instrumentation; the library is compiled
 * with it, and the arena keeps ASan's shadow memory up to date.
 */
#define _GNU_SOURCE
#include "mc.h"
#include <malloc.h>
#include <link.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>

#define ARENA ((uint8_t *)0x200000000000UL)
#define ARENA_SIZE (8UL << 20)
#define GR 16UL
#define NGR (ARENA_SIZE / GR)
#define MAXCH 16000

#define SHADOW(a) ((uint8_t *)((((uintptr_t)(a)) >> 3) + 0x7fff8000UL))

void *mc_host = ARENA;
bool mc_passthrough;
uint64_t mc_cnt_checks, mc_progress;
const char *mc_phase = "start";
long (*mc_read_hook)(int, void *, size_t);

/* ---------------------------------------------------------------- arena */
typedef struct
{
	uint32_t start;   /* granule */
	uint32_t size;    /* bytes   */
	uint8_t kind;     /* 0 unused */
	uint8_t dead;
} Chunk;

typedef struct
{
	uint32_t host_size;
	uint32_t norder;
	uint32_t maxid;               /* ids 1..maxid in use or reusable */
	uint32_t hw;                  /* granules used so far (high water) */
	uint32_t lib_live;
	uint32_t ndead;
	uint16_t order[MAXCH];
	Chunk ch[MAXCH + 1];
} Meta;

static Meta M;
static uint16_t g2c[NGR];
static uint64_t lib_allocs;       /* since op begin */
static long fail_at;              /* countdown to failing allocation, 0 = off */
static bool fail_fired;
static jmp_buf abort_jmp;
static bool abort_armed;
static size_t pt_live, pt_bytes;  /* pass-through accounting */
#define PT_SIZE(p) malloc_usable_size(p)

__attribute__((noinline)) static void
raw_copy(void *d, const void *s, size_t n)
{
	__asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}

__attribute__((noinline)) static void
raw_set(void *d, int v, size_t n)
{
	__asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
}

static void
shadow_alloc(uint8_t *p, size_t n)
{
	uint8_t *s = SHADOW(p);
	size_t full = n / 8;
	raw_set(s, 0, full);
	if(n % 8) s[full] = n % 8;
}

static void
shadow_dead(uint8_t *p, size_t gran, int v)
{
	raw_set(SHADOW(p), v, gran * GR / 8);
}

static uint32_t
gran_of(size_t n)
{
	return n ? (uint32_t)((n + GR - 1) / GR) : 1;
}

static void
arena_reset(size_t host_size)
{
	raw_set(ARENA, 0, (size_t)M.hw * GR + GR);
	memset(&M, 0, offsetof(Meta, order));
	memset(g2c, 0, sizeof g2c);
	memset(M.ch, 0, sizeof M.ch);
	M.host_size = host_size;
	M.hw = gran_of(host_size) + 1;
	raw_set(ARENA, 0, host_size);
	raw_set(SHADOW(ARENA), 0xf7, ARENA_SIZE / 8);
	shadow_alloc(ARENA, gran_of(host_size) * GR);
}

static void *
arena_alloc(size_t n, int kind)
{
	uint32_t need = gran_of(n);
	uint32_t prev = gran_of(M.host_size) + 1; /* first free granule incl. redzone */
	uint32_t pos;

	if(n > ARENA_SIZE / 2) return NULL;

	for(pos = 0; pos < M.norder; ++pos)
	{
		Chunk *c = &M.ch[M.order[pos]];
		if(c->start >= prev + need + 1) break;
		prev = c->start + gran_of(c->size) + 1;
	}
	if(prev + need + 1 >= NGR || M.norder >= MAXCH - 1)
	{
		fprintf(stderr, "mc: arena exhausted\n");
		_exit(3);
	}
	uint32_t id = 1;
	while(id <= M.maxid && M.ch[id].kind) ++id;
	if(id > M.maxid) M.maxid = id;

	memmove(&M.order[pos + 1], &M.order[pos], (M.norder - pos) * sizeof M.order[0]);
	M.order[pos] = id;
	++M.norder;
	M.ch[id] = (Chunk){ .start = prev, .size = n, .kind = kind };
	for(uint32_t g = 0; g < need; ++g) g2c[prev + g] = id;
	if(prev + need + 1 > M.hw)
	{
		M.hw = prev + need + 1;
	}
	uint8_t *p = ARENA + prev * GR;
	shadow_alloc(p, n);
	static int pattern = -1;
	if(pattern < 0) pattern = opt("pattern", 0xCD) & 255;
	raw_set(p, pattern, need * GR);
	if(kind == CH_LIB) ++M.lib_live;
	return p;
}

static uint32_t
chunk_id(const void *p)
{
	if((uint8_t *)p < ARENA || (uint8_t *)p >= ARENA + ARENA_SIZE) return 0;
	uint32_t id = g2c[((uint8_t *)p - ARENA) / GR];
	return id;
}

static uint32_t
chunk_at(const void *p)
{
	uint32_t id = chunk_id(p);
	return id && ARENA + (size_t)M.ch[id].start * GR == (uint8_t *)p ? id : 0;
}

static void
arena_free(void *p, int kind, const char *who)
{
	uint32_t id = chunk_at(p);
	if(!id || M.ch[id].kind != kind || M.ch[id].dead)
	{
		mc_fail("%s: release of an address that is not a live block of the %s", who,
			kind == CH_LIB ? "library" : "harness");
	}
	Chunk *c = &M.ch[id];
	uint32_t n = gran_of(c->size);
	for(uint32_t g = 0; g < n; ++g) g2c[c->start + g] = 0;
	raw_set(p, 0xDD, n * GR);
	shadow_dead(p, n, 0xfd);
	c->dead = 1;
	++M.ndead;
	if(kind == CH_LIB) --M.lib_live;
}

/* blocks freed during an operation are reusable only after it */
static void
arena_purge(void)
{
	if(!M.ndead) return;
	uint32_t j = 0;
	for(uint32_t i = 0; i < M.norder; ++i)
	{
		uint32_t id = M.order[i];
		if(M.ch[id].dead)
		{
			memset(&M.ch[id], 0, sizeof(Chunk));
		}
		else
		{
			M.order[j++] = id;
		}
	}
	M.norder = j;
	M.ndead = 0;
	while(M.maxid && !M.ch[M.maxid].kind) --M.maxid;
	uint32_t hw = gran_of(M.host_size) + 1;
	if(j)
	{
		Chunk *c = &M.ch[M.order[j - 1]];
		hw = c->start + gran_of(c->size) + 1;
	}
	M.hw = hw;
}

void *
h_alloc(size_t n, int kind)
{
	if(mc_passthrough)
	{
		void *p = malloc(n);
		memset(p, 0xCD, n);
		return p;
	}
	return arena_alloc(n, kind);
}

void
h_free(void *p)
{
	if(mc_passthrough)
	{
		free(p);
		return;
	}
	uint32_t id = chunk_at(p);
	if(!id) { fprintf(stderr, "mc: bad h_free\n"); _exit(3); }
	arena_free(p, M.ch[id].kind, "harness");
}

int mc_chunk_kind(const void *p) { uint32_t id = chunk_at(p); return id ? M.ch[id].kind : 0; }
size_t mc_chunk_size(const void *p) { uint32_t id = chunk_at(p); return id ? M.ch[id].size : 0; }
size_t mc_lib_bytes(void) { return pt_bytes; }
size_t mc_lib_live(void) { return mc_passthrough ? pt_live : M.lib_live; }
size_t mc_lib_allocs(void) { return lib_allocs; }

bool
mc_readable(const void *p, size_t n)
{
	const uint8_t *a = p;
	for(size_t i = 0; i < n; ++i)
	{
		int8_t s = (int8_t)*SHADOW(a + i);
		if(s && (s < 0 || (int)(((uintptr_t)(a + i)) & 7) >= s)) return false;
	}
	return true;
}
/* 8-byte aligned start expected */
void mc_poison(const void *p, size_t n) { raw_set(SHADOW(p), 0xf7, (n + 7) / 8); }
void mc_unpoison(const void *p, size_t n) { shadow_alloc((uint8_t *)p, n); }

/* ---------------------------------------------------------------- redirected calls of the library */
static bool
inject(void)
{
	++lib_allocs;
	if(fail_at && !--fail_at)
	{
		fail_fired = true;
		return true;
	}
	return false;
}

/* sweeps: no case needs more, so a container that grows without bound is reported before memory runs out */
static void
pt_room(size_t n)
{
	if(pt_bytes + n > (size_t)2 << 30) mc_fail("the library asks for %lu bytes while holding %lu", (unsigned long)n, (unsigned long)pt_bytes);
}

/* what the caller of the library allocates with malloc(): never refused */
void *
mc_user_malloc(size_t n)
{
	if(mc_passthrough)
	{
		pt_room(n);
		void *p = malloc(n);
		if(p) { ++pt_live; pt_bytes += PT_SIZE(p); memset(p, 0xCD, n < 4096 ? n : 4096); }
		return p;
	}
	return arena_alloc(n, CH_LIB);
}

void *
__wrap_malloc(size_t n)
{
	if(inject()) { errno = ENOMEM; return NULL; }
	return mc_user_malloc(n);
}

void *
__wrap_calloc(size_t a, size_t b)
{
	if(inject()) { errno = ENOMEM; return NULL; }
	if(b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; }
	if(mc_passthrough)
	{
		pt_room(a * b);
		void *q = calloc(a, b);
		++pt_live;
		if(q) pt_bytes += PT_SIZE(q);
		return q;
	}
	void *p = arena_alloc(a * b, CH_LIB);
	if(p) raw_set(p, 0, a * b);
	return p;
}

void
__wrap_free(void *p)
{
	if(!p) return;
	if(mc_passthrough) { --pt_live; pt_bytes -= PT_SIZE(p); free(p); return; }
	arena_free(p, CH_LIB, "free()");
}

void *
__wrap_realloc(void *p, size_t n)
{
	if(inject()) { errno = ENOMEM; return NULL; }
	if(mc_passthrough)
	{
		size_t old = p ? PT_SIZE(p) : 0;
		pt_room(n);
		void *q;
		if(!p) ++pt_live;
		q = realloc(p, n);
		if(!q && p && !n) --pt_live;
		if(q || (p && !n)) pt_bytes += (q ? PT_SIZE(q) : 0) - old;
		return q;
	}
	if(!p) return arena_alloc(n, CH_LIB);
	uint32_t id = chunk_at(p);
	if(!id || M.ch[id].kind != CH_LIB) mc_fail("realloc() of an address that is not a live block of the library");
	size_t old = M.ch[id].size;
	void *q = arena_alloc(n, CH_LIB);
	if(!q) return NULL;
	raw_copy(q, p, old < n ? old : n);
	arena_free(p, CH_LIB, "realloc()");
	return q;
}

void *
__wrap_reallocarray(void *p, size_t a, size_t b)
{
	if(b && a > SIZE_MAX / b) { errno = ENOMEM; return NULL; }
	return __wrap_realloc(p, a * b);
}

void *
__wrap_aligned_alloc(size_t al, size_t n)
{
	(void)al;
	return __wrap_malloc(n);
}

int
__wrap_posix_memalign(void **out, size_t al, size_t n)
{
	(void)al;
	void *p = __wrap_malloc(n);
	if(!p) return ENOMEM;
	*out = p;
	return 0;
}

char *
__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = __wrap_malloc(n);
	if(p) memcpy(p, s, n);
	return p;
}

static void
stopped(const char *how)
{
	if(abort_armed)
	{
		abort_armed = false;
		longjmp(abort_jmp, strcmp(how, "abort()") ? 2 : 1);
	}
	mc_fail("the library stopped the process with %s", how);
}

void __wrap_abort(void) { stopped("abort()"); __builtin_unreachable(); }
void __wrap_exit(int rc) { (void)rc; stopped("exit()"); __builtin_unreachable(); }
void __wrap__exit(int rc) { (void)rc; stopped("_exit()"); __builtin_unreachable(); }
void __wrap_err(int rc, const char *f, ...) { (void)rc; (void)f; stopped("err()"); __builtin_unreachable(); }
void __wrap_errx(int rc, const char *f, ...) { (void)rc; (void)f; stopped("errx()"); __builtin_unreachable(); }
void
__wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
	(void)f; (void)l;
	mc_fail("a debug build stops in %s(): assertion '%s' does not hold", fn, e);
}
void __wrap_perror(const char *s) { (void)s; }

long
__wrap_read(int fd, void *buf, size_t n)
{
	if(mc_read_hook) return mc_read_hook(fd, buf, n);
	return read(fd, buf, n);
}

/* ---------------------------------------------------------------- library data segments */
typedef struct { uint8_t *p; size_t n; } Seg;
static Seg segs[16];
static int nsegs;
static size_t segs_total;

static int
phdr_cb(struct dl_phdr_info *i, size_t sz, void *u)
{
	(void)u; (void)sz;
	const char *b = strrchr(i->dlpi_name, '/');
	b = b ? b + 1 : i->dlpi_name;
	if(strncmp(b, "libdt", 5)) return 0;
	uintptr_t ro = 0, roe = 0;
	for(int k = 0; k < i->dlpi_phnum; ++k)
	{
		const ElfW(Phdr) *h = &i->dlpi_phdr[k];
		if(h->p_type == PT_GNU_RELRO)
		{
			ro = i->dlpi_addr + h->p_vaddr;
			roe = ro + h->p_memsz;
		}
	}
	for(int k = 0; k < i->dlpi_phnum; ++k)
	{
		const ElfW(Phdr) *h = &i->dlpi_phdr[k];
		if(h->p_type == PT_LOAD && (h->p_flags & PF_W))
		{
			uintptr_t a = i->dlpi_addr + h->p_vaddr, e = a + h->p_memsz;
			if(ro && ro <= a && roe > a) a = (roe + 7) & ~7UL;
			if(a < e) segs[nsegs++] = (Seg){ (uint8_t *)a, e - a };
		}
		if(h->p_type == PT_TLS && i->dlpi_tls_data && h->p_memsz)
		{
			segs[nsegs++] = (Seg){ i->dlpi_tls_data, h->p_memsz };
		}
	}
	return 1;
}

/* ---------------------------------------------------------------- snapshots */
typedef struct
{
	uint8_t *mem, *shadow, *seg;
	uint16_t *g2c;
	Meta *meta;
	size_t cap;
	uint32_t hw;
	bool used;
} Snap;

static void
snap_take(Snap *s)
{
	arena_purge();
	uint32_t hw = M.hw;
	if(hw > s->cap)
	{
		s->cap = hw + hw / 2 + 64;
		if(s->cap > NGR) s->cap = NGR;
		s->mem = realloc(s->mem, s->cap * GR);
		s->shadow = realloc(s->shadow, s->cap * GR / 8);
		s->g2c = realloc(s->g2c, s->cap * sizeof *s->g2c);
	}
	if(!s->meta) s->meta = malloc(sizeof(Meta));
	if(!s->seg) s->seg = malloc(segs_total + 1);
	raw_copy(s->mem, ARENA, hw * GR);
	raw_copy(s->shadow, SHADOW(ARENA), hw * GR / 8);
	raw_copy(s->g2c, g2c, hw * sizeof *g2c);
	raw_copy(s->meta, &M, offsetof(Meta, order) + M.norder * sizeof M.order[0]);
	raw_copy(s->meta->ch, M.ch, (M.maxid + 1) * sizeof(Chunk));
	size_t o = 0;
	for(int i = 0; i < nsegs; ++i) { raw_copy(s->seg + o, segs[i].p, segs[i].n); o += segs[i].n; }
	s->hw = hw;
	s->used = true;
}

static void
snap_restore(const Snap *s)
{
	uint32_t cur = M.hw;
	/* dead blocks above the high water mark of the last purge */
	for(uint32_t i = 0; i < M.norder; ++i)
	{
		Chunk *c = &M.ch[M.order[i]];
		uint32_t e = c->start + gran_of(c->size) + 1;
		if(e > cur) cur = e;
	}
	uint32_t curmax = M.maxid;
	if(cur > s->hw)
	{
		raw_set(SHADOW(ARENA + s->hw * GR), 0xf7, (cur - s->hw) * GR / 8);
		raw_set(g2c + s->hw, 0, (cur - s->hw) * sizeof *g2c);
	}
	raw_copy(ARENA, s->mem, s->hw * GR);
	raw_copy(SHADOW(ARENA), s->shadow, s->hw * GR / 8);
	raw_copy(g2c, s->g2c, s->hw * sizeof *g2c);
	raw_copy(&M, s->meta, offsetof(Meta, order) + s->meta->norder * sizeof M.order[0]);
	raw_copy(M.ch, s->meta->ch, (M.maxid + 1) * sizeof(Chunk));
	if(curmax > M.maxid) memset(&M.ch[M.maxid + 1], 0, (curmax - M.maxid) * sizeof(Chunk));
	size_t o = 0;
	for(int i = 0; i < nsegs; ++i) { raw_copy(segs[i].p, s->seg + o, segs[i].n); o += segs[i].n; }
}

/* ---------------------------------------------------------------- canonical state hash */
typedef struct { uint64_t a, b; } H128;

static uint32_t visit_no[MAXCH + 1], visit_gen[MAXCH + 1], gen;
static uint16_t vq[MAXCH + 1];
static uint32_t nvq;
static H128 hs;

static inline void
mix(uint64_t v)
{
	hs.a = (hs.a ^ v) * 0x9E3779B97F4A7C15ULL;
	hs.a ^= hs.a >> 29;
	hs.b = (hs.b + v) * 0xC2B2AE3D27D4EB4FULL;
	hs.b ^= hs.b >> 31;
}

static inline uint32_t
visit(uint32_t id)
{
	if(visit_gen[id] != gen)
	{
		visit_gen[id] = gen;
		visit_no[id] = nvq + 1;
		vq[nvq++] = id;
	}
	return visit_no[id];
}

static inline void
mix_word(uint64_t w)
{
	uint64_t o = w - (uint64_t)ARENA;
	if(o < ARENA_SIZE)
	{
		uint32_t g = o / GR;
		uint32_t id = g2c[g];
		if(id)
		{
			mix(0x1000000000000000ULL | (uint64_t)visit(id) << 24 | (o - (uint64_t)M.ch[id].start * GR));
		}
		else if(o < M.host_size)
		{
			mix(0x2000000000000000ULL | o);
		}
		else if(g && g2c[g - 1])
		{
			id = g2c[g - 1];
			mix(0x3000000000000000ULL | (uint64_t)visit(id) << 24 | (o - (uint64_t)M.ch[id].start * GR));
		}
		else
		{
			mix(0x4000000000000000ULL); /* dangling */
		}
	}
	else
	{
		mix(w);
	}
}

static void
mix_range(const uint8_t *p, size_t n)
{
	const uint64_t *w = (const uint64_t *)p;
	size_t k = n / 8;
	for(size_t i = 0; i < k; ++i) mix_word(w[i]);
	if(n % 8)
	{
		uint64_t v = 0;
		memcpy(&v, p + k * 8, n % 8);
		mix(v);
	}
}

void mc_mix(uint64_t v) { mix(v); }

static bool use_abs;
static Sys *S;

static H128
canon(void)
{
	arena_purge();
	hs = (H128){ 0x1234567, 0x89abcdef };
	if(use_abs)
	{
		/* harness-defined abstraction of the state, computed from what the container shows */
		S->abstract();
		return hs;
	}
	++gen;
	nvq = 0;
	mix_range(ARENA, M.host_size);
	for(int i = 0; i < nsegs; ++i) mix_range(segs[i].p, segs[i].n);
	for(uint32_t i = 0; i < nvq; ++i)
	{
		Chunk *c = &M.ch[vq[i]];
		mix(0x5000000000000000ULL | (uint64_t)c->kind << 32 | c->size);
		if(c->kind != CH_AUX) mix_range(ARENA + (size_t)c->start * GR, c->size);
	}
	mix(M.lib_live);
	return hs;
}

/* ---------------------------------------------------------------- options, results */
static int g_argc;
static char **g_argv;

const char *
opts(const char *key, const char *dflt)
{
	size_t n = strlen(key);
	for(int i = 3; i < g_argc; ++i)
	{
		if(!strncmp(g_argv[i], key, n) && g_argv[i][n] == '=') return g_argv[i] + n + 1;
	}
	return dflt;
}

long
opt(const char *key, long dflt)
{
	const char *s = opts(key, NULL);
	return s ? strtol(s, NULL, 0) : dflt;
}

static int out_fd = 1;
static const char *mode;
static long tail_max;
static uint32_t tail_path[16];
static int tail_n;
static uint64_t tail_transitions;

typedef struct { uint32_t parent, op; } Node;
static Node *nodes;
static H128 *hashes;
static uint32_t nnodes, capnodes;
static uint32_t cur_node;
static uint32_t cur_op;
static bool have_op;
static uint32_t *rp_ops;
static int rp_n, rp_i;
static long cur_oom;
static char sw_text[512];
uint64_t sw_cases, sw_steps;
static uint64_t sw_total;
static long sw_only = -1;
static char *notes;
static size_t notes_len;

static void
jstr(int fd, const char *s)
{
	char b[8192];
	size_t k = 0;
	b[k++] = '"';
	for(; *s && k < sizeof b - 8; ++s)
	{
		unsigned char c = *s;
		if(c == '"' || c == '\\') { b[k++] = '\\'; b[k++] = c; }
		else if(c < 32 || c > 126) k += snprintf(b + k, 8, "\\u%04x", c);
		else b[k++] = c;
	}
	b[k++] = '"';
	if(write(fd, b, k) < 0) _exit(3);
}

static void
emit_trace(void)
{
	uint32_t path[4096];
	int n = 0;
	if(!strcmp(mode, "sweep"))
	{
		dprintf(out_fd, "\"trace\":\"case=%lu\",\"history\":[", (unsigned long)sw_total);
		jstr(out_fd, sw_text);
		dprintf(out_fd, "]");
		return;
	}
	if(!strcmp(mode, "replay"))
	{
		n = rp_i;
		memcpy(path, rp_ops, n * sizeof *path);
	}
	else
	{
		uint32_t tmp[4096];
		uint32_t k = cur_node;
		int m = 0;
		while(k && m < 4000) { tmp[m++] = nodes[k].op; k = nodes[k].parent; }
		while(m) path[n++] = tmp[--m];
		if(have_op) path[n++] = cur_op;
		for(int i = 0; i < tail_n; ++i) path[n++] = tail_path[i];
	}
	dprintf(out_fd, "\"trace\":\"");
	for(int i = 0; i < n; ++i) dprintf(out_fd, "%s%u", i ? "," : "", path[i]);
	dprintf(out_fd, "\",\"oom\":%ld,\"history\":[", cur_oom);
	for(int i = 0; i < n; ++i)
	{
		char d[256] = "";
		S->describe(path[i], d, sizeof d);
		if(i) dprintf(out_fd, ",");
		jstr(out_fd, d);
	}
	dprintf(out_fd, "]");
}

static bool failed;

static void
emit_violation(const char *msg)
{
	if(failed) return;
	failed = true;
	dprintf(out_fd, "{\"violation\":");
	jstr(out_fd, msg);
	dprintf(out_fd, ",\"phase\":");
	jstr(out_fd, mc_phase);
	dprintf(out_fd, ",");
	emit_trace();
	dprintf(out_fd, "}\n");
}

void
mc_fail(const char *fmt, ...)
{
	char msg[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(msg, sizeof msg, fmt, ap);
	va_end(ap);
	emit_violation(msg);
	_exit(1);
}

void __sanitizer_set_death_callback(void (*)(void));
const char *__asan_get_report_description(void);
int __asan_report_present(void);

static void
death(void)
{
	char msg[256];
	snprintf(msg, sizeof msg, "memory error: %s",
		__asan_report_present() ? __asan_get_report_description() : "fatal signal");
	emit_violation(msg);
}

/* an operation that burns stall_limit seconds of CPU, or is blocked for six times as long, does not end */
static int stall_limit;

static void
on_tick(int sig)
{
	static uint64_t last[2];
	static int stalled[2];
	int k = sig == SIGALRM;
	if(mc_progress != last[k])
	{
		last[k] = mc_progress;
		stalled[k] = 0;
	}
	else if(++stalled[k] >= stall_limit * (k ? 6 : 1))
	{
		emit_violation("an operation does not terminate");
		_exit(1);
	}
}

/* wall-clock budget: what has not been covered when it ends is reported as such */
static struct timespec t_start;
static uint64_t sw_skipped;

static bool
out_of_time(void)
{
	static long secs = -1;
	struct timespec t;
	if(secs < 0) secs = opt("secs", 0);
	if(!secs) return false;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec - t_start.tv_sec >= secs;
}

void
sw_note(const char *fmt, ...)
{
	char b[512];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	if(notes_len > 4000) return;
	notes = realloc(notes, notes_len + n + 2);
	memcpy(notes + notes_len, b, n);
	notes_len += n;
	notes[notes_len++] = '\n';
	notes[notes_len] = 0;
}

void
sw_case(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(sw_text, sizeof sw_text, fmt, ap);
	va_end(ap);
	++mc_progress;
}

/* cases are numbered; shard i of n takes every n-th, a replay exactly one */
bool
sw_selected(void)
{
	static long shard = -1, shards;
	if(shard < 0) { shard = opt("shard", 0); shards = opt("shards", 1); }
	++sw_total;
	++mc_progress;
	if(sw_only >= 0) return (long)sw_total == sw_only;
	if((long)(sw_total % shards) != shard) return false;
	if(sw_skipped || out_of_time())
	{
		++sw_skipped;
		return false;
	}
	++sw_cases;
	return true;
}

/* ---------------------------------------------------------------- visited set */
static uint32_t *table;
static uint64_t tmask;

static bool
visited_add(H128 h, uint32_t *idx)
{
	if(((uint64_t)nnodes + 1) * 2 > tmask)
	{
		uint64_t n = tmask ? (tmask + 1) * 2 : 1 << 16;
		free(table);
		table = calloc(n, sizeof *table);
		tmask = n - 1;
		for(uint32_t i = 0; i < nnodes; ++i)
		{
			uint64_t k = hashes[i].a & tmask;
			while(table[k]) k = (k + 1) & tmask;
			table[k] = i + 1;
		}
	}
	uint64_t k = h.a & tmask;
	while(table[k])
	{
		H128 *o = &hashes[table[k] - 1];
		if(o->a == h.a && o->b == h.b) { *idx = table[k] - 1; return false; }
		k = (k + 1) & tmask;
	}
	if(nnodes == capnodes)
	{
		capnodes = capnodes ? capnodes * 2 : 1 << 14;
		nodes = realloc(nodes, capnodes * sizeof *nodes);
		hashes = realloc(hashes, capnodes * sizeof *hashes);
		if(!nodes || !hashes) { fprintf(stderr, "mc: out of memory\n"); _exit(3); }
	}
	hashes[nnodes] = h;
	table[k] = nnodes + 1;
	*idx = nnodes++;
	return true;
}

/* ---------------------------------------------------------------- running operations */
static void
do_init(void)
{
	arena_reset(S->host_size);
	lib_allocs = 0;
	mc_phase = "create";
	S->init();
	arena_purge();
}

static void
do_apply(uint32_t op)
{
	lib_allocs = 0;
	mc_phase = "operation";
	++mc_progress;
	S->apply(op);
	arena_purge();
}

static uint64_t n_oom, n_oom_ops;

/* fail the k-th allocation of the operation, for every k; state before is `before` */
static void
oom_op(const Snap *before, uint32_t op, uint64_t allocs, bool creating)
{
	if(!allocs) return;
	++n_oom_ops;
	for(volatile uint64_t k = 1; k <= allocs; ++k)
	{
		if(creating) { arena_reset(S->host_size); }
		else snap_restore(before);
		fail_at = k;
		fail_fired = false;
		lib_allocs = 0;
		cur_oom = k;
		++mc_progress;
		mc_phase = "operation with failing allocation";
		abort_armed = true;
		int rc = setjmp(abort_jmp);
		if(!rc)
		{
			if(creating) S->init();
			else S->apply(op);
			abort_armed = false;
			fail_at = 0;
			mc_fail("allocation %lu of the operation failed, but the operation returned (%s)",
				(unsigned long)k, fail_fired ? "failure was delivered" : "failure not reached: nondeterminism?");
		}
		fail_at = 0;
		abort_armed = false;
		if(rc != 1) mc_fail("failed allocation %lu ended the process other than by abort()", (unsigned long)k);
		if(!fail_fired) mc_fail("abort() before the allocation failed");
		++n_oom;
		++mc_cnt_checks;
	}
	cur_oom = 0;
}

static void
describe_node(uint32_t n, char *out, size_t cap)
{
	uint32_t ops[512];
	int m = 0;
	while(n && m < 512) { ops[m++] = nodes[n].op; n = nodes[n].parent; }
	size_t k = 0;
	out[0] = 0;
	while(m && k + 80 < cap)
	{
		char d[256] = "";
		S->describe(ops[--m], d, sizeof d);
		k += snprintf(out + k, cap - k, "%s%s", k ? "; " : "", d);
	}
	if(m) snprintf(out + k, cap - k, "; ...");
}

/* all operation sequences of length tail_max from the current state, without identifying states */
static void
tail_dfs(int level)
{
	static Snap at[16], ob[16];
	uint32_t *ops = malloc(MC_MAX_OPS * sizeof *ops);
	snap_take(&at[level]);
	int n = S->ops(ops);
	for(int i = 0; i < n; ++i)
	{
		if(i) snap_restore(&at[level]);
		tail_path[level] = ops[i];
		tail_n = level + 1;
		do_apply(ops[i]);
		++tail_transitions;
		if(level > 0)
		{
			/* level 0 results are ordinary successors */
			snap_take(&ob[level]);
			mc_phase = "observe";
			S->observe();
			snap_restore(&ob[level]);
			if(level + 1 == tail_max)
			{
				mc_phase = "destroy";
				S->finish();
				continue;
			}
		}
		if(level + 1 < tail_max) tail_dfs(level + 1);
	}
	tail_n = level;
	free(ops);
}

static int
run_bfs(void)
{
	long max_depth = opt("depth", 1000000);
	long max_states = opt("states", 2000000000L);
	bool oom = opt("oom", 0);
	tail_max = opt("tail", 0);
	static Snap P, C, T;
	static uint32_t ops[MC_MAX_OPS];
	uint64_t transitions = 0, replayed = 0, observed = 0, mismatches = 0;
	uint32_t depth_of_prev = 0, maxdepth = 0;
	uint32_t cached_parent = UINT32_MAX;
	uint32_t idx;
	bool capped = false, cut = false;
	uint32_t expanded = 0;

	do_init();
	if(oom)
	{
		uint64_t a = lib_allocs;
		oom_op(NULL, 0, a, true);
		do_init();
	}
	static Snap I;
	snap_take(&I);
	H128 h = canon();
	visited_add(h, &idx);
	nodes[0] = (Node){ 0, 0 };
	mc_phase = "observe";
	S->observe();
	++observed;
	snap_restore(&I);
	mc_phase = "destroy";
	S->finish();

	uint16_t *depths = NULL;
	size_t dcap = 0;

	for(uint32_t s = 0; s < nnodes; ++s)
	{
		/* re-create state s */
		have_op = false;
		if(out_of_time())
		{
			capped = cut = true;
			break;
		}
		++expanded;
		if(s == 0)
		{
			snap_restore(&I);
		}
		else
		{
			uint32_t p = nodes[s].parent;
			if(p != cached_parent)
			{
				uint32_t path[65536];
				int n = 0;
				uint32_t k = p;
				while(k) { path[n++] = nodes[k].op; k = nodes[k].parent; }
				snap_restore(&I);
				cur_node = p;
				while(n) do_apply(path[--n]);
				H128 hp = canon();
				if(hp.a != hashes[p].a || hp.b != hashes[p].b) ++mismatches;
				else ++replayed;
				snap_take(&P);
				cached_parent = p;
			}
			else
			{
				snap_restore(&P);
			}
			cur_node = p;
			cur_op = nodes[s].op;
			have_op = true;
			do_apply(nodes[s].op);
			have_op = false;
			H128 hp = canon();
			if(hp.a != hashes[s].a || hp.b != hashes[s].b) ++mismatches;
			else ++replayed;
		}
		snap_take(&C);
		cur_node = s;
		if(nnodes > dcap) { dcap = capnodes; depths = realloc(depths, dcap * sizeof *depths); }
		if(s == 0) depths[0] = 0;
		if(depths[s] > maxdepth) maxdepth = depths[s];
		depth_of_prev = depths[s];
		if(depth_of_prev >= max_depth) { capped = true; continue; }

		if(tail_max > 1)
		{
			tail_dfs(0);
			tail_n = 0;
			snap_restore(&C);
		}
		int n = S->ops(ops);
		for(int i = 0; i < n; ++i)
		{
			if(i) snap_restore(&C);
			cur_op = ops[i];
			have_op = true;
			do_apply(ops[i]);
			uint64_t allocs = lib_allocs;
			++transitions;
			H128 hn = canon();
			if((long)nnodes >= max_states)
			{
				capped = true;
			}
			else if(visited_add(hn, &idx))
			{
				nodes[idx] = (Node){ s, ops[i] };
				if(nnodes > dcap) { dcap = capnodes; depths = realloc(depths, dcap * sizeof *depths); }
				depths[idx] = depth_of_prev + 1;
				snap_take(&T);
				mc_phase = "observe";
				S->observe();
				++observed;
				snap_restore(&T);
				mc_phase = "destroy";
				S->finish();
			}
			if(oom) oom_op(&C, ops[i], allocs, false);
		}
	}
	have_op = false;

	dprintf(out_fd, "{\"harness\":\"%s\",\"mode\":\"bfs\",\"states\":%u,\"transitions\":%lu,\"observed\":%lu,"
		"\"checks\":%lu,\"replayed\":%lu,\"mismatches\":%lu,\"depth\":%u,\"expanded\":%u,\"cut\":%s,\"fixpoint\":%s,\"oom_injections\":%lu,\"oom_ops\":%lu,\"samples\":[",
		S->name, nnodes, transitions + tail_transitions, observed, mc_cnt_checks, replayed, mismatches, cut ? maxdepth - 1 : maxdepth, expanded, cut ? "true" : "false", capped ? "false" : "true",
		n_oom, n_oom_ops);
	for(int k = 1; k <= 2; ++k)
	{
		char buf[600];
		uint32_t n = nnodes > 2 ? (k == 1 ? nnodes / 2 : nnodes - 1) : nnodes - 1;
		describe_node(n, buf, sizeof buf);
		if(k > 1) dprintf(out_fd, ",");
		jstr(out_fd, buf);
	}
	dprintf(out_fd, "]}\n");
	return 0;
}

static int
run_replay(const char *trace)
{
	static uint32_t ops[65536];
	static Snap B, T;
	int n = 0;
	long oom = opt("failalloc", 0);
	for(const char *p = trace; *p; )
	{
		ops[n++] = strtoul(p, (char **)&p, 10);
		if(*p == ',') ++p;
	}
	rp_ops = ops;
	rp_n = n;
	rp_i = 0;
	bool all_oom = opt("oom", 0);
	do_init();
	if(all_oom && (n == 0 || oom))
	{
		uint64_t a = lib_allocs;
		if(n == 0) oom_op(NULL, 0, a, true);
		do_init();
	}
	for(int i = 0; i <= n; ++i)
	{
		snap_take(&T);
		mc_phase = "observe";
		S->observe();
		snap_restore(&T);
		if(i == n)
		{
			mc_phase = "destroy";
			S->finish();
			break;
		}
		rp_i = i + 1;
		snap_take(&B);
		do_apply(ops[i]);
		if(all_oom && i == n - 1)
		{
			uint64_t a = lib_allocs;
			oom_op(&B, ops[i], a, false);
			snap_restore(&B);
			do_apply(ops[i]);
		}
	}
	dprintf(out_fd, "{\"harness\":\"%s\",\"mode\":\"replay\",\"ok\":true}\n", S->name);
	return 0;
}

const char *
__asan_default_options(void)
{
	return "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0";
}

int
main(int argc, char **argv)
{
	if(argc < 3) { fprintf(stderr, "usage\n"); return 2; }
	g_argc = argc;
	g_argv = argv;
	clock_gettime(CLOCK_MONOTONIC, &t_start);
	mode = argv[2];
	const char *out = opts("out", NULL);
	if(out)
	{
		out_fd = open(out, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
		if(out_fd < 0) { perror("out"); return 3; }
	}
	if(opt("quiet", 1))
	{
		int fd = open("/dev/null", O_WRONLY);
		if(fd >= 0 && opts("keepstderr", NULL) == NULL)
		{
			static char big[1 << 16];
			dup2(fd, 2);
			setvbuf(stderr, big, _IOFBF, sizeof big);
		}
	}
	const Harness *h = NULL;
	for(int i = 0; harnesses[i]; ++i) if(!strcmp(harnesses[i]->name, argv[1])) h = harnesses[i];
	if(!h) { dprintf(out_fd, "{\"error\":\"unknown harness\"}\n"); return 3; }

	void *a = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
	if(a != ARENA) { dprintf(out_fd, "{\"error\":\"arena mmap\"}\n"); return 3; }
	dl_iterate_phdr(phdr_cb, NULL);
	for(int i = 0; i < nsegs; ++i) segs_total += segs[i].n;
	if(!nsegs) { dprintf(out_fd, "{\"error\":\"library not found\"}\n"); return 3; }

	__sanitizer_set_death_callback(death);
	stall_limit = opt("stall", 30);
	struct sigaction sa = { .sa_handler = on_tick, .sa_flags = SA_RESTART | SA_ONSTACK };
	sigaction(SIGVTALRM, &sa, NULL);
	struct itimerval it = { { 1, 0 }, { 1, 0 } };
	setitimer(ITIMER_VIRTUAL, &it, NULL);
	sigaction(SIGALRM, &sa, NULL);
	setitimer(ITIMER_REAL, &it, NULL);

	if(!strcmp(mode, "sweep"))
	{
		mc_passthrough = true;
		sw_only = opt("case", -1);
		mc_phase = "sweep";
		h->sweep();
		dprintf(out_fd, "{\"harness\":\"%s\",\"mode\":\"sweep\",\"cases\":%lu,\"skipped\":%lu,\"steps\":%lu,\"checks\":%lu,\"last_case\":",
			h->name, sw_cases, sw_skipped, sw_steps, mc_cnt_checks);
		jstr(out_fd, sw_text);
		dprintf(out_fd, ",\"notes\":");
		jstr(out_fd, notes ? notes : "");
		dprintf(out_fd, "}\n");
		return 0;
	}
	S = h->bfs();
	if(S->host_size > ARENA_SIZE / 2) { dprintf(out_fd, "{\"error\":\"host too big\"}\n"); return 3; }
	use_abs = opt("abs", 0) && S->abstract;
	if(!strcmp(mode, "replay"))
	{
		return run_replay(opts("trace", ""));
	}
	return run_bfs();
}
