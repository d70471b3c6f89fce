/* stack, queue and (single threaded) asynchronous queue against a reference sequence */
#include "common.h"

enum { STACK, QUEUE, ASYNC };
static int kind2[2], ninst, cur, form, poolmode;
static bool fd_, nulls, clr, nested;
static long cap, callbacks;

typedef struct
{
	void *c, *storage;
	uint64_t n;
	Tok **m;       /* in order of insertion */
	Tok *store[];
} Host;
typedef struct { RecPool *pool; } Shared;
static Shared *sw_shared;
static Host *sw_host;
static size_t host_bytes;
static Shared *SH(void) { return mc_passthrough ? sw_shared : mc_host; }
static Host *H(void) { return mc_passthrough ? sw_host : (Host *)((char *)mc_host + sizeof(Shared) + cur * host_bytes); }
static int K(void) { return kind2[cur]; }

static void *
c_new(void)
{
	FreeFunc f = fd_ ? cb_free_val : NULL;
	Pool *p = SH()->pool ? &SH()->pool->base : NULL;
	if(form == 0)
	{
		switch(K())
		{
			case STACK: return stack_new(cb_compare, f, p);
			case QUEUE: return queue_new(cb_compare, f, p);
			default: return async_queue_new(cb_compare, f, p);
		}
	}
	size_t n = K() == ASYNC ? sizeof(AsyncQueue) : K() == STACK ? sizeof(Stack) : sizeof(Queue);
	void *s = h_alloc(n, CH_HOST);
	memset(s, form == 1 ? 0xA5 : form == 3 ? 0 : 0xFF, n);
	H()->storage = s;
	switch(K())
	{
		case STACK: stack_init((Stack *)s, cb_compare, f, p); break;
		case QUEUE: queue_init((Queue *)s, cb_compare, f, p); break;
		default: async_queue_init(s, cb_compare, f, p); break;
	}
	return s;
}

static void
c_end(void)
{
	void *c = H()->c;
	switch(K())
	{
		case STACK: if(form) stack_free((Stack *)c); else stack_destroy((Stack *)c); break;
		case QUEUE: if(form) queue_free((Queue *)c); else queue_destroy((Queue *)c); break;
		default: if(form) async_queue_free(c); else async_queue_destroy(c); break;
	}
}

static void
c_push(void *d)
{
	void *c = H()->c;
	switch(K())
	{
		case STACK: stack_push((Stack *)c, d); break;
		case QUEUE: queue_push((Queue *)c, d); break;
		default: async_queue_push(c, d); break;
	}
}

static bool
c_pop(void **d)
{
	void *c = H()->c;
	switch(K())
	{
		case STACK: return stack_pop(c, d);
		case QUEUE: return queue_pop(c, d);
		default: return async_queue_pop(c, (void *)d);
	}
}

static size_t
c_count(void)
{
	void *c = H()->c;
	switch(K())
	{
		case STACK: return stack_count((Stack *)c);
		case QUEUE: return queue_count((Queue *)c);
		default: return async_queue_count(c);
	}
}

static void
c_clear(void)
{
	void *c = H()->c;
	switch(K())
	{
		case STACK: stack_clear((Stack *)c); break;
		case QUEUE: queue_clear((Queue *)c); break;
		default: async_queue_clear(c); break;
	}
}

static Tok *gone[8];
static int ngone, gone_base;
static void settle(void) { ev_verify(); while(ngone > gone_base) tok_drop(gone[--ngone]); }

static void
pool_ok(void)
{
	if(!SH()->pool || !(flags & F_POOL)) return;
	uint64_t n = 0;
	int keep = cur;
	for(cur = 0; cur < ninst; ++cur) n += H()->n;
	cur = keep;
	CHECK(SH()->pool->live == n, "%u pool items in use for %lu stored elements", SH()->pool->live, (unsigned long)n);
}

static void
do_push(bool null)
{
	Host *h = H();
	Tok *d = null ? NULL : tok_new(T_VAL, 0);
	c_push(d);
	h->m[h->n++] = d;
	settle();
}

static uint64_t next_index(void) { return K() == STACK ? H()->n - 1 : 0; }

static void
do_pop(void)
{
	Host *h = H();
	static char junk;
	void *got = &junk;
	if(K() == ASYNC && !h->n) return; /* would block */
	bool ok = c_pop(&got);
	if(flags & F_FUNC) CHECK(ok == (h->n > 0), "pop reports %d with %lu elements", ok, (unsigned long)h->n);
	if(h->n)
	{
		uint64_t i = next_index();
		Tok *want = h->m[i];
		if(flags & F_FUNC) CHECK(got == want, "pop yields the wrong element");
		if(i) h->m[i] = NULL;
		else if(mc_passthrough) ++h->m;
		else { memmove(&h->m[0], &h->m[1], (h->n - 1) * sizeof *h->m); h->m[h->n - 1] = NULL; }
		--h->n;
		if(want) gone[ngone++] = want;
	}
	else if(flags & F_FUNC) CHECK(got == NULL, "pop of an empty container does not store NULL");
	settle();
}

static void
do_head(void)
{
	Host *h = H();
	static char junk;
	void *got = &junk;
	if(K() == ASYNC) return;
	bool ok;
	void *c = h->c;
	if(K() == STACK) ok = stack_head((Stack *)c, &got);
	else
	{
		/* as documented, queue_head() takes the same arguments as stack_head() */
#if HAVE_QUEUE_HEAD
		ok = queue_head((Queue *)c, &got);
#else
		ok = stack_head((Stack *)c, &got);
#endif
	}
	if(flags & F_FUNC)
	{
		CHECK(ok == (h->n > 0), "head reports %d with %lu elements", ok, (unsigned long)h->n);
		if(h->n) CHECK(got == h->m[next_index()], "head yields the wrong element");
	}
	settle();
}

static void
drop_all(void)
{
	Host *h = H();
	for(uint64_t i = 0; i < h->n; ++i)
	{
		if(h->m[i]) { if(fd_ && (flags & F_OWN)) ev_expect(h->m[i]); else tok_drop(h->m[i]); }
		h->m[i] = NULL;
	}
	h->n = 0;
	h->m = h->store;
}

static void do_clear(void) { c_clear(); drop_all(); settle(); }

enum { O_PUSH, O_PUSHNULL, O_POP, O_HEAD, O_COUNT, O_CLEAR };

static void
init_all(void)
{
	ev_reset();
	ngone = gone_base = 0;
	cb_hook = NULL;
	if(poolmode) SH()->pool = rec_pool_new(poolmode, sizeof(SListItem), ninst * cap + 4);
	for(cur = ninst - 1; cur > 0; --cur) { H()->m = H()->store; H()->c = c_new(); }
	H()->m = H()->store;
	H()->c = c_new();
}

static int
ops1(uint32_t *out)
{
	int n = 0;
	if(H()->n < (uint64_t)cap) { out[n++] = O_PUSH; if(nulls) out[n++] = O_PUSHNULL; }
	out[n++] = O_POP;
	out[n++] = O_HEAD;
	out[n++] = O_COUNT;
	if(clr) out[n++] = O_CLEAR;
	return n;
}

static void
apply1(uint32_t op)
{
	switch(op & 7)
	{
		case O_PUSH: do_push(false); break;
		case O_PUSHNULL: do_push(true); break;
		case O_POP: do_pop(); break;
		case O_HEAD: do_head(); break;
		case O_COUNT: { size_t n = c_count(); if(flags & F_FUNC) CHECK(n == H()->n, "count is %lu, expected %lu", (unsigned long)n, (unsigned long)H()->n); break; }
		case O_CLEAR: do_clear(); break;
	}
}

static uint32_t opa, opb;
static int ia;
static void run_a(void) { cur = ia; apply1(opa); }
static void
run_b(void)
{
	int c = cur, g = gone_base;
	cur = !ia;
	gone_base = ngone;
	apply1(opb);
	cur = c;
	gone_base = g;
}

static int
s_ops(uint32_t *out)
{
	static uint32_t a[2][64];
	int n[2], k = 0;
	if(ninst == 1) return ops1(out);
	for(cur = 0; cur < 2; ++cur) n[cur] = ops1(a[cur]);
	cur = 0;
	for(int w = 0; w < 2; ++w)
	for(int i = 0; i < n[w]; ++i)
	{
		if(!nested) { out[k++] = a[w][i] | w << 3; continue; }
		for(int j = 0; j < n[!w]; ++j) for(int d = 0; d < callbacks; ++d) out[k++] = a[w][i] | w << 3 | a[!w][j] << 4 | d << 8;
	}
	return k;
}

static void
s_apply(uint32_t op)
{
	if(nested)
	{
		ia = op >> 3 & 1;
		opa = op & 7;
		opb = op >> 4 & 7;
		nest_run(op >> 8 & 15, run_a, run_b);
	}
	else
	{
		cur = op >> 3 & 1;
		apply1(op);
	}
	cur = 0;
	pool_ok();
}

/* drains a copy (the engine rolls back): every element comes out in order */
static void
drain(void)
{
	for(cur = ninst - 1; cur >= 0; --cur)
	{
		if(flags & F_FUNC) CHECK(c_count() == H()->n, "count is %lu, expected %lu", (unsigned long)c_count(), (unsigned long)H()->n);
		do_head();
		uint64_t n = H()->n;
		for(uint64_t i = 0; i <= n + 1; ++i)
		{
			do_pop();
			do_head();
			if(flags & F_FUNC) CHECK(c_count() == H()->n, "count is %lu, expected %lu", (unsigned long)c_count(), (unsigned long)H()->n);
		}
	}
	cur = 0;
	pool_ok();
}

static void
s_finish(void)
{
	for(cur = ninst - 1; cur >= 0; --cur)
	{
		c_end();
		drop_all();
		settle();
		pool_ok();
		if(H()->storage) h_free(H()->storage);
	}
	cur = 0;
	if(SH()->pool)
	{
		if(flags & F_POOL) CHECK(SH()->pool->live == 0, "%u pool items were not returned when the containers were freed", SH()->pool->live);
		rec_pool_destroy(SH()->pool);
	}
	if(flags & F_MEM) CHECK(mc_lib_live() == 0, "%lu blocks were not given back", (unsigned long)mc_lib_live());
}

static void
s_describe(uint32_t op, char *b, size_t n)
{
	static const char *nm[] = { "push", "push(NULL)", "pop", "head", "count", "clear" };
	if(nested) snprintf(b, n, "%c.%s with %s on the other in its callback #%u", op >> 3 & 1 ? 'B' : 'A', nm[op & 7], nm[op >> 4 & 7], op >> 8 & 15);
	else snprintf(b, n, "%s%s", ninst == 2 ? (op >> 3 & 1 ? "B." : "A.") : "", nm[op & 7]);
}

static void
s_abstract(void)
{
	for(cur = ninst - 1; cur >= 0; --cur)
	{
		mc_mix(H()->n);
		for(uint64_t i = 0; i < H()->n; ++i) mc_mix(H()->m[i] != NULL);
	}
	cur = 0;
}

static int
kind_of(const char *s)
{
	return !strncmp(s, "stack", 5) ? STACK : !strncmp(s, "queue", 5) ? QUEUE : ASYNC;
}

static void
options(void)
{
	const char *k = opts("kind", "stack");
	const char *p = strchr(k, '+');
	ninst = p ? 2 : 1;
	kind2[0] = kind_of(k);
	kind2[1] = p ? kind_of(p + 1) : 0;
	form = opt("form", 0);
	fd_ = opt("fd", 0);
	poolmode = opt("pool", 0);
	cap = opt("cap", 5);
	nulls = opt("null", 1);
	clr = opt("clear", 1);
	nested = opt("nest", 0);
	callbacks = opt("callbacks", 3);
	parse_flags();
}

static Sys sys = { "sq", 0, init_all, s_ops, s_apply, drain, s_finish, s_describe, s_abstract };

static Sys *
s_bfs(void)
{
	options();
	host_bytes = sizeof(Host) + (cap + 2) * sizeof(Tok *);
	sys.host_size = sizeof(Shared) + ninst * host_bytes;
	return &sys;
}

/* lengths: n pushes, m pops, repeated; clear; everything again */
static void
s_sweep(void)
{
	options();
	int64_t lo = opt("from", 0), hi = opt("to", 64), step = opt("step", 1);
	for(int64_t n = lo; n <= hi; n += step)
	for(int v = 0; v < 6; ++v)
	{
		if(!sw_selected()) continue;
		sw_case("%s: %ld elements, variant %d", opts("kind", "stack"), (long)n, v);
		ninst = 1;
		cap = 4 * n + 8;
		sw_shared = calloc(1, sizeof *sw_shared);
		sw_host = calloc(1, sizeof(Host) + (cap + 2) * sizeof(Tok *));
		init_all();
		Host *h = H();
		for(int round = 0; round < 3; ++round)
		{
			for(int64_t i = 0; i < n; ++i)
			{
				do_push(nulls && i % 5 == 3);
				if(v & 1 && i % 3 == 2) do_pop();
				if(i % 7 == 0) do_head();
				++sw_steps;
				++mc_progress;
			}
			pool_ok();
			if(flags & F_FUNC) CHECK(c_count() == h->n, "count is %lu, expected %lu", (unsigned long)c_count(), (unsigned long)h->n);
			if(v < 2) { while(h->n) do_pop(); if(K() != ASYNC) do_head(); do_pop(); }
			else if(v < 4) do_clear();
			else for(int64_t i = 0; i < n / 2; ++i) do_pop();
			pool_ok();
			if(flags & F_FUNC) CHECK(c_count() == h->n, "count is %lu, expected %lu", (unsigned long)c_count(), (unsigned long)h->n);
			if(h->n > (uint64_t)n) do_clear();
		}
		s_finish();
		free(sw_host);
		free(sw_shared);
	}
}

const Harness h_sq = { "sq", s_bfs, s_sweep };
