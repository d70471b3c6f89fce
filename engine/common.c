#include "common.h"

int flags = F_FUNC;

void
parse_flags(void)
{
	const char *s = opts("check", "func");
	flags = 0;
	if(strstr(s, "func")) flags |= F_FUNC;
	if(strstr(s, "own")) flags |= F_OWN;
	if(strstr(s, "mem")) flags |= F_MEM;
	if(strstr(s, "bal")) flags |= F_BAL;
	if(strstr(s, "iter")) flags |= F_ITER;
	if(strstr(s, "pool")) flags |= F_POOL;
}

Tok *
tok_new(int kind, int64_t label)
{
	Tok *t = h_alloc(sizeof *t, CH_HOST);
	*t = (Tok){ TOK_MAGIC, label, kind };
	return t;
}

void
tok_drop(Tok *t)
{
	if(!t) return;
	t->magic = TOK_DEAD;
	h_free(t);
}

static bool
looks_alive(const void *p)
{
	const Tok *t = p;
	if(!p) return false;
	if(!mc_readable(p, sizeof *t)) return false;
	return t->magic == TOK_MAGIC;
}

void
tok_check(const void *p, const char *who)
{
	++mc_cnt_checks;
	if(!looks_alive(p)) mc_fail("%s callback was given an object that is no longer (or never was) stored", who);
}

/* ---- release events */
#define MAXEV (1 << 20)
static Tok *expected[MAXEV];
static Tok *seen[MAXEV];
static int nexp, nseen;
static int bexp, bseen;                /* where the current (possibly nested) operation starts */
uint64_t cmp_calls;
void (*cb_hook)(const char *which);

void
ev_reset(void)
{
	nexp = nseen = bexp = bseen = 0;
}

void
ev_expect(Tok *t)
{
	if(t && nexp < MAXEV) expected[nexp++] = t;
}

/* run b at the k-th callback made during a, or after it when there are fewer */
static struct
{
	int left;
	bool armed, done;
	void (*b)(void);
} nest;

static void
nest_hook(const char *which)
{
	(void)which;
	if(!nest.armed || nest.left--) return;
	nest.armed = false;
	nest.done = true;
	int e = bexp, s = bseen;
	uint64_t c = cmp_calls;
	bexp = nexp;
	bseen = nseen;
	nest.b();
	bexp = e;
	bseen = s;
	cmp_calls = c;
}

void
nest_run(int k, void (*a)(void), void (*b)(void))
{
	nest.left = k;
	nest.armed = true;
	nest.done = false;
	nest.b = b;
	cb_hook = nest_hook;
	a();
	cb_hook = NULL;
	nest.armed = false;
	if(!nest.done) b();
}

static int
pcmp(const void *a, const void *b)
{
	uintptr_t x = *(uintptr_t *)a, y = *(uintptr_t *)b;
	return (x > y) - (x < y);
}

void
ev_verify(void)
{
	if(flags & F_OWN)
	{
		qsort(expected + bexp, nexp - bexp, sizeof *expected, pcmp);
		qsort(seen + bseen, nseen - bseen, sizeof *seen, pcmp);
		int i = bexp, j = bseen;
		while(i < nexp || j < nseen)
		{
			++mc_cnt_checks;
			if(j >= nseen || (i < nexp && expected[i] < seen[j]))
				mc_fail("an object that had to be released by this operation was not (%s label %ld; %d expected, %d released)",
					expected[i]->kind == T_KEY ? "key" : "value/element", (long)expected[i]->label, nexp - bexp, nseen - bseen);
			if(i >= nexp || seen[j] < expected[i])
				mc_fail("an object that must not be released by this operation was (%s label %ld; %d expected, %d released)",
					seen[j]->kind == T_KEY ? "key" : "value/element", (long)seen[j]->label, nexp - bexp, nseen - bseen);
			++i, ++j;
		}
		for(j = bseen; j < nseen; ++j) h_free(seen[j]);
	}
	nexp = bexp;
	nseen = bseen;
}

static void
released(void *p, int kind)
{
	if(!(flags & F_OWN)) return;
	++mc_cnt_checks;
	if(!p) mc_fail("release callback was given NULL");
	if(!looks_alive(p)) mc_fail("release callback was given an object that was already released or never stored");
	Tok *t = p;
	if((int)t->kind != kind) mc_fail("an object was passed to the wrong release function (key/value mixed up)");
	t->magic = TOK_DEAD;
	if(nseen < MAXEV) seen[nseen++] = t;
}

void
cb_free_key(void *p)
{
	if(cb_hook) cb_hook("free_key");
	released(p, T_KEY);
}

void
cb_free_val(void *p)
{
	if(cb_hook) cb_hook("free_value");
	released(p, T_VAL);
}

int32_t
cb_compare(const void *a, const void *b)
{
	++cmp_calls;
	if(cb_hook) cb_hook("compare");
	if(!a || !b) return (a != NULL) - (b != NULL);
	tok_check(a, "compare");
	tok_check(b, "compare");
	int64_t x = ((const Tok *)a)->label, y = ((const Tok *)b)->label;
	/* any sign-correct value is a legal answer; use large ones to expose truncation */
	return x < y ? INT32_MIN : x > y ? INT32_MAX : 0;
}

bool
cb_equal(const void *a, const void *b)
{
	++cmp_calls;
	if(cb_hook) cb_hook("equal");
	tok_check(a, "equality");
	tok_check(b, "equality");
	return ((const Tok *)a)->label == ((const Tok *)b)->label;
}

/* ---- pools */
static void *
rp_alloc(Pool *base)
{
	RecPool *p = (RecPool *)base;
	if(cb_hook) cb_hook("pool alloc");
	void *item = p->inner ? p->inner->alloc(p->inner) : h_alloc(p->item_size, CH_POOL);
	if(flags & F_POOL)
	{
		for(uint32_t i = 0; i < p->live; ++i)
			CHECK(p->item[i] != item, "pool handed out an item that is in use");
	}
	if(p->live >= p->cap) mc_fail("more pool items in use than elements can be stored: items are not returned");
	p->item[p->live++] = item;
	return item;
}

static void
rp_free(Pool *base, void *item)
{
	RecPool *p = (RecPool *)base;
	if(cb_hook) cb_hook("pool free");
	uint32_t i = 0;
	while(i < p->live && p->item[i] != item) ++i;
	CHECK(i < p->live, "an item was returned to a pool that had not handed it out (or twice)");
	p->item[i] = p->item[--p->live];
	if(p->inner)
	{
		p->inner->free(p->inner, item);
	}
	else
	{
		h_free(item);
	}
}

RecPool *
rec_pool_new(int mode, size_t item_size, uint32_t cap)
{
	RecPool *p = h_alloc(sizeof *p, CH_HOST);
	memset(p, 0, sizeof *p);
	p->item = h_alloc((cap + 1) * sizeof(void *), CH_AUX);
	p->base.alloc = rp_alloc;
	p->base.free = rp_free;
	p->item_size = item_size;
	p->cap = cap;
	if(mode > 1) p->inner = (Pool *)memory_pool_new(item_size, mode);
	return p;
}

void
rec_pool_destroy(RecPool *p)
{
	if(p->inner) memory_pool_destroy((MemoryPool *)p->inner);
	h_free(p->item);
	h_free(p);
}

/* ---- orders */
void
perm(int w, int n, int *o)
{
	int k = 0;
	switch(w)
	{
		case 0: for(int i = 0; i < n; ++i) o[i] = i; break;
		case 1: for(int i = 0; i < n; ++i) o[i] = n - 1 - i; break;
		case 2: for(int i = 0, j = n - 1; i <= j; ++i, --j) { o[k++] = i; if(i < j) o[k++] = j; } break;
		case 3: perm(2, n, o); for(int i = 0, j = n - 1; i < j; ++i, --j) { int t = o[i]; o[i] = o[j]; o[j] = t; } break;
		case 4: for(int i = 0; i < n; i += 2) o[k++] = i; for(int i = 1; i < n; i += 2) o[k++] = i; break;
		case 5: for(int i = 1; i < n; i += 2) o[k++] = i; for(int i = (n - 1) & ~1; i >= 0; i -= 2) o[k++] = i; break;
		case 6: /* bit reversal */
		{
			int bits = 0;
			while((1 << bits) < n) ++bits;
			for(int i = 0; i < (1 << bits); ++i)
			{
				int r = 0;
				for(int b = 0; b < bits; ++b) if(i >> b & 1) r |= 1 << (bits - 1 - b);
				if(r < n) o[k++] = r;
			}
			break;
		}
		case 7: /* golden stride */
		{
			int st = (int)(n * 0.618) | 1;
			int a = st, b = n;
			while(n > 1) { int x = a, y = b; while(y) { int t = x % y; x = y; y = t; } if(x == 1) break; ++a; }
			for(int i = 0; i < n; ++i) o[i] = (int)((long)i * a % n);
			break;
		}
		case 8: /* second half first, each ascending */
			for(int i = n / 2; i < n; ++i) o[k++] = i;
			for(int i = 0; i < n / 2; ++i) o[k++] = i;
			break;
	}
}

const char *
perm_name(int w)
{
	static const char *n[] = { "ascending", "descending", "outside-in", "inside-out", "even-then-odd",
		"odd-up-even-down", "bit-reversed", "stride", "upper-half-first" };
	return n[w];
}
