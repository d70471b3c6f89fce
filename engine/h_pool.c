/* memory pool: handed-out items are disjoint, stable, recycled */
#include "common.h"

static long isize, bsize, cap;

typedef struct
{
	MemoryPool *p;
	uint32_t n;          /* items in use */
	uint32_t peak;
	uint32_t ndistinct;
	uint8_t *item[];     /* cap in use, then every distinct item seen so far */
} Host;
static Host *sw_host;
static Host *H(void) { return mc_passthrough ? sw_host : mc_host; }
static uint8_t **distinct(void) { return &H()->item[cap]; }

static uint8_t pattern(uint32_t i, long k) { return (uint8_t)(i * 37 + k * 11 + 5); }

static void
write_item(uint32_t i)
{
	for(long k = 0; k < isize; ++k) H()->item[i][k] = pattern(i, k);
}

static void
check_item(uint32_t i, const char *when)
{
	const uint8_t *p = H()->item[i];
	for(long k = 0; k < isize; ++k) CHECK(p[k] == pattern(i, k), "content of an item in use changed %s", when);
}

static int
pc(const void *a, const void *b)
{
	uintptr_t x = *(const uintptr_t *)a, y = *(const uintptr_t *)b;
	return (x > y) - (x < y);
}

static void
pinit(void)
{
	Host *h = H();
	h->p = memory_pool_new(isize, bsize);
}

static void
do_alloc(void)
{
	Host *h = H();
	uint8_t *x = h->p->padding.alloc((Pool *)h->p);
	CHECK(x != NULL, "the pool handed out nothing");
	CHECK(mc_readable(x, isize), "the item is not within live memory of its size");
	if(!mc_passthrough)
	{
		for(uint32_t i = 0; i < h->n; ++i)
		{
			CHECK(x + isize <= h->item[i] || h->item[i] + isize <= x, "the item overlaps an item in use");
			check_item(i, "during an allocation");
		}
		uint32_t k = 0;
		while(k < h->ndistinct && distinct()[k] != x) ++k;
		if(k == h->ndistinct) distinct()[h->ndistinct++] = x;
	}
	h->item[h->n] = x;
	write_item(h->n++);
	if(h->n > h->peak) h->peak = h->n;
	if(!mc_passthrough)
	{
		uint32_t lim = (h->peak + bsize - 1) / bsize * bsize;
		CHECK(h->ndistinct <= lim, "%u distinct items were handed out for at most %u in use at once (blocks of %ld)",
			h->ndistinct, h->peak, bsize);
	}
}

static void
do_free(uint32_t i)
{
	Host *h = H();
	h->p->padding.free((Pool *)h->p, h->item[i]);
	for(uint32_t k = 0; k < h->n; ++k) if(k != i && !mc_passthrough) check_item(k, "when another item was returned");
	/* the last one takes the free place in the bookkeeping */
	--h->n;
	if(i != h->n)
	{
		h->item[i] = h->item[h->n];
		write_item(i);
	}
	h->item[h->n] = NULL;
}

static int
pops(uint32_t *out)
{
	int n = 0;
	if(H()->n < (uint32_t)cap) out[n++] = 0;
	for(uint32_t i = 0; i < H()->n; ++i) out[n++] = i + 1;
	return n;
}

static void papply(uint32_t op) { if(op == 0) do_alloc(); else do_free(op - 1); }

static void
pobserve(void)
{
	Host *h = H();
	for(uint32_t i = 0; i < h->n; ++i)
	{
		CHECK(mc_readable(h->item[i], isize), "an item in use is no longer live memory");
		check_item(i, "meanwhile");
	}
	/* bring it to its capacity: still disjoint and recycled */
	while(h->n < (uint32_t)cap) do_alloc();
}

static void
pfinish(void)
{
	Host *h = H();
	memory_pool_destroy(h->p);
	if(flags & F_MEM) CHECK(mc_lib_live() == 0, "%lu blocks were not given back", (unsigned long)mc_lib_live());
}

static void
pdescribe(uint32_t op, char *b, size_t n)
{
	if(op) snprintf(b, n, "free(#%u)", op - 1); else snprintf(b, n, "alloc");
}

static Sys sys = { "pool", 0, pinit, pops, papply, pobserve, pfinish, pdescribe, NULL };

static void
options(void)
{
	isize = opt("isize", 8);
	bsize = opt("bsize", 2);
	cap = opt("cap", 4);
	parse_flags();
}

static Sys *
pbfs(void)
{
	options();
	sys.host_size = sizeof(Host) + (cap + ((2 * cap) / bsize + 3) * bsize) * sizeof(void *);
	return &sys;
}

static void
disjoint(void)
{
	Host *h = H();
	uint8_t **s = malloc((h->n + 1) * sizeof *s);
	memcpy(s, h->item, h->n * sizeof *s);
	qsort(s, h->n, sizeof *s, pc);
	for(uint32_t i = 1; i < h->n; ++i) CHECK(s[i - 1] + isize <= s[i], "items in use overlap");
	free(s);
	for(uint32_t i = 0; i < h->n; ++i) { CHECK(mc_readable(h->item[i], isize), "an item in use is not live memory"); check_item(i, "meanwhile"); }
}

/* fill n, free m in an order, fill again, ...: disjoint, contents kept, recycled */
static void
psweep(void)
{
	options();
	int64_t lo = opt("from", 1), hi = opt("to", 20), step = opt("step", 1);
	int pats = opt("pats", NPERM);
	for(int64_t n = lo; n <= hi; n += step)
	for(int rp = 0; rp < pats; ++rp)
	for(int frac = opt("frac", 1); frac <= opt("frac", 4); ++frac)
	{
		if(!sw_selected()) continue;
		sw_case("pool item size %ld, block size %ld: %ld items, free %d/4 of them %s, allocate again", isize, bsize, (long)n, frac, perm_name(rp));
		cap = 2 * n + 4;
		int *q = malloc((n + 1) * sizeof *q);
		sw_host = calloc(1, sizeof(Host) + (cap + 4) * sizeof(void *));
		Host *h = sw_host;
		uint8_t **ever = calloc(8 * n + 8, sizeof *ever);
		int64_t nev = 0;
		pinit();
		for(int round = 0; round < 4; ++round)
		{
			int64_t target = round == 3 ? n + n / 2 : n;
			while(h->n < target) { do_alloc(); if(nev < 8 * n) ever[nev++] = h->item[h->n - 1]; ++sw_steps; ++mc_progress; }
			disjoint();
			int64_t m = h->n;
			if(m > n) m = n;
			perm(rp, m, q);
			int64_t k = m * frac / 4;
			/* q gives original positions; bookkeeping moves the last item into the hole */
			int64_t freed = 0;
			uint8_t **want = malloc((k + 1) * sizeof *want);
			for(int64_t i = 0; i < k; ++i) want[i] = h->item[q[i]];
			/* index by address */
			for(int64_t i = 0; i < k; ++i)
			{
				uint32_t j = (uint32_t)q[i] < h->n && h->item[q[i]] == want[i] ? (uint32_t)q[i] : UINT32_MAX;
				if(j == UINT32_MAX) for(j = 0; j < h->n && h->item[j] != want[i]; ++j) ;
				if(j < h->n) { do_free(j); ++freed; ++sw_steps; ++mc_progress; }
			}
			free(want);
			disjoint();
		}
		qsort(ever, nev, sizeof *ever, pc);
		int64_t d = 0;
		for(int64_t i = 0; i < nev; ++i) d += i == 0 || ever[i] != ever[i - 1];
		int64_t limit = ((int64_t)h->peak + bsize - 1) / bsize * bsize;
		CHECK(d <= limit, "%ld distinct items were handed out for at most %u in use at once (blocks of %ld)", (long)d, h->peak, bsize);
		pfinish();
		free(ever);
		free(q);
		free(sw_host);
	}
}

const Harness h_pool = { "pool", pbfs, psweep };
