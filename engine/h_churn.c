/* C26: repeating any cycle of operations that leaves as many elements stored as before does not
   let the memory a container holds grow.

   sweep over all "lassos": a container filled with `prefill` elements, then every word of
   operations up to a length that comes back to the same number of elements, repeated often enough
   that a leak of eight bytes per round would double what was held after the first rounds. */
#include "common.h"

extern void __wrap_free(void *p);

/* the content is always a window [lo, hi) of integers; the adapters keep the container in step */
static int64_t lo, hi;
static int kmode;                       /* 0: fresh keys, 1: keys from a ring, 2: spread keys, 3: all in one bucket */
static int64_t ring;
static int64_t burst;
static int cfg_free;
static const char *kind;
static uint64_t n_free, n_words, n_rounds, worst_pct, worst_per;

static void *
key(int64_t i)
{
	int64_t v = i;
	if(kmode == 1) v = ((i % ring) + ring) % ring;
	else if(kmode == 2) v = i * 64;
	else if(kmode == 3) v = i * 1024;
	return (void *)(intptr_t)(v + 100000000);
}

static int32_t
cmp(const void *a, const void *b)
{
	intptr_t x = (intptr_t)a, y = (intptr_t)b;
	return x < y ? -1 : x > y;
}

#define ABSENT ((void *)(intptr_t)99)

static bool eq(const void *a, const void *b) { return a == b; }

static uint32_t
hashf(const void *p)
{
	uintptr_t v = (uintptr_t)p;
	return (uint32_t)(kmode == 3 ? v % 3 : v);
}

static void on_free(void *p) { (void)p; ++n_free; }

/* ---------------------------------------------------------------- adapters */
typedef struct
{
	const char *name;
	void (*create)(void);
	void (*destroy)(void);
	void (*add_hi)(void);
	void (*add_lo)(void);
	void (*rem_lo)(void);
	void (*rem_hi)(void);
	void (*replace)(int how);           /* needs one element */
	void (*query)(void);
	void (*clear)(void);
	size_t (*count)(void);
	size_t per;                         /* generous bytes per element */
} A;

static FreeFunc ff(void) { return cfg_free ? on_free : NULL; }

static HashTable *H;
static size_t hsize;
static void ha_create(void) { H = hashtable_new(hsize, hashf, eq, ff(), ff()); }
static void ha_destroy(void) { hashtable_destroy(H); }
static void ha_set(int64_t i) { hashtable_set(H, key(i), key(i), false); }
static void ha_add_hi(void) { ha_set(hi); }
static void ha_add_lo(void) { ha_set(lo - 1); }
static void ha_rem_lo(void) { hashtable_remove(H, key(lo)); }
static void ha_rem_hi(void) { hashtable_remove(H, key(hi - 1)); }
static void ha_replace(int how) { hashtable_set(H, key(how ? lo : hi - 1), key(7), how); }
static void
ha_query(void)
{
	HashTableIter it;
	hashtable_iter_init(H, &it);
	if(hashtable_iter_next(&it)) { (void)hashtable_iter_get_key(&it); hashtable_iter_next(&it); }
	hashtable_lookup(H, key(lo));
	hashtable_key_exists(H, key(hi));
	hashtable_remove(H, ABSENT);
}
static void ha_clear(void) { hashtable_clear(H); }
static size_t ha_count(void) { return hashtable_count(H); }

static RBTree *R;
static Pool *pool;
static int pmode;
static Pool *
make_pool(size_t item)
{
	static const size_t bs[] = { 0, 2, 3, 7, 64 };
	return pmode ? (Pool *)memory_pool_new(item, bs[pmode]) : NULL;
}
static void drop_pool(void) { if(pool) memory_pool_destroy((MemoryPool *)pool); pool = NULL; }
static RBTreeIter rit;
static void rb_create(void) { pool = make_pool(sizeof(RBNode)); R = rbtree_new(cmp, ff(), ff(), pool); rbtree_iter_init(R, &rit); }
static void rb_destroy(void) { rbtree_iter_free(&rit); rbtree_destroy(R); drop_pool(); }
static void rb_add_hi(void) { rbtree_set(R, key(hi), key(hi), false); }
static void rb_add_lo(void) { rbtree_set(R, key(lo - 1), key(lo), false); }
static void rb_rem_lo(void) { rbtree_remove(R, key(lo)); }
static void rb_rem_hi(void) { rbtree_remove(R, key(hi - 1)); }
static void rb_replace(int how) { rbtree_set(R, key(how ? lo : hi - 1), key(7), how); }
static void
rb_query(void)
{
	RBTreeIter it;
	rbtree_iter_init(R, &it);
	rbtree_iter_next(&it);
	rbtree_iter_next(&it);
	rbtree_iter_free(&it);
	rbtree_iter_reuse(R, &rit);
	while(rbtree_iter_next(&rit) && n_rounds % 2) ;
	rbtree_lookup(R, key(lo));
	rbtree_key_exists(R, key(hi));
	rbtree_remove(R, ABSENT);
}
static void rb_clear(void) { rbtree_clear(R); }
static size_t rb_count(void) { return rbtree_count(R); }

static AssocArray *AA;
static void aa_create(void) { AA = assoc_array_new(cmp, ff(), ff()); }
static void aa_destroy(void) { assoc_array_destroy(AA); }
static void aa_add_hi(void) { assoc_array_set(AA, key(hi), key(hi), false); }
static void aa_add_lo(void) { assoc_array_set(AA, key(lo - 1), key(lo), false); }
static void aa_rem_lo(void) { assoc_array_remove(AA, key(lo)); }
static void aa_rem_hi(void) { assoc_array_remove(AA, key(hi - 1)); }
static void aa_replace(int how) { assoc_array_set(AA, key(how ? lo : hi - 1), key(7), how); }
static void
aa_query(void)
{
	AssocArrayIter it;
	assoc_array_iter_init(AA, &it);
	assoc_array_iter_next(&it);
	assoc_array_lookup(AA, key(lo));
	assoc_array_key_exists(AA, key(hi));
	assoc_array_remove(AA, ABSENT);
}
static void aa_clear(void) { assoc_array_clear(AA); }
static size_t aa_count(void) { return assoc_array_count(AA); }

static List *L;
static void li_create(void) { pool = make_pool(sizeof(ListItem)); L = list_new(cmp, ff(), pool); }
static void li_destroy(void) { list_destroy(L); drop_pool(); }
static void li_add_hi(void) { list_append(L, key(hi)); }
static void li_add_lo(void) { list_prepend(L, key(lo - 1)); }
static void li_rem_lo(void) { list_pop(L); }
static void li_rem_hi(void) { list_remove(L, list_tail(L)); }
static void
li_replace(int how)
{
	if(how) { void *p = list_item_get_data(list_head(L)); list_remove_by_data(L, p, n_rounds % 2); list_prepend(L, p); }
	else { list_remove(L, list_head(L)); list_insert_sorted(L, key(lo)); }
}
static void li_query(void) { list_find(L, NULL, key(lo)); list_contains(L, key(hi)); list_remove_by_data(L, ABSENT, true); }
static void li_clear(void) { list_clear(L); }
static size_t li_count(void) { return list_count(L); }

static SList *SL;
static void sl_create(void) { pool = make_pool(sizeof(SListItem)); SL = slist_new(cmp, ff(), pool); }
static void sl_destroy(void) { slist_destroy(SL); drop_pool(); }
static void sl_add_hi(void) { slist_append(SL, key(hi)); }
static void sl_add_lo(void) { slist_prepend(SL, key(lo - 1)); }
static void sl_rem_lo(void) { slist_pop(SL); }
static void
sl_rem_hi(void)
{
	SListItem *i = slist_head(SL);
	while(slist_item_next(i)) i = slist_item_next(i);
	slist_remove(SL, i);
}
static void
sl_replace(int how)
{
	if(how) { void *p = slist_item_get_data(slist_head(SL)); slist_remove_by_data(SL, p, n_rounds % 2); slist_prepend(SL, p); }
	else { slist_remove(SL, slist_head(SL)); slist_insert_sorted(SL, key(lo)); }
}
static void sl_query(void) { slist_find(SL, NULL, key(lo)); slist_contains(SL, key(hi)); slist_remove_by_data(SL, ABSENT, true); }
static void sl_clear(void) { slist_clear(SL); }
static size_t sl_count(void) { return slist_count(SL); }

static Stack *ST;
static void st_create(void) { pool = make_pool(sizeof(SListItem)); ST = stack_new(cmp, ff(), pool); }
static void st_destroy(void) { stack_destroy(ST); drop_pool(); }
static void st_add(void) { stack_push(ST, key(hi)); }
static void st_rem(void) { void *p; stack_pop(ST, &p); }
static void st_query(void) { void *p; stack_head(ST, &p); (void)stack_count(ST); }
static void st_clear(void) { stack_clear(ST); }
static size_t st_count(void) { return stack_count(ST); }

static Queue *QU;
static void qu_create(void) { pool = make_pool(sizeof(SListItem)); QU = queue_new(cmp, ff(), pool); }
static void qu_destroy(void) { queue_destroy(QU); drop_pool(); }
static void qu_add(void) { queue_push(QU, key(hi)); }
static void qu_rem(void) { void *p; queue_pop(QU, &p); }
static void
qu_query(void)
{
#if HAVE_QUEUE_HEAD
	void *p;
	queue_head(QU, &p);
#endif
	(void)queue_count(QU);
}
static void qu_clear(void) { queue_clear(QU); }
static size_t qu_count(void) { return queue_count(QU); }

static AsyncQueue *AQ;
static void aq_create(void) { pool = make_pool(sizeof(SListItem)); AQ = async_queue_new(cmp, ff(), pool); }
static void aq_destroy(void) { async_queue_destroy(AQ); drop_pool(); }
static void aq_add(void) { async_queue_push(AQ, key(hi)); }
static void aq_rem(void) { void *p; async_queue_pop(AQ, &p); }
static void aq_query(void) { void *p; (void)async_queue_count(AQ); if(!async_queue_count(AQ)) async_queue_pop_timeout(AQ, &p, 0); }
static void aq_clear(void) { async_queue_clear(AQ); }
static size_t aq_count(void) { return async_queue_count(AQ); }

/* memory pool: what is stored are the handed out items */
static MemoryPool *MP;
static size_t isize, bsize;
#define MAXP 70000
static void *slot[2 * MAXP];
#define SLOT(i) slot[(((i) % (2 * MAXP)) + 2 * MAXP) % (2 * MAXP)]
static void mp_create(void) { MP = memory_pool_new(isize, bsize); }
static void mp_destroy(void) { memory_pool_destroy(MP); }
static void mp_add(int64_t i) { SLOT(i) = ((Pool *)MP)->alloc((Pool *)MP); memset(SLOT(i), 0x5a, isize); }
static void mp_add_hi(void) { mp_add(hi); }
static void mp_add_lo(void) { mp_add(lo - 1); }
static void mp_rem_lo(void) { ((Pool *)MP)->free((Pool *)MP, SLOT(lo)); }
static void mp_rem_hi(void) { ((Pool *)MP)->free((Pool *)MP, SLOT(hi - 1)); }
static void mp_replace(int how) { int64_t i = how ? lo : hi - 1; ((Pool *)MP)->free((Pool *)MP, SLOT(i)); mp_add(i); }
static void mp_clear(void) { for(int64_t i = lo; i < hi; ++i) ((Pool *)MP)->free((Pool *)MP, SLOT(i)); }
static size_t mp_count(void) { return hi - lo; }

/* buffer: an element is a line of `isize` bytes */
static Buffer *B;
static char *bdst;
static size_t bdlen;
static long limit;
static char line[5000];
static void
bu_create(void)
{
	memset(line, 'a', sizeof line);
	B = buffer_new(limit ? (size_t)limit : (size_t)1 << 40);
	bdst = NULL;
	bdlen = 0;
}
static void bu_destroy(void) { buffer_destroy(B); __wrap_free(bdst); }
static void
bu_add_hi(void)
{
	if(kmode % 2)
	{
		/* in two pieces */
		buffer_fill(B, line, isize / 2);
		line[isize - 1] = '\n';
		buffer_fill(B, line + isize / 2, isize - isize / 2);
		line[isize - 1] = 'a';
	}
	else
	{
		line[isize - 1] = '\n';
		buffer_fill(B, line, isize);
		line[isize - 1] = 'a';
	}
}
static int64_t fd_given;
static long
fd_read(int fd, void *buf, size_t n)
{
	(void)fd;
	if(n > isize) n = isize;
	memset(buf, 'a', n);
	((char *)buf)[n - 1] = '\n';
	fd_given += n;
	return n;
}
static void bu_add_lo(void) { buffer_fill_from_fd(B, 0, isize); }
static void bu_rem_lo(void) { buffer_read_line(B, &bdst, &bdlen); }
static void bu_replace(int how) { buffer_read_line(B, &bdst, &bdlen); if(how) bu_add_hi(); else bu_add_lo(); }
static void
bu_query(void)
{
	char *s = buffer_to_string(B);
	__wrap_free(s);
	buffer_flush(B, &bdst, &bdlen);
	(void)buffer_len(B);
}
static void bu_clear(void) { buffer_clear(B); }
static size_t bu_count(void) { return buffer_len(B) / isize; }

static const A adapters[] =
{
	{ "hash", ha_create, ha_destroy, ha_add_hi, ha_add_lo, ha_rem_lo, ha_rem_hi, ha_replace, ha_query, ha_clear, ha_count, 256 },
	{ "rb", rb_create, rb_destroy, rb_add_hi, rb_add_lo, rb_rem_lo, rb_rem_hi, rb_replace, rb_query, rb_clear, rb_count, 256 },
	{ "assoc", aa_create, aa_destroy, aa_add_hi, aa_add_lo, aa_rem_lo, aa_rem_hi, aa_replace, aa_query, aa_clear, aa_count, 256 },
	{ "list", li_create, li_destroy, li_add_hi, li_add_lo, li_rem_lo, li_rem_hi, li_replace, li_query, li_clear, li_count, 160 },
	{ "slist", sl_create, sl_destroy, sl_add_hi, sl_add_lo, sl_rem_lo, sl_rem_hi, sl_replace, sl_query, sl_clear, sl_count, 160 },
	{ "stack", st_create, st_destroy, st_add, NULL, NULL, st_rem, NULL, st_query, st_clear, st_count, 160 },
	{ "queue", qu_create, qu_destroy, qu_add, NULL, qu_rem, NULL, NULL, qu_query, qu_clear, qu_count, 160 },
	{ "async", aq_create, aq_destroy, aq_add, NULL, aq_rem, NULL, NULL, aq_query, aq_clear, aq_count, 160 },
	{ "pool", mp_create, mp_destroy, mp_add_hi, mp_add_lo, mp_rem_lo, mp_rem_hi, mp_replace, NULL, mp_clear, mp_count, 0 },
	{ "buffer", bu_create, bu_destroy, bu_add_hi, bu_add_lo, bu_rem_lo, NULL, bu_replace, bu_query, bu_clear, bu_count, 0 },
};
static const A *a;

/* ---------------------------------------------------------------- words */
enum { AH, AL, RL, RH, REPV, REPK, QUERY, CLEAR, BURST_H, BURST_L, BREM_L, BREM_H, NOPS };
static const char *opname[] = { "add-high", "add-low", "remove-low", "remove-high", "replace-value", "replace-key", "query", "clear", "burst-add-high", "burst-add-low", "burst-remove-low", "burst-remove-high" };

static bool
has(int op)
{
	switch(op)
	{
		case AL: case BURST_L: return a->add_lo != NULL;
		case RL: case BREM_L: return a->rem_lo != NULL;
		case RH: case BREM_H: return a->rem_hi != NULL;
		case REPV: case REPK: return a->replace != NULL;
		case QUERY: return a->query != NULL;
		default: return true;
	}
}

/* number of elements after op, -1 when not possible */
static int64_t
after(int op, int64_t n)
{
	switch(op)
	{
		case AH: case AL: return n + 1;
		case RL: case RH: return n - 1;
		case REPV: case REPK: return n ? n : -1;
		case QUERY: return n;
		case CLEAR: return n ? 0 : -1;
		case BURST_H: case BURST_L: return n + burst;
		default: return n - burst;
	}
}

static size_t base;
#define HELD() (mc_lib_bytes() - base)

static void
run(int op)
{
	++sw_steps;
	CHECK(HELD() < (size_t)256 << 20, "%s holds %lu bytes with %ld elements", kind, (unsigned long)HELD(), (long)(hi - lo));
	switch(op)
	{
		case AH: a->add_hi(); ++hi; break;
		case AL: a->add_lo(); --lo; break;
		case RL: a->rem_lo(); ++lo; break;
		case RH: a->rem_hi(); --hi; break;
		case REPV: a->replace(0); break;
		case REPK: a->replace(1); break;
		case QUERY: a->query(); break;
		case CLEAR: a->clear(); hi = lo; break;
		case BURST_H: for(int64_t i = 0; i < burst; ++i) run(AH); break;
		case BURST_L: for(int64_t i = 0; i < burst; ++i) run(AL); break;
		case BREM_L: for(int64_t i = 0; i < burst; ++i) run(RL); break;
		case BREM_H: for(int64_t i = 0; i < burst; ++i) run(RH); break;
	}
}

static void
lasso(const int *w, int len, int64_t prefill, int64_t peak)
{
	char text[400];
	int n = 0;
	if(!sw_selected()) return;
	for(int i = 0; i < len; ++i) n += snprintf(text + n, sizeof text - n, "%s%s", i ? ", " : "", opname[w[i]]);
	sw_case("%s, %ld elements stored, then over and over: %s (a burst is %ld)", kind, prefill, text, burst);
	base = mc_lib_bytes();
	lo = hi = 1000;
	ring = peak + 3;
	a->create();
	for(int64_t i = 0; i < prefill; ++i) run(AH);
	uint64_t s0 = sw_steps;
	size_t top = 0, live = HELD();
	if(live > top) top = live;
	for(int r = 0; r < 64; ++r)
	{
		for(int i = 0; i < len; ++i) run(w[i]);
		live = HELD();
		if(live > top) top = live;
	}
	/* a leak of eight bytes per round, or of one element per 1000 operations, has doubled it then */
	size_t bound = 2 * top + 4096;
	uint64_t rounds = (bound - live) / 8 + 64, steps = (sw_steps - s0) / 64;
	uint64_t cap = opt("maxsteps", 60000) / (steps ? steps : 1);
	if(rounds > cap) rounds = cap > 600 ? cap : 600;
	for(uint64_t r = 0; r < rounds; ++r)
	{
		++n_rounds;
		for(int i = 0; i < len; ++i) run(w[i]);
		live = HELD();
		CHECK(live <= bound, "%s holds %lu bytes with %ld elements after %lu rounds; after 64 rounds it was at most %lu", kind, (unsigned long)live, (long)(hi - lo), (unsigned long)r + 64, (unsigned long)top);
		++mc_progress;
	}
	if(live * 100 / (top ? top : 1) > worst_pct) worst_pct = live * 100 / (top ? top : 1);
	CHECK(a->count() == (size_t)(hi - lo), "%s reports %lu elements instead of %ld", kind, (unsigned long)a->count(), (long)(hi - lo));
	size_t allowed = 32768 + a->per * peak;
	if(!strcmp(kind, "hash")) allowed += 16 * (hsize);
	if(!strcmp(kind, "pool")) allowed += 2 * (isize + 2 * sizeof(void *)) * (peak + bsize) * 2;
	if(!strcmp(kind, "buffer")) allowed += 16 * isize * (peak + 2);
	if(pmode) allowed += 512 * 64;
	if(live > 8192 && peak && (live - 8192) / peak > worst_per) worst_per = (live - 8192) / peak;
	CHECK(live <= allowed, "%s holds %lu bytes for at most %ld elements", kind, (unsigned long)live, (long)peak);
	a->destroy();
	CHECK(mc_lib_bytes() == base || opt("keep", 0), "%s keeps %ld bytes after it was destroyed", kind, (long)(mc_lib_bytes() - base));
	++n_words;
}

static void
words(int *w, int depth, int len, int64_t n, int64_t peak, int64_t prefill)
{
	if(depth == len)
	{
		if(n == prefill) lasso(w, len, prefill, peak);
		return;
	}
	for(int op = 0; op < NOPS; ++op)
	{
		if(!has(op)) continue;
		int64_t m = after(op, n);
		if(m < 0) continue;
		if(!strcmp(kind, "buffer") && limit && m * (int64_t)isize > limit) continue;
		/* the first operation of a cycle is its smallest: rotations are the same cycle from another start */
		w[depth] = op;
		words(w, depth + 1, len, m, m > peak ? m : peak, prefill);
	}
}

static void
sweep(void)
{
	kind = opts("kind", "hash");
	for(size_t i = 0; i < sizeof adapters / sizeof *adapters; ++i) if(!strcmp(adapters[i].name, kind)) a = &adapters[i];
	if(!a) { fprintf(stderr, "kind\n"); _exit(3); }
	kmode = opt("keys", 0);
	hsize = opt("size", 0);
	pmode = opt("pool", 0);
	cfg_free = opt("free", 0);
	isize = opt("isize", 24);
	bsize = opt("bsize", 4);
	limit = opt("limit", 0);
	burst = opt("burst", 7);
	mc_read_hook = fd_read;
	int len = opt("len", 3);
	long from = opt("from", 0), to = opt("to", from), step = opt("step", 1);
	for(long p = from; p <= to; p += step)
	{
		int w[16];
		if(opt("burstall", 0)) burst = p ? p : 1;
		if(!strcmp(kind, "buffer") && limit && p * (int64_t)isize > limit) continue;
		for(int l = 1; l <= len; ++l) words(w, 0, l, p, p, p);
	}
	sw_note("%lu lassos, %lu rounds, largest growth after warm-up %lu%%, beyond 8 KB at most %lu bytes per element", n_words, n_rounds, worst_pct, worst_per);
}

const Harness h_churn = { "churn", NULL, sweep };
