/* hash table, red-black tree and associative array against an abstract map */
#include "common.h"

enum { HASH, RB, ASSOC };
static int kind;
static int form;             /* 0: new and destroy; 1, 2, 3: init and free in caller storage filled with A5, FF, 00 */
static bool fk, fv;          /* release functions given */
static int valnull;          /* NULL values too */
static long bsize;           /* hash: bucket count, 0 = automatic */
static int hashid;
static int poolmode;         /* tree: 0 none, 1 recording, n>1 library pool of block size n */
static long cap;             /* most elements in BFS */
static long dom;             /* hash: dynamic labels */
static long prefill;
static int pat;
static bool lk, upd, ow_ops, alias_ops, clr, iter_ops;
static int fan;              /* ordered: restrict positions to about that many (0 = all) */
static bool rich;            /* observe compares iteration etc. for kinds that need it */

typedef struct { Tok *key, *val; } Pair;
typedef struct
{
	void *c;
	void *storage;
	RecPool *pool;
	uint64_t n;
	Pair m[];                /* ordered kinds: sorted by label; hash: prefilled then sorted by label */
} Host;
static Host *sw_host;        /* sweeps keep it outside of the arena */
static bool nested;          /* two instances; operations on the second within callbacks of the first */
static int cur;              /* instance the operation works on */
static size_t host_bytes;
static Host *H(void) { return mc_passthrough ? sw_host : (Host *)((char *)mc_host + cur * host_bytes); }

/* ------------------------------------------------------------------ callbacks */
static uint32_t
hash_of(int64_t label)
{
	uint32_t l = (uint32_t)label;
	switch(hashid)
	{
		case 0: return l;
		case 1: return 0;
		case 2: return UINT32_MAX;
		case 3: return 0x80000000u + l;
		case 4: return l * 257u;
		case 5: return ~l;
		case 6: return l * 2654435761u;
		case 7: return l & 1 ? UINT32_MAX : 0;
		case 8: return l * 257u * 1031u;
	}
	return l;
}

static uint32_t
cb_hash(const void *p)
{
	if(cb_hook) cb_hook("hash");
	tok_check(p, "hash");
	return hash_of(((const Tok *)p)->label);
}

/* ------------------------------------------------------------------ uniform access */
static void *
c_new(void)
{
	FreeFunc k = fk ? cb_free_key : NULL, v = fv ? cb_free_val : NULL;
	Pool *p = H()->pool ? &H()->pool->base : NULL;
	if(form == 0)
	{
		switch(kind)
		{
			case HASH: return hashtable_new(bsize, cb_hash, cb_equal, k, v);
			case RB: return rbtree_new(cb_compare, k, v, p);
			default: return assoc_array_new(cb_compare, k, v);
		}
	}
	size_t n = kind == HASH ? sizeof(HashTable) : kind == RB ? sizeof(RBTree) : sizeof(AssocArray);
	void *s = h_alloc(n, CH_HOST);
	memset(s, form == 1 ? 0xA5 : form == 3 ? 0 : 0xFF, n);
	H()->storage = s;
	switch(kind)
	{
		case HASH: hashtable_init(s, bsize, cb_hash, cb_equal, k, v); break;
		case RB: rbtree_init(s, cb_compare, k, v, p); break;
		default: assoc_array_init(s, cb_compare, k, v); break;
	}
	return s;
}

static void
c_end(void)
{
	void *c = H()->c;
	if(form == 0)
	{
		switch(kind)
		{
			case HASH: hashtable_destroy(c); break;
			case RB: rbtree_destroy(c); break;
			default: assoc_array_destroy(c); break;
		}
		return;
	}
	switch(kind)
	{
		case HASH: hashtable_free(c); break;
		case RB: rbtree_free(c); break;
		default: assoc_array_free(c); break;
	}
}

static void
c_clear(void *c)
{
	switch(kind)
	{
		case HASH: hashtable_clear(c); break;
		case RB: rbtree_clear(c); break;
		default: assoc_array_clear(c); break;
	}
}

/* 0 new, 1 replaced, 2 failed */
static int
c_set(void *c, void *k, void *v, bool ow)
{
	switch(kind)
	{
		case HASH:
		{
			HashTableInsertResult r = hashtable_set(c, k, v, ow);
			return r == HASHTABLE_INSERT_RESULT_NEW ? 0 : r == HASHTABLE_INSERT_RESULT_REPLACED ? 1 : 2;
		}
		case RB:
		{
			RBTreeInsertResult r = rbtree_set(c, k, v, ow);
			return r == RBTREE_INSERT_RESULT_NEW ? 0 : r == RBTREE_INSERT_RESULT_REPLACED ? 1 : 2;
		}
		default:
		{
			AssocArrayInsertResult r = assoc_array_set(c, k, v, ow);
			return r == ASSOCARRAY_INSERT_RESULT_NEW ? 0 : r == ASSOCARRAY_INSERT_RESULT_REPLACED ? 1 : 2;
		}
	}
}

static int
c_remove(void *c, void *k)
{
	switch(kind)
	{
		case HASH: hashtable_remove(c, k); return -1;
		case RB: return rbtree_remove(c, k);
		default: assoc_array_remove(c, k); return -1;
	}
}

static void *
c_lookup(void *c, void *k, Pair *fn, Pair *mac)
{
	switch(kind)
	{
		case HASH:
		{
			HashTablePair *p = hashtable_lookup(c, k);
			if(!p) return NULL;
			*fn = (Pair){ hashtable_pair_get_key(p), hashtable_pair_get_value(p) };
			*mac = (Pair){ hashtable_pair_key(p), hashtable_pair_value(p) };
			return p;
		}
		case RB:
		{
			RBTreePair *p = rbtree_lookup(c, k);
			if(!p) return NULL;
			*fn = (Pair){ rbtree_pair_get_key(p), rbtree_pair_get_value(p) };
			*mac = (Pair){ rbtree_pair_key(p), rbtree_pair_value(p) };
			return p;
		}
		default:
		{
			AssocArrayPair *p = assoc_array_lookup(c, k);
			if(!p) return NULL;
			*fn = (Pair){ assoc_array_pair_get_key(p), assoc_array_pair_get_value(p) };
			*mac = (Pair){ assoc_array_pair_key(p), assoc_array_pair_value(p) };
			return p;
		}
	}
}

static void
c_pair_set(void *p, void *v)
{
	switch(kind)
	{
		case HASH: hashtable_pair_set_value(p, v); break;
		case RB: rbtree_pair_set_value(p, v); break;
		default: assoc_array_pair_set_value(p, v); break;
	}
}

static bool
c_exists(void *c, void *k)
{
	switch(kind)
	{
		case HASH: return hashtable_key_exists(c, k);
		case RB: return rbtree_key_exists(c, k);
		default: return assoc_array_key_exists(c, k);
	}
}

static size_t
c_count(void *c)
{
	switch(kind)
	{
		case HASH: return hashtable_count(c);
		case RB: return rbtree_count(c);
		default: return assoc_array_count(c);
	}
}

typedef union { HashTableIter h; RBTreeIter r; AssocArrayIter a; } AnyIter;

static void
i_init(void *c, AnyIter *it, int junk)
{
	memset(it, junk, sizeof *it);
	switch(kind)
	{
		case HASH: hashtable_iter_init(c, &it->h); break;
		case RB: rbtree_iter_init(c, &it->r); break;
		default: assoc_array_iter_init(c, &it->a); break;
	}
}

static bool
i_next(AnyIter *it)
{
	switch(kind)
	{
		case HASH: return hashtable_iter_next(&it->h);
		case RB: return rbtree_iter_next(&it->r);
		default: return assoc_array_iter_next(&it->a);
	}
}

static void
i_get(AnyIter *it, Pair *fn, Pair *mac)
{
	switch(kind)
	{
		case HASH:
			*fn = (Pair){ hashtable_iter_get_key(&it->h), hashtable_iter_get_value(&it->h) };
			*mac = (Pair){ hashtable_iter_key(it->h), hashtable_iter_value(it->h) };
			break;
		case RB:
			*fn = (Pair){ rbtree_iter_get_key(&it->r), rbtree_iter_get_value(&it->r) };
			*mac = (Pair){ rbtree_iter_key(it->r), rbtree_iter_value(it->r) };
			break;
		default:
			*fn = (Pair){ assoc_array_iter_get_key(&it->a), assoc_array_iter_get_value(&it->a) };
			*mac = (Pair){ assoc_array_iter_key(it->a), assoc_array_iter_value(it->a) };
			break;
	}
}

static void i_free(AnyIter *it) { if(kind == RB) rbtree_iter_free(&it->r); }
static bool ordered(void) { return kind != HASH; }

/* ------------------------------------------------------------------ cost bounds */
static bool
cost_ok(uint64_t calls, uint64_t n)
{
	if(kind == ASSOC)
	{
		uint64_t b = 0;
		while(n >> b) ++b;         /* floor(log2 n) + 1, 0 for n = 0 */
		return calls <= b;
	}
	/* 2^calls <= (n+1)^2 */
	if(calls > 100) return false;
	return ((__int128)1 << calls) <= (__int128)(n + 1) * (n + 1);
}

#define COST(what, n_) do { if((flags & F_BAL) && ordered()) CHECK(cost_ok(cmp_calls, n_), \
	"%s among %lu keys took %lu comparisons", what, (unsigned long)(n_), (unsigned long)cmp_calls); } while(0)

#if HAVE_RB_FIELDS
static int
rb_check(const RBNode *n, bool parent_red, int depth)
{
	if(!n) return 1;
	CHECK(depth < 200, "tree is absurdly deep");
	CHECK(!(parent_red && !n->black), "red node has a red child");
	int l = rb_check(n->left, !n->black, depth + 1);
	int r = rb_check(n->right, !n->black, depth + 1);
	CHECK(l == r, "paths with different numbers of black nodes");
	return l + (n->black ? 1 : 0);
}
#endif

static void
shape(void)
{
#if HAVE_RB_FIELDS
	if((flags & F_BAL) && kind == RB)
	{
		const RBTree *t = H()->c;
		if(t->root) CHECK(t->root->black, "root is not black");
		rb_check(t->root, false, 0);
	}
#endif
}

/* ------------------------------------------------------------------ model */
static int64_t
label_at(uint64_t i)
{
	return H()->m[i].key->label;
}

/* position of label, or insertion position | found flag */
static uint64_t
m_find(int64_t label, bool *found)
{
	uint64_t a = 0, b = H()->n;
	while(a < b)
	{
		uint64_t k = (a + b) / 2;
		if(label_at(k) < label) a = k + 1;
		else b = k;
	}
	*found = a < H()->n && label_at(a) == label;
	return a;
}

/* object leaves the container */
static Tok *gone[64];
static int ngone, gone_base;
static void
leave(Tok *t, bool has_cb)
{
	if(!t) return;
	if(has_cb && (flags & F_OWN)) ev_expect(t);
	else if(ngone < 64) gone[ngone++] = t;
	else tok_drop(t);
}

static void
settle(void)
{
	ev_verify();
	while(ngone > gone_base) tok_drop(gone[--ngone]);
}

static void
relabel(void)
{
	if(mc_passthrough || !ordered()) return;
	for(uint64_t i = 0; i < H()->n; ++i) H()->m[i].key->label = 2 * i + 1;
}

static void
pool_ok(void)
{
	if(H()->pool && (flags & F_POOL))
	{
		CHECK(H()->pool->live == H()->n, "%u pool items in use for %lu stored elements", H()->pool->live, (unsigned long)H()->n);
	}
}

static void
do_set(int64_t label, bool ow, bool null, bool alias)
{
	Host *h = H();
	bool found;
	uint64_t i = m_find(label, &found);
	Tok *k = alias ? h->m[i].key : tok_new(T_KEY, label);
	Tok *v = null ? NULL : tok_new(T_VAL, 0);
	uint64_t n = h->n;

	cmp_calls = 0;
	int r = c_set(h->c, k, v, ow);
	COST("inserting", n);
	if(flags & F_FUNC) CHECK(r == (found ? 1 : 0), "set returned %s for a key that %s", r == 0 ? "NEW" : r == 1 ? "REPLACED" : "FAILED",
		found ? "exists" : "does not exist");

	if(found)
	{
		Pair *p = &h->m[i];
		leave(p->val, fv);
		if(ow && !alias) { leave(p->key, fk); p->key = k; }
		else if(!alias) { if(ngone < 64) gone[ngone++] = k; }
		p->val = v;
	}
	else
	{
		memmove(&h->m[i + 1], &h->m[i], (h->n - i) * sizeof(Pair));
		h->m[i] = (Pair){ k, v };
		++h->n;
	}
	settle();
	relabel();
}

static void
do_remove(int64_t label, bool alias)
{
	Host *h = H();
	bool found;
	uint64_t i = m_find(label, &found);
	Tok *k = alias ? h->m[i].key : tok_new(T_KEY, label);
	uint64_t n = h->n;

	cmp_calls = 0;
	int r = c_remove(h->c, k);
	COST("removing", n);
	if(r >= 0 && (flags & F_FUNC)) CHECK(r == found, "remove returned %d for a key that %s", r, found ? "exists" : "does not exist");
	if(!alias) gone[ngone++] = k;
	if(found)
	{
		leave(h->m[i].key, fk);
		leave(h->m[i].val, fv);
		memmove(&h->m[i], &h->m[i + 1], (h->n - i - 1) * sizeof(Pair));
		--h->n;
		h->m[h->n] = (Pair){ NULL, NULL };
	}
	settle();
	relabel();
}

static void
match_pair(const char *who, Pair got, Pair want)
{
	if(!(flags & F_FUNC)) return;
	CHECK(got.key == want.key, "%s: not the stored key object", who);
	CHECK(got.val == want.val, "%s: not the stored value", who);
}

static void
do_lookup(int64_t label, int update, bool null)
{
	Host *h = H();
	bool found;
	uint64_t i = m_find(label, &found);
	Tok *k = tok_new(T_KEY, label);
	Pair fn, mac;
	cmp_calls = 0;
	void *p = c_lookup(h->c, k, &fn, &mac);
	COST("looking up", h->n);
	if(flags & F_FUNC) CHECK((p != NULL) == found, "lookup of a key that %s %s", found ? "exists" : "does not exist",
		p ? "found it" : "found nothing");
	if(p && found)
	{
		match_pair("pair accessor", fn, h->m[i]);
		match_pair("pair macro", mac, h->m[i]);
		if(update)
		{
			Tok *v = null ? NULL : tok_new(T_VAL, 0);
			c_pair_set(p, v);
			leave(h->m[i].val, fv);
			h->m[i].val = v;
		}
	}
	gone[ngone++] = k;
	settle();
}

static void
drop_all(void)
{
	Host *h = H();
	for(uint64_t i = 0; i < h->n; ++i)
	{
		if(fk && (flags & F_OWN)) ev_expect(h->m[i].key); else tok_drop(h->m[i].key);
		if(h->m[i].val) { if(fv && (flags & F_OWN)) ev_expect(h->m[i].val); else tok_drop(h->m[i].val); }
		h->m[i] = (Pair){ NULL, NULL };
	}
	h->n = 0;
}

static void
do_clear(void)
{
	c_clear(H()->c);
	drop_all();
	settle();
}

/* ------------------------------------------------------------------ queries */
static void
query(int64_t label)
{
	Host *h = H();
	bool found;
	uint64_t i = m_find(label, &found);
	Tok t = { TOK_MAGIC, label, T_KEY };
	Tok *k = &t;
	Pair fn, mac;

	cmp_calls = 0;
	bool e = c_exists(h->c, k);
	COST("key_exists", h->n);
	if(flags & F_FUNC) CHECK(e == found, "key_exists says %d, expected %d", e, found);
	cmp_calls = 0;
	void *p = c_lookup(h->c, k, &fn, &mac);
	COST("lookup", h->n);
	if(flags & F_FUNC) CHECK((p != NULL) == found, "lookup of a key that %s %s", found ? "exists" : "does not exist",
		p ? "found it" : "found nothing");
	if(p && found)
	{
		match_pair("pair accessor", fn, h->m[i]);
		match_pair("pair macro", mac, h->m[i]);
	}
}

/* the whole iteration yields every pair once, then the end (repeatedly) */
static uint8_t *seenmap;
static uint64_t seencap;

static void
seen_reset(uint64_t n)
{
	if(n + 1 > seencap)
	{
		seencap = n * 2 + 64;
		seenmap = realloc(seenmap, seencap);
	}
	memset(seenmap, 0, n + 1);
}

static void
got_item(AnyIter *it, int64_t *last)
{
	Host *h = H();
	Pair fn, mac;
	i_get(it, &fn, &mac);
	CHECK(fn.key == mac.key && fn.val == mac.val, "iterator accessor and macro disagree");
	CHECK(fn.key && mc_readable(fn.key, sizeof(Tok)) && fn.key->magic == TOK_MAGIC, "iterator yields a key that is not stored");
	bool found;
	uint64_t i = m_find(fn.key->label, &found);
	CHECK(found && h->m[i].key == fn.key, "iterator yields a key that is not stored");
	CHECK(h->m[i].val == fn.val, "iterator yields the wrong value");
	CHECK(!seenmap[i], "iterator yields a key twice");
	seenmap[i] = 1;
	if(kind == ASSOC) CHECK(fn.key->label > *last, "iteration is not in ascending key order");
	*last = fn.key->label;
}

static void
iterate_rest(AnyIter *it, uint64_t already, int64_t *last)
{
	uint64_t k = already;
	while(i_next(it))
	{
		CHECK(k < H()->n, "iterator yields more items than stored");
		got_item(it, last);
		++k;
	}
	CHECK(k == H()->n, "iterator ends after %lu of %lu items", (unsigned long)k, (unsigned long)H()->n);
	for(int i = 0; i < 3; ++i) CHECK(!i_next(it), "iterator restarts after its end");
}

static void
iterate(void)
{
	AnyIter it;
	int64_t last = INT64_MIN;
	i_init(H()->c, &it, 0xA5);
	seen_reset(H()->n);
	iterate_rest(&it, 0, &last);
	i_free(&it);
}

/* a tree with u keys to reuse iterators on; labels descending for variety */
static void
other_check(AnyIter *it, RBTree *u, Tok **keys, int n)
{
	bool s[64] = { false };
	int k = 0;
	rbtree_iter_reuse(u, &it->r);
	while(rbtree_iter_next(&it->r))
	{
		CHECK(k < n, "reused iterator yields more items than stored");
		Tok *key = rbtree_iter_get_key(&it->r);
		CHECK(key == rbtree_iter_key(it->r), "iterator accessor and macro disagree");
		CHECK(rbtree_iter_get_value(&it->r) == key && rbtree_iter_value(it->r) == key, "reused iterator yields the wrong value");
		int j = 0;
		while(j < n && keys[j] != key) ++j;
		CHECK(j < n && !s[j], "reused iterator yields a key that is not stored or twice");
		s[j] = true;
		++k;
	}
	CHECK(k == n, "reused iterator ends after %d of %d items", k, n);
	for(int i = 0; i < 3; ++i) CHECK(!rbtree_iter_next(&it->r), "iterator restarts after its end");
}

static void
iter_life(uint64_t maxsteps)
{
	Host *h = H();
	AnyIter a, b;
	int64_t last;
	uint64_t n = h->n;
	size_t live = mc_lib_live();

	iterate();

	/* two iterators: b is advanced k steps, a runs through, b finishes */
	for(uint64_t k = 0; k <= n + 1 && k <= maxsteps; ++k)
	{
		static uint8_t keep[4096];
		int64_t lb = INT64_MIN;
		i_init(h->c, &b, 0xFF);
		seen_reset(n);
		uint64_t i;
		for(i = 0; i < k && i_next(&b); ++i) got_item(&b, &lb);
		CHECK(i == (k < n ? k : n), "iterator ends after %lu of %lu items", (unsigned long)i, (unsigned long)n);
		if(n < sizeof keep) memcpy(keep, seenmap, n + 1);
		i_init(h->c, &a, 0);
		seen_reset(n);
		last = INT64_MIN;
		iterate_rest(&a, 0, &last);
		if(n < sizeof keep)
		{
			memcpy(seenmap, keep, n + 1);
			if(k <= n) iterate_rest(&b, i, &lb);
			else for(int j = 0; j < 3; ++j) CHECK(!i_next(&b), "iterator restarts after its end");
		}
		i_free(&b);
		i_free(&a);
		if(flags & F_MEM) CHECK(mc_lib_live() == live, "released iterators leave blocks behind");
	}

	if(kind != RB) return;

	static const int other[] = { 0, 1, 2, 5, 12 };
	RBTree *t = h->c;
	for(unsigned o = 0; o < sizeof other / sizeof *other; ++o)
	{
		Tok *keys[16];
		RBTree *u = rbtree_new(cb_compare, NULL, NULL, NULL);
		for(int i = 0; i < other[o]; ++i)
		{
			keys[i] = tok_new(T_KEY, 100 - i);
			rbtree_set(u, keys[i], keys[i], false);
		}
		size_t l2 = mc_lib_live();
		for(uint64_t k = 0; k <= n + 1 && k <= maxsteps; ++k)
		{
			/* this tree, k steps, other tree, back again, release */
			i_init(t, &a, 0xA5);
			for(uint64_t i = 0; i < k; ++i) i_next(&a);
			other_check(&a, u, keys, other[o]);
			rbtree_iter_reuse(t, &a.r);
			seen_reset(n);
			last = INT64_MIN;
			iterate_rest(&a, 0, &last);
			i_free(&a);
			/* init, steps, reuse same, partially, reuse again, release */
			i_init(t, &a, 0xFF);
			for(uint64_t i = 0; i < k; ++i) i_next(&a);
			rbtree_iter_reuse(t, &a.r);
			for(uint64_t i = 0; i < k / 2; ++i) i_next(&a);
			rbtree_iter_reuse(t, &a.r);
			seen_reset(n);
			last = INT64_MIN;
			iterate_rest(&a, 0, &last);
			i_free(&a);
			if(flags & F_MEM) CHECK(mc_lib_live() == l2, "released iterators leave blocks behind");
		}
		for(int k = 0; k <= other[o] + 1; ++k)
		{
			/* other tree first, then this one; released after j steps */
			i_init(u, &a, 0xA5);
			for(int i = 0; i < k; ++i) rbtree_iter_next(&a.r);
			rbtree_iter_reuse(t, &a.r);
			seen_reset(n);
			last = INT64_MIN;
			iterate_rest(&a, 0, &last);
			i_free(&a);
			i_init(u, &a, 0x5A);
			for(int i = 0; i < k; ++i) rbtree_iter_next(&a.r);
			rbtree_iter_reuse(t, &a.r);
			for(uint64_t i = 0; i < n / 2; ++i) i_next(&a);
			i_free(&a);
			if(flags & F_MEM) CHECK(mc_lib_live() == l2, "released iterators leave blocks behind");
		}
		rbtree_destroy(u);
		for(int i = 0; i < other[o]; ++i) tok_drop(keys[i]);
	}
	/* the tree changes between uses of one iterator: grows, shrinks, is emptied */
	if(!mc_passthrough)
	{
		i_init(t, &a, 0xA5);
		for(uint64_t i = 0; i < n / 2 + 1; ++i) i_next(&a);
		Tok *x[6];
		for(int i = 0; i < 6; ++i)
		{
			x[i] = tok_new(T_KEY, 1000 + i);
			rbtree_set(t, x[i], NULL, false);
			h->m[h->n++] = (Pair){ x[i], NULL };
		}
		rbtree_iter_reuse(t, &a.r);
		seen_reset(h->n);
		last = INT64_MIN;
		iterate_rest(&a, 0, &last);
		ngone = 0;
		do_remove(1002, false);
		do_remove(label_at(0), false);
		rbtree_iter_reuse(t, &a.r);
		seen_reset(h->n);
		last = INT64_MIN;
		iterate_rest(&a, 0, &last);
		do_clear();
		rbtree_iter_reuse(t, &a.r);
		CHECK(!rbtree_iter_next(&a.r), "iterator over an emptied tree yields an item");
		CHECK(!rbtree_iter_next(&a.r), "iterator over an emptied tree yields an item");
		do_set(7, false, false, false);
		rbtree_iter_reuse(t, &a.r);
		seen_reset(h->n);
		last = INT64_MIN;
		iterate_rest(&a, 0, &last);
		i_free(&a);
	}
}

static void
observe_model(uint64_t maxsteps)
{
	Host *h = H();
	if(flags & F_FUNC) CHECK(c_count(h->c) == h->n, "count is %lu, expected %lu", (unsigned long)c_count(h->c), (unsigned long)h->n);
	pool_ok();
	shape();
	if(flags & (F_FUNC | F_BAL))
	{
		if(ordered())
		{
			for(uint64_t i = 0; i < h->n; ++i) { query(label_at(i)); query(label_at(i) - 1); }
			query(h->n ? label_at(h->n - 1) + 1 : 5);
			if(kind == ASSOC && (flags & F_FUNC))
			{
				CHECK(assoc_array_size(h->c) >= h->n, "capacity smaller than count");
			}
		}
		else
		{
			for(uint64_t i = 0; i < h->n; ++i) query(label_at(i));
			for(int64_t l = prefill; l <= prefill + dom + 1; ++l) query(l);
		}
	}
	if(kind == ASSOC && (flags & F_FUNC)) iterate();
	if(flags & F_ITER) iter_life(maxsteps);
}

/* ------------------------------------------------------------------ BFS */
enum { O_SET, O_REMOVE, O_UPDATE, O_LOOKUP, O_CLEAR, O_ITER };
/* op: type(4) | flags(4) ow=1 null=2 alias=4 | label */
static uint32_t mk(int type, int fl, int64_t label) { return type | fl << 4 | (uint32_t)label << 8; }

static void
fill(int64_t n, int which)
{
	int *o = malloc((n + 1) * sizeof *o);
	perm(which, n, o);
	for(int64_t i = 0; i < n; ++i)
	{
		++mc_progress;
		if(ordered())
		{
			/* labels are kept final: gaps stay even */
			Tok *k = tok_new(T_KEY, 2 * o[i] + 1), *v = tok_new(T_VAL, 0);
			c_set(H()->c, k, v, false);
			H()->m[o[i]] = (Pair){ k, v };
		}
		else
		{
			Tok *k = tok_new(T_KEY, o[i]), *v = tok_new(T_VAL, 0);
			c_set(H()->c, k, v, false);
			H()->m[o[i]] = (Pair){ k, v };
		}
	}
	H()->n = n;
	free(o);
}

static void
map_init1(void)
{
	Host *h = H();
	if(poolmode && kind == RB) h->pool = rec_pool_new(poolmode, sizeof(RBNode), cap + 20);
	h->c = c_new();
	if(prefill) fill(prefill, pat);
}

static void
map_init(void)
{
	ev_reset();
	ngone = gone_base = 0;
	cb_hook = NULL;
	for(cur = nested; cur > 0; --cur) map_init1();
	map_init1();
}

static int
map_ops1(uint32_t *out)
{
	Host *h = H();
	int n = 0;
	int64_t first, lastl;
	if(ordered()) { first = 0; lastl = 2 * h->n; }
	else { first = prefill; lastl = prefill + dom - 1; }

	for(int64_t l = first; l <= lastl; ++l)
	{
		bool found;
		if(fan && ordered() && h->n > (uint64_t)fan)
		{
			/* both ends, middle and a stride of positions */
			int64_t st = (lastl + fan) / fan;
			if(!(l < 6 || l > lastl - 6 || l % st < 2)) continue;
		}
		m_find(l, &found);
		int nulls = valnull ? 2 : 1;
		for(int z = 0; z < nulls; ++z)
		{
			if(found)
			{
				out[n++] = mk(O_SET, z * 2, l);
				if(ow_ops) out[n++] = mk(O_SET, z * 2 + 1, l);
				if(alias_ops) out[n++] = mk(O_SET, z * 2 + 4, l);
				if(upd) out[n++] = mk(O_UPDATE, z * 2, l);
			}
			else if(h->n < (uint64_t)cap)
			{
				out[n++] = mk(O_SET, z * 2 + (l & 2 ? 1 : 0), l);
			}
		}
		out[n++] = mk(O_REMOVE, 0, l);
		if(found && alias_ops) out[n++] = mk(O_REMOVE, 4, l);
		if(lk) out[n++] = mk(O_LOOKUP, 0, l);
		if(n > MC_MAX_OPS - 20) break;
	}
	if(clr) out[n++] = mk(O_CLEAR, 0, 0);
	if(iter_ops) for(int v = 0; v < (kind == RB ? 4 : 1); ++v) out[n++] = mk(O_ITER, 0, v);
	return n;
}

/* the life of an iterator as one operation: 0 iterate; trees: 1 reused on the same tree, 2 first over an empty tree,
   3 first over a tree of one key */
static void
do_iter(int v)
{
	AnyIter it;
	int64_t last = INT64_MIN;
	RBTree *u = NULL;
	Tok *k = NULL;

	if(v >= 2)
	{
		u = rbtree_new(cb_compare, NULL, NULL, NULL);
		if(v == 3) { k = tok_new(T_KEY, 1); rbtree_set(u, k, NULL, false); }
		i_init(u, &it, 0xA5);
		for(int i = 0; i < v - 2; ++i) i_next(&it);
	}
	else
	{
		i_init(H()->c, &it, 0xA5);
		if(v) for(uint64_t i = 0; i < H()->n / 2 + 1; ++i) i_next(&it);
	}
	if(v) rbtree_iter_reuse(H()->c, &it.r);
	seen_reset(H()->n);
	iterate_rest(&it, 0, &last);
	i_free(&it);
	if(u) rbtree_destroy(u);
	if(k) tok_drop(k);
}

static void
map_apply1(uint32_t op)
{
	int type = op & 15, fl = op >> 4 & 15;
	int64_t l = op >> 8;
	switch(type)
	{
		case O_SET: do_set(l, fl & 1, fl & 2, fl & 4); break;
		case O_REMOVE: do_remove(l, fl & 4); break;
		case O_UPDATE: do_lookup(l, 1, fl & 2); break;
		case O_LOOKUP: do_lookup(l, 0, 0); break;
		case O_CLEAR: do_clear(); break;
		case O_ITER: do_iter(l); break;
	}
	pool_ok();
}

/* nested: operation of A in 10 bits, of B in 10 bits, callback number in 4, order swapped in 1 */
static uint32_t small(uint32_t op) { return (op & 7) | (op >> 4 & 7) << 3 | (op >> 8) << 6; }
static uint32_t unsmall(uint32_t s) { return (s & 7) | (s >> 3 & 7) << 4 | (s >> 6 & 15) << 8; }
static uint32_t opa, opb;
static int ia;

static void
run_a(void)
{
	cur = ia;
	map_apply1(opa);
}

static void
run_b(void)
{
	int c = cur, g = gone_base;
	cur = !ia;
	gone_base = ngone;
	map_apply1(opb);
	cur = c;
	gone_base = g;
}

static int
map_ops(uint32_t *out)
{
	if(!nested) return map_ops1(out);
	static uint32_t a[2][MC_MAX_OPS];
	int n[2], k = 0, depth = opt("callbacks", 5);
	for(cur = 0; cur < 2; ++cur) n[cur] = map_ops1(a[cur]);
	cur = 0;
	for(int w = 0; w < 2; ++w)
	for(int i = 0; i < n[w]; ++i)
	for(int j = 0; j < n[!w]; ++j)
	for(int d = 0; d < depth; ++d)
	{
		if(k < MC_MAX_OPS) out[k++] = small(a[w][i]) | small(a[!w][j]) << 10 | d << 20 | w << 24;
	}
	return k;
}

static void
map_apply(uint32_t op)
{
	if(!nested) { map_apply1(op); return; }
	opa = unsmall(op & 1023);
	opb = unsmall(op >> 10 & 1023);
	ia = op >> 24 & 1;
	nest_run(op >> 20 & 15, run_a, run_b);
	cur = 0;
}

static void
map_finish1(void)
{
	Host *h = H();
	c_end();
	drop_all();
	settle();
	if(h->pool)
	{
		if(flags & F_POOL) CHECK(h->pool->live == 0, "%u pool items were not returned when the container was freed", h->pool->live);
		rec_pool_destroy(h->pool);
	}
	if(h->storage) h_free(h->storage);
}

static void
map_finish(void)
{
	for(cur = nested; cur > 0; --cur) map_finish1();
	map_finish1();
	if(flags & F_MEM) CHECK(mc_lib_live() == 0, "%lu blocks were not given back", (unsigned long)mc_lib_live());
}

/* both instances iterated in lockstep */
static void
lockstep(void)
{
	AnyIter it[2];
	uint64_t k[2] = { 0, 0 };
	bool more[2] = { true, true };
	static uint8_t s[2][2048];
	memset(s, 0, sizeof s);
	for(cur = 0; cur < 2; ++cur) i_init(H()->c, &it[cur], 0xA5);
	while(more[0] || more[1])
	{
		for(cur = 0; cur < 2; ++cur)
		{
			Pair fn, mac;
			if(!more[cur]) continue;
			if(!(more[cur] = i_next(&it[cur]))) continue;
			CHECK(++k[cur] <= H()->n, "iterator yields more items than stored in its container");
			i_get(&it[cur], &fn, &mac);
			bool found = false;
			uint64_t i = 0;
			for(; i < H()->n; ++i) if(H()->m[i].key == fn.key) { found = true; break; }
			CHECK(found && H()->m[i].val == fn.val && !s[cur][i], "iterator yields a pair that is not stored in its container, or twice");
			s[cur][i] = 1;
		}
	}
	for(cur = 0; cur < 2; ++cur)
	{
		CHECK(k[cur] == H()->n, "iterator ends after %lu of %lu items", (unsigned long)k[cur], (unsigned long)H()->n);
		i_free(&it[cur]);
	}
	cur = 0;
}

static void
map_observe(void)
{
	for(cur = nested; cur > 0; --cur) observe_model(64);
	observe_model(64);
	if(nested) lockstep();
}

static void
map_describe(uint32_t op, char *b, size_t n)
{
	if(nested)
	{
		char x[100], y[100];
		nested = false;
		map_describe(unsmall(op & 1023), x, sizeof x);
		map_describe(unsmall(op >> 10 & 1023), y, sizeof y);
		nested = true;
		snprintf(b, n, "%c.%s with %c.%s in its callback #%u", op >> 24 & 1 ? 'B' : 'A', x, op >> 24 & 1 ? 'A' : 'B', y, op >> 20 & 15);
		return;
	}
	int type = op & 15, fl = op >> 4 & 15;
	static const char *nm[] = { "set", "remove", "lookup+set_value", "lookup", "clear", "iterate" };
	snprintf(b, n, "%s(%u%s%s%s)", nm[type], op >> 8, fl & 1 ? ",overwrite" : "", fl & 2 ? ",NULL" : "", fl & 4 ? ",stored object" : "");
}

static void
options(void)
{
	const char *k = opts("kind", "hash");
	kind = !strcmp(k, "hash") ? HASH : !strcmp(k, "rb") ? RB : ASSOC;
	form = opt("form", 0);
	fk = opt("fk", 0);
	fv = opt("fv", 0);
	valnull = opt("null", 0);
	bsize = opt("size", 0);
	hashid = opt("hash", 0);
	poolmode = opt("pool", 0);
	dom = opt("dom", 3);
	prefill = opt("prefill", 0);
	pat = opt("pat", 0);
	cap = opt("cap", kind == HASH ? prefill + dom : 4);
	lk = opt("lookup", 0);
	upd = opt("update", 1);
	ow_ops = opt("ow", 1);
	alias_ops = opt("alias", 0);
	clr = opt("clear", 1);
	iter_ops = opt("iterop", 0);
	fan = opt("fan", 0);
	parse_flags();
	rich = true;
}

/* states with equal shape/order and contents are identified (abs=1) */
#if HAVE_RB_FIELDS
static void
mix_tree(const RBNode *n, int depth)
{
	if(!n || depth > 64) { mc_mix(77); return; }
	mc_mix(1000 + ((const Tok *)n->key)->label);
	mc_mix(n->black * 2 + (n->value != NULL));
	mix_tree(n->left, depth + 1);
	mix_tree(n->right, depth + 1);
}
#endif

static void
map_abstract1(void)
{
	Host *h = H();
	mc_mix(h->n);
	for(uint64_t i = 0; i < h->n; ++i) { mc_mix(label_at(i)); mc_mix(h->m[i].val != NULL); }
#if HAVE_RB_FIELDS
	if(kind == RB) { mix_tree(((RBTree *)h->c)->root, 0); return; }
#endif
	AnyIter it;
	uint64_t k = 0;
	i_init(h->c, &it, 0xA5);
	while(k < h->n && i_next(&it))
	{
		Pair fn, mac;
		i_get(&it, &fn, &mac);
		mc_mix(fn.key ? fn.key->label : -1);
		++k;
	}
	i_free(&it);
}

static void
map_abstract(void)
{
	for(cur = nested; cur > 0; --cur) map_abstract1();
	map_abstract1();
}

static Sys sys = { "map", 0, map_init, map_ops, map_apply, map_observe, map_finish, map_describe, map_abstract };

static Sys *
map_bfs(void)
{
	options();
	nested = opt("nest", 0);
	host_bytes = sizeof(Host) + (cap + 20 + (prefill > cap ? prefill - cap : 0)) * sizeof(Pair);
	sys.host_size = host_bytes * (nested ? 2 : 1);
	return &sys;
}

/* ------------------------------------------------------------------ sweeps */
static void
sweep_begin(uint64_t n)
{
	size_t sz = sizeof(Host) + (n + 40) * sizeof(Pair);
	sw_host = calloc(1, sz);
	cap = n + 40;
	ev_reset();
	ngone = 0;
	if(poolmode && kind == RB) sw_host->pool = rec_pool_new(poolmode, sizeof(RBNode), cap);
	sw_host->c = c_new();
}

static void
sweep_end(void)
{
	map_finish();
	free(sw_host);
	sw_host = NULL;
}

/* C02: with consecutive hash values any key is found with at most two equality tests;
   with a fixed number of buckets, which then all hold as many keys, with twice as many at most */
static void
cheap(int64_t lo, int64_t hi, uint64_t step)
{
	uint64_t most = bsize ? 2 * ((H()->n + bsize - 1) / bsize) : 2;
	for(int64_t l = lo; l < hi; l += step)
	{
		Tok t = { TOK_MAGIC, l, T_KEY };
		cmp_calls = 0;
		bool e = hashtable_key_exists(H()->c, &t);
		CHECK(cmp_calls <= most, "key_exists among %lu keys took %lu equality tests", (unsigned long)H()->n, (unsigned long)cmp_calls);
		cmp_calls = 0;
		HashTablePair *p = hashtable_lookup(H()->c, &t);
		CHECK(cmp_calls <= most, "lookup among %lu keys took %lu equality tests", (unsigned long)H()->n, (unsigned long)cmp_calls);
		(void)e; (void)p;
	}
}

/* the map model is kept by label with O(1) access for huge n: label i at m[i] */
static void
big_set(int64_t slot, int64_t label, bool ow, bool null)
{
	Host *h = H();
	Tok *k = tok_new(T_KEY, label), *v = null ? NULL : tok_new(T_VAL, 0);
	bool found = h->m[slot].key != NULL;
	cmp_calls = 0;
	uint64_t n = h->n;
	int r = c_set(h->c, k, v, ow);
	COST("inserting", n);
	++sw_steps;
	++mc_progress;
	if(flags & F_FUNC) CHECK(r == (found ? 1 : 0), "set returned %s for a key that %s", r == 0 ? "NEW" : r == 1 ? "REPLACED" : "FAILED",
		found ? "exists" : "does not exist");
	if(found)
	{
		leave(h->m[slot].val, fv);
		h->m[slot].val = v;
		if(ow) { leave(h->m[slot].key, fk); h->m[slot].key = k; }
		else gone[ngone++] = k;
	}
	else
	{
		h->m[slot] = (Pair){ k, v };
		++h->n;
	}
	settle();
}

static void
big_remove(int64_t slot, int64_t label)
{
	Host *h = H();
	Tok t = { TOK_MAGIC, label, T_KEY };
	bool found = h->m[slot].key != NULL;
	cmp_calls = 0;
	uint64_t n = h->n;
	int r = c_remove(h->c, &t);
	COST("removing", n);
	++sw_steps;
	++mc_progress;
	if(r >= 0 && (flags & F_FUNC)) CHECK(r == found, "remove returned %d for a key that %s", r, found ? "exists" : "does not exist");
	if(found)
	{
		leave(h->m[slot].key, fk);
		leave(h->m[slot].val, fv);
		h->m[slot] = (Pair){ NULL, NULL };
		--h->n;
	}
	settle();
}

static int64_t lab(int64_t slot) { return ordered() ? 2 * slot + 1 : slot; }

static void
big_query(int64_t slot)
{
	Host *h = H();
	Tok t = { TOK_MAGIC, lab(slot), T_KEY };
	Pair fn, mac;
	bool want = h->m[slot].key != NULL;
	cmp_calls = 0;
	bool e = c_exists(h->c, &t);
	COST("key_exists", h->n);
	if(flags & F_FUNC) CHECK(e == want, "key_exists says %d for label %ld, expected %d", e, (long)t.label, want);
	cmp_calls = 0;
	void *p = c_lookup(h->c, &t, &fn, &mac);
	COST("lookup", h->n);
	++mc_progress;
	if(flags & F_FUNC) CHECK((p != NULL) == want, "lookup of label %ld %s", (long)t.label, p ? "found a key that is not stored" : "missed a stored key");
	if(p && want)
	{
		match_pair("pair accessor", fn, h->m[slot]);
		match_pair("pair macro", mac, h->m[slot]);
	}
	if(ordered())
	{
		t.label -= 1;
		cmp_calls = 0;
		e = c_exists(h->c, &t);
		COST("key_exists", h->n);
		if(flags & F_FUNC) CHECK(!e, "a key that was never stored is reported");
	}
}

static void
big_iterate(int64_t n)
{
	Host *h = H();
	AnyIter it;
	uint64_t k = 0;
	int64_t last = INT64_MIN;
	seen_reset(n);
	i_init(h->c, &it, 0xA5);
	while(i_next(&it))
	{
		Pair fn, mac;
		++mc_progress;
		CHECK(k < h->n, "iterator yields more items than stored");
		i_get(&it, &fn, &mac);
		CHECK(fn.key == mac.key && fn.val == mac.val, "iterator accessor and macro disagree");
		int64_t slot = ordered() ? (fn.key->label - 1) / 2 : fn.key->label;
		CHECK(slot >= 0 && slot < n && h->m[slot].key == fn.key && h->m[slot].val == fn.val, "iterator yields a pair that is not stored");
		CHECK(!seenmap[slot], "iterator yields a key twice");
		seenmap[slot] = 1;
		if(kind == ASSOC) CHECK(fn.key->label > last, "iteration is not in ascending key order");
		last = fn.key->label;
		++k;
	}
	CHECK(k == h->n, "iterator ends after %lu of %lu items", (unsigned long)k, (unsigned long)h->n);
	CHECK(!i_next(&it) && !i_next(&it), "iterator restarts after its end");
	i_free(&it);
}

static void
big_verify(int64_t n)
{
	Host *h = H();
	if(flags & F_FUNC) CHECK(c_count(h->c) == h->n, "count is %lu, expected %lu", (unsigned long)c_count(h->c), (unsigned long)h->n);
	for(int64_t i = 0; i < n; ++i) big_query(i);
	pool_ok();
	shape();
	if(flags & F_ITER || (kind == ASSOC && (flags & F_FUNC))) big_iterate(n);
}

static void
big_end(int64_t n)
{
	/* compact so that the ordinary finish can release everything */
	Host *h = H();
	uint64_t k = 0;
	for(int64_t i = 0; i < n; ++i) if(h->m[i].key) h->m[k++] = h->m[i];
	h->n = k;
	sweep_end();
}

/* insert n keys in order ip, verify, replace, remove in order rp with verification, refill after clear */
static void
case_fill_drain(int64_t n, int ip, int rp, bool refill)
{
	int *o = malloc((n + 1) * sizeof *o), *q = malloc((n + 1) * sizeof *q);
	perm(ip, n, o);
	perm(rp, n, q);
	bool small = n <= 20;
	sweep_begin(n);
	for(int64_t i = 0; i < n; ++i)
	{
		big_set(o[i], lab(o[i]), i & 1, valnull && i % 3 == 1);
		if(small) big_verify(n);
		else { shape(); big_query(o[i]); big_query(o[i / 2]); }
		pool_ok();
	}
	big_verify(n);
	for(int64_t i = 0; i < n; i += n > 5000 ? 97 : 1) big_set(q[i], lab(q[i]), i & 1, valnull && i % 5 == 2);
	big_verify(n);
	for(int64_t i = 0; i < n; ++i)
	{
		big_remove(q[i], lab(q[i]));
		if(small || (n <= 2000 && i % (n / 8 + 1) == 0) || i == n / 2) big_verify(n);
		else { big_query(q[i]); big_query(q[i / 2]); if(n <= 5000) shape(); }
		pool_ok();
	}
	big_verify(n);
	if(refill)
	{
		/* emptied by removals: as new; then cleared: as new */
		for(int64_t i = 0; i < n; ++i) big_set(q[i], lab(q[i]), i & 1, false);
		big_verify(n);
		Host *h = H();
		c_clear(h->c);
		for(int64_t i = 0; i < n; ++i)
		{
			if(!h->m[i].key) continue;
			leave(h->m[i].key, fk);
			leave(h->m[i].val, fv);
			h->m[i] = (Pair){ NULL, NULL };
		}
		h->n = 0;
		settle();
		big_verify(n);
		for(int64_t i = 0; i < n; ++i)
		{
			big_remove(q[i], lab(q[i]));
			if(n <= 20) big_verify(n);
		}
		int64_t m = n < 40 ? n : n / 3 + 2;
		for(int64_t i = 0; i < m; ++i)
		{
			big_set(o[i], lab(o[i]), i & 1, valnull && i % 4 == 1);
			if(n <= 20) big_verify(n);
		}
		big_verify(n);
	}
	big_end(n);
	free(o);
	free(q);
}

/* C02 */
static void
case_cost(int64_t n, int ip, int variant)
{
	int *o = malloc((n + 1) * sizeof *o);
	perm(ip, n, o);
	sweep_begin(n);
	Host *h = H();
	/* variants: 0 plain fill; 1 with interleaved remove/re-insert; 2 fill, clear, fill; 3 fill half, empty, fill;
	   4 keys shifted so that hash values end at UINT32_MAX; 5 shrink from the front and regrow; 6 fill a third, clear, fill;
	   7 fill and clear in growing portions, then fill */
	int64_t base = variant == 4 ? (int64_t)UINT32_MAX - n : 0;
	for(int64_t round = 0; round < (variant == 7 ? 3 : variant == 2 || variant == 3 || variant == 6); ++round)
	{
		int64_t m = variant == 2 ? n : variant == 3 ? n / 2 : variant == 6 ? n / 3 : n * (round + 1) / 4;
		for(int64_t i = 0; i < m; ++i)
		{
			big_set(o[i], o[i], false, false);
			if(variant == 7 && ip == 0) cheap(o[i], o[i] + 2, 1);
		}
		if(variant != 3)
		{
			c_clear(h->c);
			for(int64_t i = 0; i < n; ++i)
			{
				if(h->m[i].key) { leave(h->m[i].key, fk); leave(h->m[i].val, fv); h->m[i] = (Pair){ NULL, NULL }; settle(); }
			}
			h->n = 0;
		}
		else for(int64_t i = 0; i < m; ++i) big_remove(o[i], o[i]);
	}
	/* in these orders the stored keys are consecutive at every moment */
	bool always = ip == 0 || ip == 1 || ip == 3;
	for(int64_t i = 0; i < n; ++i)
	{
		big_set(o[i], base + o[i], false, false);
		if(variant == 1 && i % 3 == 2)
		{
			big_remove(o[i - 1], o[i - 1]);
			big_set(o[i - 1], o[i - 1], false, false);
		}
		if(!always) continue;
		/* the key just stored, a few others, one absent: bounded at every size */
		if(ip == 0) cheap(base + o[i], base + o[i] + 2, 1);
		else cheap(base + o[i], base + o[i] + 1, 1);
		if(ip == 1 && o[i]) cheap(base + o[i] - 1, base + o[i], 1);
		cheap(base + o[i / 2], base + o[i / 2] + 1, 1);
		/* around every enlargement and periodically: all */
		if(n <= 600 ? i % 16 == 0 : i % (n / 6 + 1) == 0) cheap(base, base + n, 1);
	}
	cheap(base, base + n, 1);
	if(variant == 5)
	{
		/* shrink from the front, then grow again: what is left stays consecutive */
		for(int64_t i = 0; i < n - n / 4; ++i)
		{
			big_remove(i, i);
			if(i % (n / 20 + 1) == 0) cheap(i + 1, n, n / 200 + 1);
		}
		for(int64_t i = n - n / 4 - 1; i >= 0; --i)
		{
			big_set(i, i, false, false);
			if(i % (n / 20 + 1) == 0) cheap(i, n, n / 200 + 1);
		}
		cheap(0, n, 1);
	}
	big_end(n);
	free(o);
}

/* fill, empty (clear or remove), three times with all combinations of sizes */
static void
case_cycles(const int64_t *n, int mode, int ip)
{
	int64_t top = 0;
	for(int c = 0; c < 3; ++c) if(n[c] > top) top = n[c];
	int *o = malloc((top + 1) * sizeof *o);
	sweep_begin(top);
	Host *h = H();
	for(int c = 0; c < 3; ++c)
	{
		perm(ip, n[c], o);
		for(int64_t i = 0; i < n[c]; ++i)
		{
			big_set(o[i], lab(o[i]), i & 1, valnull && i % 3 == 1);
			big_query(o[i / 2]);
		}
		big_verify(top);
		if(c == 2) break;
		if(mode >> c & 1)
		{
			c_clear(h->c);
			for(int64_t i = 0; i < n[c]; ++i)
			{
				leave(h->m[i].key, fk);
				leave(h->m[i].val, fv);
				h->m[i] = (Pair){ NULL, NULL };
			}
			h->n = 0;
			settle();
		}
		else for(int64_t i = 0; i < n[c]; ++i)
		{
			big_remove(o[i], lab(o[i]));
			big_query(o[i]);
		}
		big_verify(top);
	}
	big_end(top);
	free(o);
}

static void
map_sweep(void)
{
	options();
	const char *family = opts("family", "drain");
	int64_t lo = opt("from", 0), hi = opt("to", 16);
	int64_t step = opt("step", 1);
	int pats = opt("pats", NPERM);
	bool refill = opt("refill", 0);
	if(!strcmp(family, "drain"))
	{
		for(int64_t n = lo; n <= hi; n += step)
		{
			for(int ip = 0; ip < pats; ++ip) for(int rp = 0; rp < pats; ++rp)
			{
				if(!sw_selected()) continue;
				sw_case("%s: insert %ld keys %s, remove %s", opts("kind", "hash"), (long)n, perm_name(ip), perm_name(rp));
				case_fill_drain(n, ip, rp, refill);
			}
		}
	}
	else if(!strcmp(family, "cost"))
	{
		int var = opt("variants", 8);
		for(int64_t n = lo; n <= hi; n += step)
		{
			for(int ip = 0; ip < pats; ++ip) for(int v = 0; v < var; ++v)
			{
				if(!sw_selected()) continue;
				sw_case("auto-growing table: %ld keys %s, variant %d", (long)n, perm_name(ip), v);
				case_cost(n, ip, v);
			}
		}
	}
	else if(!strcmp(family, "cycles"))
	{
		static const int64_t sizes[] = { 3, 33, 130, 600, 1400, 5000 };
		int k = opt("sizes", 5);
		for(int c = 0; c < k * k * k; ++c) for(int mode = 0; mode < 4; ++mode) for(int ip = 0; ip < pats; ++ip)
		{
			int64_t n[3] = { sizes[c % k], sizes[c / k % k], sizes[c / k / k] };
			if(!sw_selected()) continue;
			sw_case("%s: %ld keys %s, %s, %ld keys, %s, %ld keys", opts("kind", "hash"), (long)n[0], perm_name(ip), mode & 1 ? "cleared" : "emptied", (long)n[1],
				mode & 2 ? "cleared" : "emptied", (long)n[2]);
			case_cycles(n, mode, ip);
		}
	}
	else if(!strcmp(family, "iter"))
	{
		/* iterator life cycles on larger containers */
		for(int64_t n = lo; n <= hi; n += step) for(int ip = 0; ip < pats; ++ip)
		{
			if(!sw_selected()) continue;
			sw_case("%s: iterators over %ld keys inserted %s", opts("kind", "hash"), (long)n, perm_name(ip));
			sweep_begin(n + 10);
			fill(n, ip);
			++sw_steps;
			iter_life(opt("steps", 64));
			sweep_end();
		}
	}
}

const Harness h_map = { "map", map_bfs, map_sweep };
