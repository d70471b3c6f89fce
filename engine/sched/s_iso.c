/*
 * Two threads, each with a container of its own and no synchronisation between them: every pair of kinds.
 * Oracle: no memory access of one thread conflicts with one of the other (happens-before over all accesses), and both
 * get the answers they get alone - with a switch before every single memory access (access=1, pb=1..).
 */
#include "sched.h"
#include "datatypes.h"
#include <unistd.h>

static int size_n;
static uint64_t dig[MAXT + 1];
static uint64_t n_pairs, n_calls;

static void
put(uint64_t v)
{
	++n_calls;
	dig[cur] = (dig[cur] ^ v) * 1099511628211ULL + 0x9E37;
}

typedef struct { int v; char s[12]; } Obj;

static Obj *
mk(int v)
{
	Obj *o = a_alloc(sizeof *o);

	o->v = v;
	snprintf(o->s, sizeof o->s, "k%d", v);

	return o;
}

static int32_t c_cmp(const void *a, const void *b) { const Obj *x = a, *y = b; return x->v < y->v ? -1 : x->v > y->v; }
static bool c_eq(const void *a, const void *b) { return c_cmp(a, b) == 0; }
static uint32_t c_hash(const void *a) { return ((const Obj *)a)->v * 2654435761u; }
static void c_free(void *p) { put(0xF00 + ((Obj *)p)->v); }
static int ord(int i) { return (i * 7 + 3) % size_n; }

static void
k_hash(int v)
{
	HashTable *h = hashtable_new(v ? 3 : HASHTABLE_AUTO_RESIZE, c_hash, c_eq, c_free, c_free);

	for(int r = 0; r < 2; ++r)
	{
		for(int i = 0; i < size_n; ++i)
		{
			put(hashtable_set(h, mk(ord(i)), mk(100 + i), r));
		}

		for(int i = 0; i < size_n; i += 2)
		{
			Obj *k = mk(i);
			HashTablePair *p = hashtable_lookup(h, k);

			if(p)
			{
				put(((Obj *)hashtable_pair_get_key(p))->v);
				put(((Obj *)hashtable_pair_get_value(p))->v);
				hashtable_pair_set_value(p, mk(200 + i));
			}

			put(hashtable_key_exists(h, k));

			if(i % 4 == 0)
			{
				hashtable_remove(h, k);
			}
		}

		HashTableIter it;

		hashtable_iter_init(h, &it);

		uint64_t s = 0;

		while(hashtable_iter_next(&it))
		{
			s += ((Obj *)hashtable_iter_get_key(&it))->v * 31 + ((Obj *)hashtable_iter_get_value(&it))->v;
		}

		put(s);
		put(hashtable_count(h));

		if(!r && v)
		{
			hashtable_clear(h);
		}
	}

	hashtable_destroy(h);
}

static void k_hash_auto(void) { k_hash(0); }
static void k_hash_fixed(void) { k_hash(1); }

static void
k_strings(void)
{
	HashTable *h = hashtable_new(7, str_hash, str_equal, NULL, NULL);
	RBTree *t = rbtree_new((CompareFunc)strcmp, NULL, NULL, NULL);
	HashTable *d = hashtable_new(7, direct_hash, direct_equal, NULL, NULL);
	AssocArray *a = assoc_array_new(direct_compare, NULL, NULL);

	for(int i = 0; i < size_n; ++i)
	{
		Obj *o = mk(ord(i));

		put(hashtable_set(h, o->s, o, false));
		put(rbtree_set(t, o->s, o, false));
		put(hashtable_set(d, (void *)(uintptr_t)(i * 8 + 8), o, false));
		put(assoc_array_set(a, (void *)(uintptr_t)(i * 8 + 8), o, false));
	}

	for(int i = 0; i < size_n; ++i)
	{
		Obj *o = mk(i);

		put(hashtable_key_exists(h, o->s));
		put(rbtree_key_exists(t, o->s));
		put(str_hash(o->s));
		put(str_equal(o->s, "k1"));
		put(direct_hash((void *)(uintptr_t)i));
		put(direct_compare((void *)1, (void *)(uintptr_t)i) + 5);
		put(direct_equal((void *)1, (void *)(uintptr_t)i));
	}

	hashtable_destroy(h);
	rbtree_destroy(t);
	hashtable_destroy(d);
	assoc_array_destroy(a);
}

static void
k_tree(int v)
{
	MemoryPool *mp = v ? memory_pool_new(sizeof(RBNode), 3) : NULL;
	RBTree *t = rbtree_new(c_cmp, c_free, c_free, (Pool *)mp);

	for(int r = 0; r < 2; ++r)
	{
		for(int i = 0; i < size_n; ++i)
		{
			put(rbtree_set(t, mk(ord(i)), mk(100 + i), r));
		}

		for(int i = 0; i < size_n; i += 2)
		{
			Obj *k = mk(i);
			RBTreePair *p = rbtree_lookup(t, k);

			if(p)
			{
				put(((Obj *)rbtree_pair_get_key(p))->v);
				put(((Obj *)rbtree_pair_get_value(p))->v);
				rbtree_pair_set_value(p, mk(200 + i));
			}

			put(rbtree_key_exists(t, k));

			if(i % 4 == 0)
			{
				put(rbtree_remove(t, k));
			}
		}

		RBTreeIter it;

		rbtree_iter_init(t, &it);

		while(rbtree_iter_next(&it))
		{
			put(((Obj *)rbtree_iter_get_key(&it))->v);
			put(((Obj *)rbtree_iter_get_value(&it))->v);
		}

		rbtree_iter_reuse(t, &it);
		put(rbtree_iter_next(&it));
		rbtree_iter_free(&it);
		put(rbtree_count(t));

		if(!r && v)
		{
			rbtree_clear(t);
		}
	}

	rbtree_destroy(t);

	if(mp)
	{
		memory_pool_destroy(mp);
	}
}

static void k_tree_plain(void) { k_tree(0); }
static void k_tree_pool(void) { k_tree(1); }

static void
k_assoc(void)
{
	AssocArray *a = assoc_array_new(c_cmp, c_free, c_free);

	for(int r = 0; r < 2; ++r)
	{
		for(int i = 0; i < size_n; ++i)
		{
			put(assoc_array_set(a, mk(ord(i)), mk(100 + i), r));
		}

		for(int i = 0; i < size_n; i += 2)
		{
			Obj *k = mk(i);
			AssocArrayPair *p = assoc_array_lookup(a, k);

			if(p)
			{
				put(((Obj *)assoc_array_pair_get_key(p))->v);
				put(((Obj *)assoc_array_pair_get_value(p))->v);
				assoc_array_pair_set_value(p, mk(200 + i));
			}

			put(assoc_array_key_exists(a, k));

			if(i % 4 == 0)
			{
				assoc_array_remove(a, k);
			}
		}

		AssocArrayIter it;

		assoc_array_iter_init(a, &it);

		while(assoc_array_iter_next(&it))
		{
			put(((Obj *)assoc_array_iter_get_key(&it))->v);
			put(((Obj *)assoc_array_iter_get_value(&it))->v);
		}

		put(assoc_array_count(a));

		if(!r)
		{
			assoc_array_clear(a);
		}
	}

	assoc_array_destroy(a);
}

static void
k_list(void)
{
	MemoryPool *mp = memory_pool_new(sizeof(ListItem), 2);
	List *l = list_new(c_cmp, c_free, NULL), *s = list_new(c_cmp, NULL, (Pool *)mp);

	for(int i = 0; i < size_n; ++i)
	{
		i & 1 ? list_append(l, mk(ord(i) % 5)) : list_prepend(l, mk(ord(i) % 5));
		list_insert_sorted(s, mk(ord(i)));
	}

	Obj *k = mk(2);

	put(list_contains(l, k));
	put(list_find(l, NULL, k) != NULL);
	list_remove_by_data(l, k, false);
	list_remove_by_data(l, mk(3), true);

	for(ListItem *i = list_head(s); i; i = list_item_next(i))
	{
		put(((Obj *)list_item_get_data(i))->v);
	}

	if(list_tail(s))
	{
		list_remove(s, list_tail(s));
	}

	if(list_head(l))
	{
		list_remove(l, list_head(l));
	}

	void *p = list_count(s) ? list_pop(s) : NULL;

	put(p ? ((Obj *)p)->v : -1);
	put(list_count(l));
	put(list_empty(s));
	list_clear(l);
	list_append(l, mk(1));
	list_destroy(l);
	list_destroy(s);
	memory_pool_destroy(mp);
}

static void
k_slist(void)
{
	MemoryPool *mp = memory_pool_new(sizeof(SListItem), 2);
	SList *l = slist_new(c_cmp, c_free, NULL), *s = slist_new(c_cmp, NULL, (Pool *)mp);

	for(int i = 0; i < size_n; ++i)
	{
		i & 1 ? slist_append(l, mk(ord(i) % 5)) : slist_prepend(l, mk(ord(i) % 5));
		slist_insert_sorted(s, mk(ord(i)));
	}

	Obj *k = mk(2);

	put(slist_contains(l, k));
	put(slist_find(l, NULL, k) != NULL);
	slist_remove_by_data(l, k, false);
	slist_remove_by_data(l, mk(3), true);

	for(SListItem *i = slist_head(s); i; i = slist_item_next(i))
	{
		put(((Obj *)slist_item_get_data(i))->v);
	}

	if(slist_head(l))
	{
		slist_remove(l, slist_head(l));
	}

	void *p = slist_count(s) ? slist_pop(s) : NULL;

	put(p ? ((Obj *)p)->v : -1);
	put(slist_count(l));
	put(slist_empty(s));
	slist_clear(l);
	slist_append(l, mk(1));
	slist_destroy(l);
	slist_destroy(s);
	memory_pool_destroy(mp);
}

static void
k_stack_queue(void)
{
	Stack *s = stack_new(c_cmp, c_free, NULL);
	Queue *q = queue_new(c_cmp, c_free, NULL);
	void *p = NULL;

	for(int i = 0; i < size_n; ++i)
	{
		stack_push(s, mk(i));
		queue_push(q, mk(i));

		if(i % 3 == 2)
		{
			put(stack_pop(s, &p));
			put(((Obj *)p)->v);
			put(queue_pop(q, &p));
			put(((Obj *)p)->v);
		}

		put(stack_head(s, &p));
		put(((Obj *)p)->v);
	}

	put(stack_count(s));
	put(queue_count(q));
	stack_clear(s);
	put(stack_pop(s, &p));
	stack_destroy(s);
	queue_destroy(q);
}

static void
k_async(void)
{
	AsyncQueue *q = async_queue_new(c_cmp, c_free, NULL);
	void *p = NULL;

	for(int i = 0; i < size_n; ++i)
	{
		async_queue_push(q, mk(i));
		put(async_queue_count(q));

		if(i % 3 == 2)
		{
			put(async_queue_pop(q, &p));
			put(((Obj *)p)->v);
			put(async_queue_pop_timeout(q, &p, 5));
			put(((Obj *)p)->v);
		}
	}

	async_queue_clear(q);
	put(async_queue_count(q));
	async_queue_destroy(q);
}

static void
k_pool(void)
{
	MemoryPool *mp = memory_pool_new(24, 3);
	Pool *p = (Pool *)mp;
	void *it[1024];

	for(int r = 0; r < 2; ++r)
	{
		for(int i = 0; i < size_n; ++i)
		{
			it[i] = p->alloc(p);
			memset(it[i], i, 24);
		}

		for(int i = 0; i < size_n; ++i)
		{
			put(((uint8_t *)it[i])[23]);
			p->free(p, it[i]);
		}
	}

	memory_pool_destroy(mp);
}

static uint32_t rd_pos[MAXT + 1];

ssize_t
__wrap_read(int fd, void *buf, size_t n)
{
	if(n > 9)
	{
		n = 9;
	}

	for(size_t i = 0; i < n; ++i)
	{
		((char *)buf)[i] = 'a' + (rd_pos[cur]++ + fd) % 11;
	}

	return n;
}

static const char big[5000];

static void
k_buffer(void)
{
	Buffer *b = buffer_new(4000);
	char *d = NULL;
	size_t len = 0;

	for(int i = 0; i < size_n; ++i)
	{
		Obj *o = mk(i);

		put(buffer_fill(b, o->s, strlen(o->s)));

		if(i % 3 == 0)
		{
			put(buffer_fill(b, "\n", 1));
		}

		put(buffer_fill_from_fd(b, 5, 7));

		if(i % 2)
		{
			d = NULL;
			len = 0;

			if(buffer_read_line(b, &d, &len))
			{
				for(size_t k = 0; k < len && d[k]; ++k)
				{
					put(d[k]);
				}
			}
		}
	}

	char *s = buffer_to_string(b);

	put(strlen(s));
	put(buffer_len(b));
	put(buffer_is_valid(b));
	put(buffer_is_empty(b));
	put(buffer_fill(b, big, sizeof big));
	put(buffer_is_valid(b));
	buffer_clear(b);
	put(buffer_fill(b, "x", 1));
	buffer_destroy(b);
}

typedef struct { const char *name; void (*run)(void); } Kind;
static const Kind kinds[] = {
	{ "hash-auto", k_hash_auto }, { "hash-fixed", k_hash_fixed }, { "strings", k_strings }, { "tree", k_tree_plain }, { "tree-pool", k_tree_pool },
	{ "assoc", k_assoc }, { "list", k_list }, { "slist", k_slist }, { "stack-queue", k_stack_queue }, { "async", k_async }, { "pool", k_pool },
	{ "buffer", k_buffer }
};
#define NK ((int)(sizeof kinds / sizeof *kinds))

static int pair[2], nrun;
static uint64_t want[2];
static bool solo;

static void
thread(int id)
{
	kinds[pair[id]].run();
}

static void
setup(void)
{
	memset(dig, 0, sizeof dig);
	memset(rd_pos, 0, sizeof rd_pos);

	for(int i = 0; i < nrun; ++i)
	{
		fib_start(thread);
	}
}

static void quiet(void) {}

static void
finish(bool all)
{
	if(!all)
	{
		fail("an operation on a container no other thread uses blocks for ever");
	}

	for(int i = 0; i < nrun; ++i)
	{
		if(solo)
		{
			want[i] = dig[i];
		}
		else if(dig[i] != want[i])
		{
			fail("thread %d (%s) gets other answers than alone while another thread uses a %s of its own", i, kinds[pair[i]].name, kinds[pair[!i]].name);
		}
	}
}

static void
one_pair(int a, int b, int n)
{
	bool acc = cfg.access, rc = cfg.races;
	uint64_t w0;

	size_n = n;
	cfg.access = false;
	cfg.races = false;
	solo = true;
	nrun = 1;
	pair[0] = b;
	snprintf(prog_text, sizeof prog_text, "%d,%d,%d;access=%d;pb=%d", a, b, n, acc, cfg.pb);
	explore(setup, finish, quiet);
	w0 = want[0];
	pair[0] = a;
	explore(setup, finish, quiet);
	want[1] = w0;
	solo = false;
	nrun = 2;
	pair[1] = b;
	cfg.access = acc;
	cfg.races = rc;
}

int
s_iso(const char *mode)
{
	cfg.races = strstr(opts("check", "race"), "race") != NULL;
	cfg.access = opt("access", 0);
	cfg.pb = opt("pb", 1);
	cfg.clock0 = 1000000LL * 1000000000LL;
	cfg.cap = opt("cap", 0);

	if(!strcmp(mode, "replay"))
	{
		int a, b, n, acc, pb;

		if(sscanf(opts("prog", ""), "%d,%d,%d;access=%d;pb=%d", &a, &b, &n, &acc, &pb) != 5)
		{
			return 3;
		}

		cfg.access = acc;
		cfg.pb = pb;
		one_pair(a, b, n);
		replay(opts("trace", ""), setup, finish, quiet);
		return 0;
	}

	long shard = opt("shard", 0), shards = opt("shards", 1), k = 0, from = opt("from", 1), to = opt("to", 6), step = opt("step", 1);

	for(int n = from; n <= to; n += step)
	{
		for(int a = 0; a < NK; ++a)
		{
			for(int b = 0; b < NK; ++b)
			{
				if(k++ % shards == shard)
				{
					one_pair(a, b, n);
					++n_pairs;
					explore(setup, finish, quiet);
				}
			}
		}
	}

	printf("{\"harness\":\"iso\",\"mode\":\"%s\",\"programs\":%llu,\"schedules\":%llu,\"choice_points\":%llu,\"switches\":%llu,"
	       "\"outcomes\":%llu,\"accesses\":%llu,\"capped\":%llu,\"skipped\":%llu,\"waits\":0,\"timeouts\":0,\"lin_steps\":%llu,\"last\":\"%s\"}\n",
	       mode, (unsigned long long)n_pairs, (unsigned long long)n_exec, (unsigned long long)n_points, (unsigned long long)n_switch,
	       (unsigned long long)n_pairs, (unsigned long long)n_accesses, (unsigned long long)n_capped, (unsigned long long)n_skipped,
	       (unsigned long long)n_calls, prog_text);

	return 0;
}
