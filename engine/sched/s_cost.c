/*
 * Effort of operations: the library's memory accesses are counted (compiler instrumentation, block operations by
 * their length) while all short operation sequences run on containers prefilled to many sizes.
 * Oracle: operations at the ends, by handle, counts and state queries stay below one constant at every size; ordered
 * maps below a multiple of the logarithm; growing, iterating and filling in small pieces below a multiple of the number
 * of elements handled so far.
 */
#include "sched.h"
#include "datatypes.h"

#define K_CONST 400
static int kind, pre, len, pat;
static int word[8];
static uint64_t n_prog, n_ops, worst, n_items;
static const char *worst_op = "";

static int32_t c_cmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static bool c_eq(const void *a, const void *b) { return a == b; }
static uint32_t c_hash(const void *a) { return (uintptr_t)a; }
static void *P(uint64_t i) { return (void *)(uintptr_t)(i + 1); }

enum { LIST, SLIST, STACK, QUEUE, ASYNC, POOL, HASH, TREE, ASSOC, BUFFER, NKIND };
static const char *kname[] = { "list", "singly-linked list", "stack", "queue", "asynchronous queue", "pool", "hash table", "tree", "associative array", "buffer" };

static uint64_t t0;
static void begin(void) { t0 = n_touch; }

static uint64_t
lg(uint64_t n)
{
	uint64_t r = 1;

	while(n >>= 1)
	{
		++r;
	}

	return r;
}

static void
within(const char *op, uint64_t limit)
{
	uint64_t t = n_touch - t0;

	++n_ops;

	if(t > worst && limit == K_CONST)
	{
		worst = t;
		worst_op = op;
	}

	if(t > limit)
	{
		fail("%s: %s takes %llu memory accesses with %llu elements stored, at most %llu are expected", kname[kind], op, (unsigned long long)t, (unsigned long long)n_items,
		     (unsigned long long)limit);
	}
}

#define CONST(op, call) do { begin(); call; within(op, K_CONST); } while(0)
#define LOG(op, call) do { begin(); call; within(op, 100 + 60 * lg(n_items + 1)); } while(0)
#define LIN(op, call, n) do { begin(); call; within(op, 600 + 40 * (uint64_t)(n)); } while(0)

/* amortised: all growth so far */
static uint64_t grown, inserted, g0;
#define GROW(op, call) do { begin(); call; grown += n_touch - t0; ++inserted; ++n_ops; \
	if(grown > g0 + 120 * inserted) \
		fail("%s: %llu insertions took %llu memory accesses, at most %llu are expected", kname[kind], (unsigned long long)inserted, (unsigned long long)grown, (unsigned long long)(g0 + 120 * inserted)); } while(0)

static List *list;
static SList *slist;
static Stack *stack;
static Queue *queue;
static AsyncQueue *aq;
static Pool *pool;
static HashTable *hash;
static RBTree *tree;
static AssocArray *assoc;
static Buffer *buf;
static ListItem *hnd[200000];
static void *itm[200000];
static uint64_t nh, next_key, low_key;

static void
op_list(int o)
{
	void *p;
	(void)p;

	switch(o)
	{
		case 0: CONST("appending", hnd[nh] = list_append(list, P(nh))); ++nh; ++n_items; break;
		case 1: CONST("prepending", hnd[nh] = list_prepend(list, P(nh))); ++nh; ++n_items; break;
		case 2:
			if(n_items && list_head(list))
			{
				ListItem *h = list_head(list);

				CONST("popping", p = list_pop(list));
				--n_items;

				for(uint64_t i = 0; i < nh; ++i) if(hnd[i] == h) hnd[i] = NULL;
			}
			break;
		case 3:
		case 4:
		case 5:
		{
			ListItem *h = o == 3 ? list_head(list) : o == 4 ? list_tail(list) : NULL;

			for(uint64_t i = nh / 2; o == 5 && i < nh && !h; ++i)
			{
				h = hnd[i];
			}

			if(h)
			{
				CONST("removing by handle", list_remove(list, h));
				--n_items;

				for(uint64_t i = 0; i < nh; ++i) if(hnd[i] == h) hnd[i] = NULL;
			}
			break;
		}
		case 6:
			CONST("counting", list_count(list));
			CONST("asking for the head", list_head(list));
			CONST("asking for the tail", list_tail(list));
			CONST("asking for emptiness", list_empty(list));
			break;
		case 7: if(list_tail(list)) CONST("releasing an element's data", list_item_free_data(list, list_tail(list))); break;
		case 8: LIN("clearing", list_clear(list), n_items); n_items = nh = 0; break;
	}
}

static void
op_slist(int o)
{
	void *p;
	(void)p;

	switch(o)
	{
		case 0: CONST("appending", slist_append(slist, P(nh))); ++nh; ++n_items; break;
		case 1: CONST("prepending", slist_prepend(slist, P(nh))); ++nh; ++n_items; break;
		case 2: if(n_items) { CONST("popping", p = slist_pop(slist)); --n_items; } break;
		case 3:
			CONST("counting", slist_count(slist));
			CONST("asking for the head", slist_head(slist));
			CONST("asking for emptiness", slist_empty(slist));
			break;
		case 4: if(n_items) { CONST("removing the head", slist_remove(slist, slist_head(slist))); --n_items; } break;
		case 5: LIN("clearing", slist_clear(slist), n_items); n_items = nh = 0; break;
	}
}

static void
op_sq(int o)
{
	void *p;
	bool st = kind == STACK;

	switch(o)
	{
		case 0: if(st) CONST("pushing", stack_push(stack, P(nh))); else CONST("pushing", queue_push(queue, P(nh))); ++nh; ++n_items; break;
		case 1:
			if(st) CONST("popping", stack_pop(stack, &p)); else CONST("popping", queue_pop(queue, &p));
			if(n_items) --n_items;
			break;
		case 2: if(st) CONST("counting", stack_count(stack)); else CONST("counting", queue_count(queue)); break;
		case 3: if(st) CONST("peeking", stack_head(stack, &p)); else CONST("peeking", stack_head((Stack *)queue, &p)); break;
		case 4: if(st) LIN("clearing", stack_clear(stack), n_items); else LIN("clearing", queue_clear(queue), n_items); n_items = 0; break;
	}
}

static void
op_async(int o)
{
	void *p;

	switch(o)
	{
		case 0: CONST("pushing", async_queue_push(aq, P(nh))); ++nh; ++n_items; break;
		case 1: if(n_items) { CONST("popping", async_queue_pop(aq, &p)); --n_items; } break;
		case 2: CONST("counting", async_queue_count(aq)); break;
		case 3: if(n_items) { CONST("popping with time-out", async_queue_pop_timeout(aq, &p, 1)); --n_items; } break;
		case 4: LIN("clearing", async_queue_clear(aq), n_items); n_items = 0; break;
	}
}

static void
op_pool(int o)
{
	uint64_t i;

	switch(o)
	{
		case 0: CONST("allocating", itm[nh] = pool->alloc(pool)); ++nh; ++n_items; break;
		case 1:
		case 2:
			if(nh)
			{
				i = o == 1 ? nh - 1 : 0;
				CONST("releasing", pool->free(pool, itm[i]));
				itm[i] = itm[--nh];
				--n_items;
			}
			break;
	}
}

static void
op_hash(int o)
{
	HashTableIter it;
	HashTablePair *p;

	switch(o)
	{
		case 0: GROW("inserting", hashtable_set(hash, P(next_key), P(7), false)); ++next_key; ++n_items; break;
		case 1: if(next_key > low_key) GROW("inserting or replacing", hashtable_set(hash, P(next_key - 1), P(8), true)); break;
		case 2: if(next_key > low_key) { CONST("removing", hashtable_remove(hash, P(next_key - 1))); --next_key; --n_items; } break;
		case 3: if(next_key > low_key) { CONST("removing", hashtable_remove(hash, P(low_key))); ++low_key; --n_items; } break;
		case 4:
			CONST("testing for a key", hashtable_key_exists(hash, P((low_key + next_key) / 2)));
			CONST("testing for a missing key", hashtable_key_exists(hash, P(next_key)));
			CONST("looking up", p = hashtable_lookup(hash, P(low_key)));
			if(p) CONST("updating", hashtable_pair_set_value(p, P(3)));
			CONST("counting", hashtable_count(hash));
			break;
		case 5:
			/* buckets are at most a few times the largest number of elements so far */
			begin();
			hashtable_iter_init(hash, &it);
			while(hashtable_iter_next(&it));
			within("iterating", 4000 + 40 * inserted);
			break;
		case 6: LIN("clearing", hashtable_clear(hash), 200 + inserted); n_items = 0; low_key = next_key = 0; break;
	}
}

static void
op_tree(int o)
{
	RBTreeIter it;
	RBTreePair *p;

	switch(o)
	{
		case 0: LOG("inserting", rbtree_set(tree, P(next_key), P(7), false)); ++next_key; ++n_items; break;
		case 1: if(low_key) { --low_key; LOG("inserting", rbtree_set(tree, P(low_key), P(7), false)); ++n_items; } break;
		case 2: if(next_key > low_key) { LOG("removing", rbtree_remove(tree, P(next_key - 1))); --next_key; --n_items; } break;
		case 3: if(next_key > low_key) { LOG("removing", rbtree_remove(tree, P(low_key))); ++low_key; --n_items; } break;
		case 4:
			LOG("replacing", rbtree_set(tree, P((low_key + next_key) / 2), P(7), true));
			if(next_key == low_key) { ++next_key; ++n_items; }
			LOG("testing for a key", rbtree_key_exists(tree, P(next_key)));
			LOG("looking up", p = rbtree_lookup(tree, P(low_key)));
			if(p) CONST("updating", rbtree_pair_set_value(p, P(3)));
			CONST("counting", rbtree_count(tree));
			break;
		case 5:
			begin();
			rbtree_iter_init(tree, &it);
			while(rbtree_iter_next(&it));
			rbtree_iter_free(&it);
			within("iterating", 600 + 120 * n_items);
			begin();
			rbtree_iter_init(tree, &it);
			rbtree_iter_next(&it);
			rbtree_iter_reuse(tree, &it);
			rbtree_iter_free(&it);
			within("starting to iterate", 400 + 60 * lg(n_items + 1));
			break;
		case 6: LIN("clearing", rbtree_clear(tree), n_items); n_items = 0; low_key = next_key = 1000000; break;
	}
}

static void
op_assoc(int o)
{
	AssocArrayIter it;
	AssocArrayPair *p;

	switch(o)
	{
		case 0:
			/* search and amortised growth */
			begin();
			assoc_array_set(assoc, P(next_key), P(7), false);
			grown += n_touch - t0;
			++inserted;
			++next_key;
			++n_items;
			++n_ops;

			if(grown > 2000 + inserted * (60 + 30 * lg(n_items)))
			{
				fail("associative array: %llu insertions at the end took %llu memory accesses", (unsigned long long)inserted, (unsigned long long)grown);
			}
			break;
		case 1: if(next_key > low_key) { LOG("removing the last key", assoc_array_remove(assoc, P(next_key - 1))); --next_key; --n_items; } break;
		case 2:
			if(next_key > low_key) LOG("replacing", assoc_array_set(assoc, P((low_key + next_key) / 2), P(7), true));
			LOG("testing for a key", assoc_array_key_exists(assoc, P(next_key)));
			LOG("looking up", p = assoc_array_lookup(assoc, P(low_key)));
			if(p) CONST("updating", assoc_array_pair_set_value(p, P(3)));
			CONST("counting", assoc_array_count(assoc));
			break;
		case 3:
			begin();
			assoc_array_iter_init(assoc, &it);
			while(assoc_array_iter_next(&it));
			within("iterating", 200 + 40 * n_items);
			break;
		case 4: LIN("clearing", assoc_array_clear(assoc), n_items); n_items = 0; low_key = next_key = 0; break;
	}
}

static char text[1 << 16];


static void
op_buffer(int o)
{
	char *d = NULL;
	size_t l = 0;

	switch(o)
	{
		case 0: GROW("writing a byte", buffer_fill(buf, "x", 1)); ++n_items; break;
		case 1: GROW("writing a line", buffer_fill(buf, "abc\n", 4)); n_items += 4; break;
		case 2: LIN("reading a line", buffer_read_line(buf, &d, &l), n_items); n_items = buffer_len(buf); break;
		case 3:
			CONST("asking for the length", buffer_len(buf));
			CONST("asking for validity", buffer_is_valid(buf));
			CONST("asking for emptiness", buffer_is_empty(buf));
			break;
		case 4: LIN("copying", buffer_flush(buf, &d, &l), n_items); break;
		case 5: LIN("converting", d = buffer_to_string(buf), n_items); break;
		case 6: CONST("clearing", buffer_clear(buf)); n_items = 0; break;
		case 7: LIN("writing a large block", buffer_fill(buf, text, 2000), n_items + 2000); n_items += 2000; inserted += 2000; break;
	}
}

static const int nops[] = { 9, 6, 5, 5, 5, 3, 7, 7, 5, 8 };

static void
op(int o)
{
	switch(kind)
	{
		case LIST: op_list(o); break;
		case SLIST: op_slist(o); break;
		case STACK: case QUEUE: op_sq(o); break;
		case ASYNC: op_async(o); break;
		case POOL: op_pool(o); break;
		case HASH: op_hash(o); break;
		case TREE: op_tree(o); break;
		case ASSOC: op_assoc(o); break;
		default: op_buffer(o);
	}
}

static void
setup(void)
{
	nh = n_items = grown = inserted = 0;
	low_key = next_key = kind == TREE ? 1000000 : 0;
	g0 = 3000;

	switch(kind)
	{
		case LIST: list = list_new(c_cmp, NULL, pat & 1 ? (Pool *)memory_pool_new(sizeof(ListItem), 16) : NULL); break;
		case SLIST: slist = slist_new(c_cmp, NULL, pat & 1 ? (Pool *)memory_pool_new(sizeof(SListItem), 16) : NULL); break;
		case STACK: stack = stack_new(c_cmp, NULL, pat & 1 ? (Pool *)memory_pool_new(sizeof(SListItem), 16) : NULL); break;
		case QUEUE: queue = queue_new(c_cmp, NULL, pat & 1 ? (Pool *)memory_pool_new(sizeof(SListItem), 16) : NULL); break;
		case ASYNC: aq = async_queue_new(c_cmp, NULL, pat & 1 ? (Pool *)memory_pool_new(sizeof(SListItem), 16) : NULL); break;
		case POOL: pool = (Pool *)memory_pool_new(24, pat & 1 ? 2 : 100); break;
		case HASH: hash = hashtable_new(HASHTABLE_AUTO_RESIZE, c_hash, c_eq, NULL, NULL); break;
		case TREE: tree = rbtree_new(c_cmp, NULL, NULL, pat & 1 ? (Pool *)memory_pool_new(sizeof(RBNode), 16) : NULL); break;
		case ASSOC: assoc = assoc_array_new(c_cmp, NULL, NULL); break;
		default: buf = buffer_new(1 << 20);
	}

	/* prefill: one way of adding, or both in turn */
	int ways = kind == LIST || kind == SLIST || kind == TREE || kind == BUFFER ? 2 : 1;

	for(int i = 0; i < pre; ++i)
	{
		op(ways == 1 ? 0 : pat / 2 == 0 ? 0 : pat / 2 == 1 ? 1 : i & 1);
	}

	for(int i = 0; i < len; ++i)
	{
		op(word[i]);
	}

	/* and once everything again in the state reached */
	for(int o = 0; o < nops[kind]; ++o)
	{
		op(o);
	}
}

static void finish(bool all) { (void)all; }
static void quiet(void) {}

static void
hist(char *b, size_t n)
{
	int l = snprintf(b, n, "%s, %d elements added (way %d), operations", kname[kind], pre, pat);

	for(int i = 0; i < len; ++i)
	{
		l += snprintf(b + l, n - l, " %d", word[i]);
	}
}

static void
describe(void)
{
	int l = snprintf(prog_text, sizeof prog_text, "%d,%d,%d,%d", kind, pre, pat, len);

	for(int i = 0; i < len; ++i)
	{
		l += snprintf(prog_text + l, sizeof prog_text - l, ",%d", word[i]);
	}
}

int
s_cost(const char *mode)
{
	cfg.count = true;
	cfg.clock0 = 1000000LL * 1000000000LL;
	history_cb = hist;
	memset(text, 'y', sizeof text);

	if(!strcmp(mode, "replay"))
	{
		int p = 0, k;

		if(sscanf(opts("prog", ""), "%d,%d,%d,%d%n", &kind, &pre, &pat, &len, &p) != 4)
		{
			return 3;
		}

		for(int i = 0; i < len; ++i)
		{
			if(sscanf(opts("prog", "") + p, ",%d%n", &word[i], &k) != 1)
			{
				return 3;
			}

			p += k;
		}

		describe();
		replay("", setup, finish, quiet);
		return 0;
	}

	long shard = opt("shard", 0), shards = opt("shards", 1), k = 0;
	static const int sizes[] = { 0, 1, 2, 7, 16, 63, 65, 128, 200, 257, 400, 600, 1031, 1500, 3000, 5000, 9000, 20000, 70000 };
	int nsz = opt("sizes", 14), from = opt("first", 0);

	for(int i = from; i < nsz; ++i)
	{
		pre = sizes[i];

		for(kind = 0; kind < NKIND; ++kind)
		{
			for(pat = 0; pat < 6; ++pat)
			{
				bool two = kind == LIST || kind == SLIST || kind == TREE || kind == BUFFER, pooled = kind <= POOL || kind == TREE;

				if((!two && pat > 1) || (!pooled && (pat & 1)))
				{
					continue;
				}

				int total = 1;

				len = opt("len", 2);

				for(int j = 0; j < len; ++j)
				{
					total *= nops[kind];
				}

				for(int c = 0; c < total; ++c)
				{
					if(k++ % shards != shard)
					{
						continue;
					}

					for(int j = 0, x = c; j < len; ++j, x /= nops[kind])
					{
						word[j] = x % nops[kind];
					}

					describe();
					++n_prog;
					explore(setup, finish, quiet);
				}
			}
		}
	}

	printf("{\"harness\":\"cost\",\"mode\":\"%s\",\"programs\":%llu,\"schedules\":%llu,\"choice_points\":%llu,\"switches\":%llu,"
	       "\"outcomes\":%llu,\"accesses\":%llu,\"capped\":%llu,\"skipped\":%llu,\"waits\":0,\"timeouts\":0,\"worst\":%llu,\"worst_op\":\"%s\",\"lin_steps\":%llu,\"last\":\"%s\"}\n",
	       mode, (unsigned long long)n_prog, (unsigned long long)n_exec, (unsigned long long)n_ops, (unsigned long long)0,
	       (unsigned long long)n_prog, (unsigned long long)n_touch, (unsigned long long)n_capped, (unsigned long long)n_skipped,
	       (unsigned long long)worst, worst_op, (unsigned long long)n_ops, prog_text);

	return 0;
}
