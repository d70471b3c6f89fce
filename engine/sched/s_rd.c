/*
 * Several threads read one container at the same time: every pair (or triple) of operations that take the container
 * as const, without synchronisation.
 * Oracle: no data race (happens-before over all accesses of the library), every answer as if alone, the container and a
 * pair handle obtained before are as they were.
 */
#include "sched.h"
#include "datatypes.h"

typedef struct { int v; char s[12]; } Obj;
static int kind, size_n;
static int prog[3], narg[3], nthr;
static uint64_t got[MAXT + 1], want[3], n_prog, n_ops;
static HashTable *hash;
static RBTree *tree;
static AssocArray *assoc;
static List *list;
static SList *slist;
static Stack *stack;
static Queue *queue;
static Buffer *buf;
static Obj *probe[3];
static void *handle;

static Obj *
mk(int v)
{
	Obj *o = a_alloc(sizeof *o);

	o->v = v;
	snprintf(o->s, sizeof o->s, "k%d", v);

	return o;
}

static int32_t c_cmp(const void *a, const void *b) { const Obj *x = a, *y = b; return x->v < y->v ? -1 : x->v > y->v; }
static bool c_eq(const void *a, const void *b) { return c_cmp(a, b) == 0; }
static uint32_t c_hash(const void *a) { return ((const Obj *)a)->v % 3; }
static uint64_t mix(uint64_t d, uint64_t v) { return (d ^ v) * 1099511628211ULL + 0x9E37; }
static uint64_t val(const void *p) { return p ? ((const Obj *)p)->v + 7 : 3; }

enum { HASH, HASH_AUTO, TREE, TREE_POOL, ASSOC, LIST, SLIST, STACK, QUEUE, BUFFER, BUFFER_FULL, NKIND };
static const char *kname[] = { "hash", "hash-auto", "tree", "tree-pool", "assoc", "list", "slist", "stack", "queue", "buffer", "invalid buffer" };

/* number of operations of a kind, does operation o take an argument */
static int nops(void)
{
	static const int n[] = { 4, 4, 4, 4, 5, 9, 6, 2, 2, 5, 5 };

	return n[kind];
}

static bool
has_arg(int o)
{
	switch(kind)
	{
		case LIST: return o <= 1;
		case SLIST: return o <= 1;
		case STACK: case QUEUE: case BUFFER: case BUFFER_FULL: return false;
		default: return o == 0;
	}
}

static void
build(void)
{
	int n = size_n;
	Pool *p = NULL;

	handle = NULL;

	switch(kind)
	{
		case HASH:
		case HASH_AUTO:
			hash = hashtable_new(kind == HASH ? 2 : HASHTABLE_AUTO_RESIZE, c_hash, c_eq, NULL, NULL);

			for(int i = 0; i < n; ++i)
			{
				hashtable_set(hash, mk((i * 3 + 1) % n), mk(100 + i), false);
			}

			if(n)
			{
				Obj *k = mk(n / 2);

				handle = hashtable_lookup(hash, k);
			}
			break;

		case TREE_POOL:
			p = (Pool *)memory_pool_new(sizeof(RBNode), 2);
			/* fall through */
		case TREE:
			tree = rbtree_new(c_cmp, NULL, NULL, p);

			for(int i = 0; i < n; ++i)
			{
				rbtree_set(tree, mk((i * 3 + 1) % n), mk(100 + i), false);
			}

			if(n)
			{
				Obj *k = mk(n / 2);

				handle = rbtree_lookup(tree, k);
			}
			break;

		case ASSOC:
			assoc = assoc_array_new(c_cmp, NULL, NULL);

			for(int i = 0; i < n; ++i)
			{
				assoc_array_set(assoc, mk((i * 3 + 1) % n), mk(100 + i), false);
			}

			if(n)
			{
				Obj *k = mk(n / 2);

				handle = assoc_array_lookup(assoc, k);
			}
			break;

		case LIST:
			list = list_new(c_cmp, NULL, NULL);

			for(int i = 0; i < n; ++i)
			{
				list_append(list, mk((i * 3 + 1) % n));
			}
			break;

		case SLIST:
			slist = slist_new(c_cmp, NULL, NULL);

			for(int i = 0; i < n; ++i)
			{
				slist_append(slist, mk((i * 3 + 1) % n));
			}
			break;

		case STACK:
			stack = stack_new(c_cmp, NULL, NULL);

			for(int i = 0; i < n; ++i)
			{
				stack_push(stack, mk(i));
			}
			break;

		case QUEUE:
			queue = queue_new(c_cmp, NULL, NULL);

			for(int i = 0; i < n; ++i)
			{
				queue_push(queue, mk(i));
			}
			break;

		default:
			buf = buffer_new(kind == BUFFER ? 1000 : 4);

			for(int i = 0; i < n; ++i)
			{
				buffer_fill(buf, i % 3 ? "\n" : "ab", i % 3 ? 1 : 2);
			}

			if(kind == BUFFER_FULL)
			{
				buffer_fill(buf, "abcdef", 6);
			}
	}
}

static uint64_t
look(void)
{
	uint64_t d = 5;

	if(!handle)
	{
		return d;
	}

	switch(kind)
	{
		case HASH: case HASH_AUTO:
			d = mix(d, val(hashtable_pair_get_key(handle)));
			d = mix(d, val(hashtable_pair_get_value(handle)));
			break;

		case TREE: case TREE_POOL:
			d = mix(d, val(rbtree_pair_get_key(handle)));
			d = mix(d, val(rbtree_pair_get_value(handle)));
			break;

		default:
			d = mix(d, val(assoc_array_pair_get_key(handle)));
			d = mix(d, val(assoc_array_pair_get_value(handle)));
	}

	return d;
}

/* one reading operation; 'k' is a key of the thread's own */
static uint64_t
op(int o, Obj *k)
{
	uint64_t d = 11;

	++n_ops;

	switch(kind)
	{
		case HASH:
		case HASH_AUTO:
		{
			HashTableIter it;

			if(o == 0) return mix(d, hashtable_key_exists(hash, k));
			if(o == 1) return mix(d, hashtable_count(hash));
			hashtable_iter_init(hash, &it);

			for(int i = 0; hashtable_iter_next(&it); ++i)
			{
				/* any order, but the same each time */
				d = mix(d, val(hashtable_iter_get_key(&it)));
				d = mix(d, val(hashtable_iter_get_value(&it)));

				if(o == 2 && i == 0)
				{
					break;
				}
			}

			return d;
		}

		case TREE:
		case TREE_POOL:
		{
			RBTreeIter it;

			if(o == 0) return mix(d, rbtree_key_exists(tree, k));
			if(o == 1) return mix(d, rbtree_count(tree));
			rbtree_iter_init(tree, &it);

			for(int i = 0; rbtree_iter_next(&it); ++i)
			{
				d = mix(d, val(rbtree_iter_get_key(&it)));
				d = mix(d, val(rbtree_iter_get_value(&it)));

				if(o == 2 && i == 0)
				{
					break;
				}
			}

			if(o == 2)
			{
				rbtree_iter_reuse(tree, &it);

				while(rbtree_iter_next(&it))
				{
					d = mix(d, val(rbtree_iter_get_key(&it)));
				}
			}

			rbtree_iter_free(&it);

			return d;
		}

		case ASSOC:
		{
			AssocArrayIter it;

			if(o == 0) return mix(d, assoc_array_key_exists(assoc, k));
			if(o == 1) return mix(d, assoc_array_count(assoc));
			if(o == 2) return mix(d, assoc_array_size(assoc) >= assoc_array_count(assoc));
			assoc_array_iter_init(assoc, &it);

			for(int i = 0; assoc_array_iter_next(&it); ++i)
			{
				d = mix(d, val(assoc_array_iter_get_key(&it)));
				d = mix(d, val(assoc_array_iter_get_value(&it)));

				if(o == 3 && i == 0)
				{
					break;
				}
			}

			return d;
		}

		case LIST:
			switch(o)
			{
				case 0: return mix(d, list_contains(list, k));
				case 1:
				{
					ListItem *i = list_find(list, NULL, k);

					return i ? mix(d, val(list_item_get_data(i))) : d;
				}
				case 2: return mix(d, list_count(list));
				case 3: return mix(d, list_empty(list));
				case 4: return list_head(list) ? mix(d, val(list_item_get_data(list_head(list)))) : d;
				case 5: return list_tail(list) ? mix(d, val(list_item_get_data(list_tail(list)))) : d;
				case 6:
					for(ListItem *i = list_head(list); i; i = list_item_next(i))
					{
						d = mix(d, val(list_item_get_data(i)));
					}
					return d;
				case 7:
					for(ListItem *i = list_tail(list); i; i = i->prev)
					{
						d = mix(d, val(i->data));
					}
					return d;
				default:
				{
					ListItem *i = list_tail(list) ? list_find(list, list_tail(list), list_item_get_data(list_tail(list))) : NULL;

					return mix(d, i == list_tail(list));
				}
			}

		case SLIST:
			switch(o)
			{
				case 0: return mix(d, slist_contains(slist, k));
				case 1:
				{
					SListItem *i = slist_find(slist, NULL, k);

					return i ? mix(d, val(slist_item_get_data(i))) : d;
				}
				case 2: return mix(d, slist_count(slist));
				case 3: return mix(d, slist_empty(slist));
				case 4: return slist_head(slist) ? mix(d, val(slist_item_get_data(slist_head(slist)))) : d;
				default:
					for(SListItem *i = slist_head(slist); i; i = slist_item_next(i))
					{
						d = mix(d, val(slist_item_get_data(i)));
					}
					return d;
			}

		case STACK:
		case QUEUE:
		{
			void *p = NULL;
			bool r;

			if(o == 0)
			{
				return mix(d, kind == STACK ? stack_count(stack) : queue_count(queue));
			}

#if HAVE_QUEUE_HEAD
			r = kind == STACK ? stack_head(stack, &p) : queue_head(queue, &p);
#else
			r = stack_head(kind == STACK ? stack : (Stack *)queue, &p);
#endif
			return mix(d, r ? val(p) : 0);
		}

		default:
		{
			char *s = NULL;
			size_t n = 0;

			switch(o)
			{
				case 0: return mix(d, buffer_len(buf));
				case 1: return mix(d, buffer_is_valid(buf));
				case 2: return mix(d, buffer_is_empty(buf));
				case 3:
					if(buffer_flush(buf, &s, &n))
					{
						for(char *c = s; *c; ++c)
						{
							d = mix(d, *c);
						}
					}
					return d;
				default:
					if((s = buffer_to_string(buf)))
					{
						for(char *c = s; *c; ++c)
						{
							d = mix(d, *c);
						}
					}
					return d;
			}
		}
	}
}

static void thread(int id) { got[id] = op(prog[id], probe[id]); }

static void
setup(void)
{
	build();

	for(int i = 0; i < nthr; ++i)
	{
		probe[i] = mk(narg[i]);
		want[i] = op(prog[i], probe[i]);
	}

	/* the threads meet a container nobody has read yet */
	build();

	for(int i = 0; i < nthr; ++i)
	{
		fib_start(thread);
	}
}

static void quiet(void) {}

static void
hist(char *b, size_t n)
{
	int l = snprintf(b, n, "%s of %d elements, read by", kname[kind], size_n);

	for(int i = 0; i < nthr; ++i)
	{
		l += snprintf(b + l, n - l, " operation %d (argument %d)", prog[i], narg[i]);
	}
}

static void
finish(bool all)
{
	if(!all)
	{
		fail("a reading operation blocks for ever");
	}

	for(int i = 0; i < nthr; ++i)
	{
		if(got[i] != want[i])
		{
			fail("thread %d gets another answer while others read the same %s", i, kname[kind]);
		}
	}

	/* nothing was modified */
	for(int i = 0; i < nthr; ++i)
	{
		if(op(prog[i], probe[i]) != want[i])
		{
			fail("reading a %s changes what it answers afterwards", kname[kind]);
		}
	}

	if(handle)
	{
		uint64_t d = look();

		/* designates the entry looked up */
		uint64_t e = 5;
		int v = -1;

		for(int i = 0; i < size_n; ++i)
		{
			if((i * 3 + 1) % size_n == size_n / 2)
			{
				v = 100 + i;
			}
		}

		e = mix(e, size_n / 2 + 7);
		e = mix(e, v + 7);

		if(d != e)
		{
			fail("a pair obtained before designates another entry after reading operations on the same %s", kname[kind]);
		}
	}
}

static void
run_prog(void)
{
	int l = snprintf(prog_text, sizeof prog_text, "%d,%d,%d", kind, size_n, nthr);

	for(int i = 0; i < nthr; ++i)
	{
		l += snprintf(prog_text + l, sizeof prog_text - l, ",%d,%d", prog[i], narg[i]);
	}

	snprintf(prog_text + l, sizeof prog_text - l, ";access=%d;pb=%d", cfg.access, cfg.pb);
}

/* the mapping of keys to values is only a bijection if 3 does not divide the size */
static bool usable(int n) { return n == 0 || n % 3 || kind >= BUFFER; }

int
s_rd(const char *mode)
{
	cfg.races = true;
	cfg.access = opt("access", 0);
	cfg.pb = opt("pb", 2);
	cfg.clock0 = 1000000LL * 1000000000LL;
	history_cb = hist;

	if(!strcmp(mode, "replay"))
	{
		int acc, pb, p = 0, k;

		if(sscanf(opts("prog", ""), "%d,%d,%d%n", &kind, &size_n, &nthr, &p) != 3)
		{
			return 3;
		}

		const char *s = opts("prog", "") + p;

		for(int i = 0; i < nthr; ++i)
		{
			if(sscanf(s, ",%d,%d%n", &prog[i], &narg[i], &k) != 2)
			{
				return 3;
			}

			s += k;
		}

		if(sscanf(s, ";access=%d;pb=%d", &acc, &pb) != 2)
		{
			return 3;
		}

		cfg.access = acc;
		cfg.pb = pb;
		run_prog();
		replay(opts("trace", ""), setup, finish, quiet);
		return 0;
	}

	long shard = opt("shard", 0), shards = opt("shards", 1), k = 0, from = opt("from", 0), to = opt("to", 5), step = opt("step", 1);
	int only = opt("kind", -1);

	nthr = opt("threads", 2);

	for(size_n = from; size_n <= to; size_n += step)
	{
		for(kind = 0; kind < NKIND; ++kind)
		{
			if(!usable(size_n) || (only >= 0 && only != kind))
			{
				continue;
			}

			/* alternatives of one thread: operation x argument */
			int alt[256][2], m = 0, keys = size_n < 8 ? size_n : 8;

			for(int o = 0; o < nops(); ++o)
			{
				for(int a = 0; a <= (has_arg(o) ? keys : 0); ++a)
				{
					alt[m][0] = o;
					alt[m++][1] = has_arg(o) ? (keys ? a * size_n / keys : 0) : 0;
				}
			}

			for(int c = 0; c < (nthr == 2 ? m * m : m * m * m); ++c)
			{
				int x[3] = { c % m, c / m % m, c / m / m };

				if(x[0] > x[1] || (nthr == 3 && x[1] > x[2]) || k++ % shards != shard)
				{
					continue;
				}

				for(int i = 0; i < nthr; ++i)
				{
					prog[i] = alt[x[i]][0];
					narg[i] = alt[x[i]][1];
				}

				run_prog();
				++n_prog;
				explore(setup, finish, quiet);
			}
		}
	}

	printf("{\"harness\":\"rd\",\"mode\":\"%s\",\"programs\":%llu,\"schedules\":%llu,\"choice_points\":%llu,\"switches\":%llu,"
	       "\"outcomes\":%llu,\"accesses\":%llu,\"capped\":%llu,\"skipped\":%llu,\"waits\":0,\"timeouts\":0,\"lin_steps\":%llu,\"last\":\"%s\"}\n",
	       mode, (unsigned long long)n_prog, (unsigned long long)n_exec, (unsigned long long)n_points, (unsigned long long)n_switch,
	       (unsigned long long)n_prog, (unsigned long long)n_accesses, (unsigned long long)n_capped, (unsigned long long)n_skipped,
	       (unsigned long long)n_ops, prog_text);

	return 0;
}
