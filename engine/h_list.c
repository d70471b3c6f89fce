/* linked lists against a reference sequence */
#include "common.h"

enum { LIST, SLIST };
static int kind2[2];         /* kind of instance 0 and 1 */
static int ninst;
static int form;
static bool fd_;             /* release function given */
static int poolmode;
static int sorted;           /* 1 = only sorted insertions, 2 = also end insertions that keep the order */
static long dom, cap;
static bool nulls, upd, alias_ops, clr, rm_ops, popop;
static bool nested;
static int cur;
static long callbacks;

typedef struct { Tok *data; void *item; } Elem;
typedef struct
{
	void *c;
	void *storage;
	uint64_t n;
	Elem m[];
} Host;
typedef struct { RecPool *pool; } Shared;
static Shared *sw_shared;
static Host *sw_host;
static size_t host_bytes;
static Shared *SH(void) { return mc_passthrough ? sw_shared : mc_host; }
static Host *H(void) { return mc_passthrough ? sw_host : (Host *)((char *)mc_host + sizeof(Shared) + cur * host_bytes); }
static int K(void) { return kind2[cur]; }

#define NO_LABEL (-1)
static int64_t lbl(const Tok *t) { return t ? t->label : NO_LABEL; }

/* ---- uniform access */
static void *
c_new(void)
{
	FreeFunc f = fd_ ? cb_free_val : NULL;
	Pool *p = SH()->pool ? &SH()->pool->base : NULL;
	if(form == 0) return K() == LIST ? (void *)list_new(cb_compare, f, p) : (void *)slist_new(cb_compare, f, p);
	size_t n = K() == LIST ? sizeof(List) : sizeof(SList);
	void *s = h_alloc(n, CH_HOST);
	memset(s, form == 1 ? 0xA5 : form == 3 ? 0 : 0xFF, n);
	H()->storage = s;
	if(K() == LIST) list_init(s, cb_compare, f, p);
	else slist_init(s, cb_compare, f, p);
	return s;
}

static void
c_end(void)
{
	void *c = H()->c;
	if(form == 0) { if(K() == LIST) list_destroy(c); else slist_destroy(c); }
	else { if(K() == LIST) list_free(c); else slist_free(c); }
}

static void *c_append(void *d) { return K() == LIST ? (void *)list_append(H()->c, d) : (void *)slist_append(H()->c, d); }
static void *c_prepend(void *d) { return K() == LIST ? (void *)list_prepend(H()->c, d) : (void *)slist_prepend(H()->c, d); }
static void *c_sorted(void *d) { return K() == LIST ? (void *)list_insert_sorted(H()->c, d) : (void *)slist_insert_sorted(H()->c, d); }
static void c_remove(void *i) { if(K() == LIST) list_remove(H()->c, i); else slist_remove(H()->c, i); }
static void c_remove_data(void *d, bool all) { if(K() == LIST) list_remove_by_data(H()->c, d, all); else slist_remove_by_data(H()->c, d, all); }
static void *c_pop(void) { return K() == LIST ? list_pop(H()->c) : slist_pop(H()->c); }
static void c_clear(void) { if(K() == LIST) list_clear(H()->c); else slist_clear(H()->c); }
static void *c_head(void) { return K() == LIST ? (void *)list_head(H()->c) : (void *)slist_head(H()->c); }
static size_t c_count(void) { return K() == LIST ? list_count(H()->c) : slist_count(H()->c); }
static bool c_empty(void) { return K() == LIST ? list_empty(H()->c) : slist_empty(H()->c); }
static bool c_contains(void *d) { return K() == LIST ? list_contains(H()->c, d) : slist_contains(H()->c, d); }
static void *c_find(void *o, void *d) { return K() == LIST ? (void *)list_find(H()->c, o, d) : (void *)slist_find(H()->c, o, d); }
static void c_free_data(void *i) { if(K() == LIST) list_item_free_data(H()->c, i); else slist_item_free_data(H()->c, i); }
static void *
i_next(void *i)
{
	if(K() == LIST) { ListItem *x = i; return list_item_next(x); }
	SListItem *x = i;
	return slist_item_next(x);
}
static void *i_prev(void *i) { ListItem *x = i; return list_item_prev(x); }
static void *
i_data(void *i)
{
	if(K() == LIST) { ListItem *x = i; return list_item_get_data(x); }
	SListItem *x = i;
	return slist_item_get_data(x);
}
static void
i_set(void *i, void *d)
{
	if(K() == LIST) { ListItem *x = i; list_item_set_data(x, d); }
	else { SListItem *x = i; slist_item_set_data(x, d); }
}

/* ---- model helpers */
static Tok *gone[64];
static int ngone, gone_base;

static void
to_caller(Tok *t)
{
	if(!t) return;
	if(ngone < 64) gone[ngone++] = t;
	else tok_drop(t);
}

static void
leave(Tok *t)
{
	if(!t) return;
	if(fd_ && (flags & F_OWN)) ev_expect(t);
	else to_caller(t);
}

static void
settle(void)
{
	ev_verify();
	while(ngone > gone_base) tok_drop(gone[--ngone]);
}

static void
m_insert(uint64_t at, Tok *d, void *item)
{
	Host *h = H();
	memmove(&h->m[at + 1], &h->m[at], (h->n - at) * sizeof(Elem));
	h->m[at] = (Elem){ d, item };
	++h->n;
}

static void
m_remove(uint64_t at)
{
	Host *h = H();
	memmove(&h->m[at], &h->m[at + 1], (h->n - at - 1) * sizeof(Elem));
	h->m[--h->n] = (Elem){ NULL, NULL };
}

static void
relabel(void)
{
	if(!sorted || mc_passthrough) return;
	Host *h = H();
	int64_t prev = NO_LABEL, out = -1;
	for(uint64_t i = 0; i < h->n; ++i)
	{
		int64_t l = h->m[i].data->label;
		if(l != prev) out += 2;
		prev = l;
		h->m[i].data->label = out;
	}
}

static void
pool_ok(void)
{
	if(!SH()->pool || !(flags & F_POOL)) return;
	uint64_t n = 0;
	int keep = cur;
	for(cur = 0; cur < ninst; ++cur) n += H()->n;
	cur = keep;
	CHECK(SH()->pool->live == n, "%u pool items in use for %lu stored elements", SH()->pool->live, (unsigned long)n);
}

static void
new_item(void *item, Tok *d)
{
	CHECK(item != NULL, "insertion returned no item");
	if(flags & F_FUNC) CHECK(i_data(item) == d, "returned item does not hold the inserted data");
}

static void
do_append(int64_t l, bool front)
{
	Tok *d = l == NO_LABEL ? NULL : tok_new(T_VAL, l);
	void *it = front ? c_prepend(d) : c_append(d);
	new_item(it, d);
	m_insert(front ? 0 : H()->n, d, it);
	settle();
	relabel();
}

static void
do_sorted(int64_t l)
{
	Host *h = H();
	Tok *d = tok_new(T_VAL, l);
	void *it = c_sorted(d);
	new_item(it, d);
	/* where did it go? any place that keeps the order will do */
	void *x = c_head();
	uint64_t k = 0;
	while(x && x != it && k <= h->n) { x = i_next(x); ++k; }
	CHECK(x == it && k <= h->n, "the inserted item is not reachable from the head");
	if(k > 0) CHECK(lbl(h->m[k - 1].data) <= l, "sorted insertion put a smaller item behind a bigger one (position %lu)", (unsigned long)k);
	if(k < h->n) CHECK(l <= lbl(h->m[k].data), "sorted insertion put a bigger item before a smaller one (position %lu)", (unsigned long)k);
	m_insert(k, d, it);
	settle();
	relabel();
}

static void
do_remove(uint64_t at)
{
	Host *h = H();
	Tok *d = h->m[at].data;
	c_remove(h->m[at].item);
	m_remove(at);
	leave(d);
	settle();
	relabel();
}

static void
do_remove_data(int64_t l, bool all, int64_t alias)
{
	Host *h = H();
	Tok *d = alias >= 0 ? h->m[alias].data : l == NO_LABEL ? NULL : tok_new(T_VAL, l);
	l = lbl(d);
	c_remove_data(d, all);
	if(alias < 0) to_caller(d);
	for(uint64_t i = 0; i < h->n; )
	{
		if(lbl(h->m[i].data) != l) { ++i; continue; }
		Tok *x = h->m[i].data;
		m_remove(i);
		leave(x);
		if(!all) break;
	}
	settle();
	relabel();
}

static void
do_pop(void)
{
	Host *h = H();
	Tok *got = c_pop();
	Tok *want = h->n ? h->m[0].data : NULL;
	if(flags & F_FUNC) CHECK(got == want, "pop returned the wrong element");
	if(h->n) m_remove(0);
	to_caller(want);
	settle();
	relabel();
}

static void
drop_all(void)
{
	Host *h = H();
	for(uint64_t i = 0; i < h->n; ++i)
	{
		if(h->m[i].data) { if(fd_ && (flags & F_OWN)) ev_expect(h->m[i].data); else tok_drop(h->m[i].data); }
		h->m[i] = (Elem){ NULL, NULL };
	}
	h->n = 0;
}

static void
do_clear(void)
{
	c_clear();
	drop_all();
	settle();
}

static void
do_free_data(uint64_t at)
{
	Host *h = H();
	Tok *d = h->m[at].data;
	c_free_data(h->m[at].item);
	h->m[at].data = NULL;
	leave(d);
	settle();
}

static void
do_set_data(uint64_t at, int64_t l)
{
	Host *h = H();
	Tok *old = h->m[at].data;
	Tok *d = l == NO_LABEL ? NULL : tok_new(T_VAL, l);
	i_set(h->m[at].item, d);
	h->m[at].data = d;
	to_caller(old);
	settle();
}

/* ---- queries */
static void
walk(void)
{
	Host *h = H();
	CHECK(c_count() == h->n, "count is %lu, expected %lu", (unsigned long)c_count(), (unsigned long)h->n);
	CHECK(c_empty() == (h->n == 0), "emptiness does not match");
	void *x = c_head(), *last = NULL;
	for(uint64_t i = 0; i < h->n; ++i)
	{
		CHECK(x != NULL, "walk from the head ends after %lu of %lu items", (unsigned long)i, (unsigned long)h->n);
		CHECK(x == h->m[i].item, "item %lu is not the handle returned at insertion", (unsigned long)i);
		CHECK(i_data(x) == h->m[i].data, "item %lu holds the wrong element", (unsigned long)i);
		last = x;
		x = i_next(x);
		++mc_progress;
	}
	CHECK(x == NULL, "walk from the head goes on behind the last item");
	if(K() == LIST)
	{
		CHECK(list_tail(h->c) == last, "tail is not the last item");
		x = list_tail(h->c);
		for(uint64_t i = h->n; i-- > 0; )
		{
			CHECK(x == h->m[i].item, "walk back from the tail: item %lu is wrong", (unsigned long)i);
			x = i_prev(x);
		}
		CHECK(x == NULL, "walk back from the tail goes on before the first item");
	}
}

static void
search(int64_t l, bool from_null, uint64_t off)
{
	Host *h = H();
	Tok t = { TOK_MAGIC, l, T_VAL };
	Tok *d = l == NO_LABEL ? NULL : &t;
	uint64_t first = from_null ? 0 : off, i = first;
	while(i < h->n && lbl(h->m[i].data) != l) ++i;
	void *got = c_find(from_null ? NULL : h->m[off].item, d);
	CHECK((got != NULL) == (i < h->n), "find of label %ld from %lu %s", (long)l, (unsigned long)first,
		got ? "found an item though there is none" : "found nothing though an item holds it");
	if(!got) return;
	if(K() == SLIST) CHECK(got == h->m[i].item, "find did not return the first item holding the data");
	else
	{
		uint64_t k = first;
		while(k < h->n && h->m[k].item != got) ++k;
		CHECK(k < h->n, "find returned an item before the start position or not in the list");
		CHECK(lbl(h->m[k].data) == l, "find returned an item holding other data");
	}
}

static void
observe1(void)
{
	Host *h = H();
	pool_ok();
	if(!(flags & F_FUNC)) return;
	walk();
	int64_t top = sorted ? 2 * (int64_t)h->n : dom;
	for(int64_t l = nulls ? NO_LABEL : 0; l <= top; ++l)
	{
		Tok t = { TOK_MAGIC, l, T_VAL };
		bool has = false;
		for(uint64_t i = 0; i < h->n; ++i) has |= lbl(h->m[i].data) == l;
		CHECK(c_contains(l == NO_LABEL ? NULL : &t) == has, "contains is wrong for label %ld", (long)l);
		search(l, true, 0);
		for(uint64_t i = 0; i < h->n; ++i) search(l, false, i);
	}
}

/* ---- BFS */
enum { O_APPEND, O_PREPEND, O_SORTED, O_REMOVE, O_RMDATA, O_RMALL, O_POP, O_CLEAR, O_FREEDATA, O_SETDATA, O_RMDATA_A, O_RMALL_A };
/* type 4 | instance 1 | position 8 | label+1 8 */
static uint32_t mk(int type, uint32_t pos, int64_t l) { return type | pos << 5 | (uint32_t)(l + 1) << 13; }

static void
list_init_all(void)
{
	ev_reset();
	ngone = gone_base = 0;
	cb_hook = NULL;
	size_t item = sizeof(ListItem) > sizeof(SListItem) ? sizeof(ListItem) : sizeof(SListItem);
	if(ninst == 1) item = kind2[0] == LIST ? sizeof(ListItem) : sizeof(SListItem);
	if(poolmode) SH()->pool = rec_pool_new(poolmode, item, ninst * cap + 4);
	for(cur = ninst - 1; cur > 0; --cur) H()->c = c_new();
	H()->c = c_new();
}

static int
ops1(uint32_t *out)
{
	Host *h = H();
	int n = 0;
	int64_t lo = nulls ? NO_LABEL : 0, hi = dom - 1;
	if(h->n < (uint64_t)cap)
	{
		if(sorted)
		{
			for(int64_t l = 0; l <= (h->n ? h->m[h->n - 1].data->label + 1 : 0); ++l)
			{
				out[n++] = mk(O_SORTED, 0, l);
				if(sorted == 2 && h->n && l >= h->m[h->n - 1].data->label) out[n++] = mk(O_APPEND, 0, l);
				if(sorted == 2 && h->n && l <= h->m[0].data->label) out[n++] = mk(O_PREPEND, 0, l);
			}
			if(sorted == 2 && !h->n) { out[n++] = mk(O_APPEND, 0, 0); out[n++] = mk(O_PREPEND, 0, 0); }
		}
		else for(int64_t l = lo; l <= hi; ++l)
		{
			out[n++] = mk(O_APPEND, 0, l);
			out[n++] = mk(O_PREPEND, 0, l);
		}
	}
	if(rm_ops)
	{
		for(uint64_t i = 0; i < h->n; ++i)
		{
			out[n++] = mk(O_REMOVE, i, 0);
			if(alias_ops)
			{
				out[n++] = mk(O_RMDATA_A, i, 0);
				out[n++] = mk(O_RMALL_A, i, 0);
			}
		}
		for(int64_t l = sorted ? 0 : lo; l <= (sorted ? 2 * (int64_t)h->n : hi); ++l)
		{
			out[n++] = mk(O_RMDATA, 0, l);
			out[n++] = mk(O_RMALL, 0, l);
		}
	}
	if(upd && !sorted)
	{
		for(uint64_t i = 0; i < h->n; ++i)
		{
			out[n++] = mk(O_FREEDATA, i, 0);
			for(int64_t l = lo; l <= hi; ++l) out[n++] = mk(O_SETDATA, i, l);
		}
	}
	if(popop) out[n++] = mk(O_POP, 0, 0);
	if(clr) out[n++] = mk(O_CLEAR, 0, 0);
	return n;
}

static void
apply1(uint32_t op)
{
	int type = op & 15;
	uint32_t pos = op >> 5 & 255;
	int64_t l = (int64_t)(op >> 13 & 255) - 1;
	switch(type)
	{
		case O_APPEND: do_append(l, false); break;
		case O_PREPEND: do_append(l, true); break;
		case O_SORTED: do_sorted(l); break;
		case O_REMOVE: do_remove(pos); break;
		case O_RMDATA: do_remove_data(l, false, -1); break;
		case O_RMALL: do_remove_data(l, true, -1); break;
		case O_RMDATA_A: do_remove_data(0, false, pos); break;
		case O_RMALL_A: do_remove_data(0, true, pos); break;
		case O_POP: do_pop(); break;
		case O_CLEAR: do_clear(); break;
		case O_FREEDATA: do_free_data(pos); break;
		case O_SETDATA: do_set_data(pos, l); break;
	}
}

/* nested: 4 type, 3 pos, 3 label+1 */
static uint32_t small(uint32_t op) { return (op & 15) | (op >> 5 & 7) << 4 | (op >> 13 & 7) << 7; }
static uint32_t unsmall(uint32_t s) { return (s & 15) | (s >> 4 & 7) << 5 | (s >> 7 & 7) << 13; }
static uint32_t opa, opb;
static int ia;
static void run_a(void) { cur = ia; apply1(opa); }
static void
run_b(void)
{
	int c = cur, g = gone_base;
	cur = !ia;
	gone_base = ngone;
	apply1(opb);
	cur = c;
	gone_base = g;
}

static int
l_ops(uint32_t *out)
{
	static uint32_t a[2][MC_MAX_OPS];
	int n[2], k = 0;
	if(ninst == 1) return ops1(out);
	for(cur = 0; cur < 2; ++cur) n[cur] = ops1(a[cur]);
	cur = 0;
	if(!nested)
	{
		for(int w = 0; w < 2; ++w) for(int i = 0; i < n[w]; ++i) out[k++] = a[w][i] | w << 4;
		return k;
	}
	for(int w = 0; w < 2; ++w)
	for(int i = 0; i < n[w]; ++i)
	for(int j = 0; j < n[!w]; ++j)
	for(int d = 0; d < callbacks; ++d)
	{
		if(k < MC_MAX_OPS) out[k++] = small(a[w][i]) | small(a[!w][j]) << 10 | d << 20 | w << 24;
	}
	return k;
}

static void
l_apply(uint32_t op)
{
	if(nested)
	{
		opa = unsmall(op & 1023);
		opb = unsmall(op >> 10 & 1023);
		ia = op >> 24 & 1;
		nest_run(op >> 20 & 15, run_a, run_b);
	}
	else
	{
		cur = op >> 4 & 1;
		apply1(op);
	}
	cur = 0;
	pool_ok();
}

static void
l_observe(void)
{
	for(cur = ninst - 1; cur > 0; --cur) observe1();
	observe1();
}

static void
l_finish(void)
{
	for(cur = ninst - 1; cur >= 0; --cur)
	{
		c_end();
		drop_all();
		settle();
		pool_ok();
		if(H()->storage) h_free(H()->storage);
	}
	cur = 0;
	if(SH()->pool)
	{
		if(flags & F_POOL) CHECK(SH()->pool->live == 0, "%u pool items were not returned when the containers were freed", SH()->pool->live);
		rec_pool_destroy(SH()->pool);
	}
	if(flags & F_MEM) CHECK(mc_lib_live() == 0, "%lu blocks were not given back", (unsigned long)mc_lib_live());
}

static void
d1(uint32_t op, char *b, size_t n)
{
	static const char *nm[] = { "append", "prepend", "insert_sorted", "remove item at", "remove_by_data first", "remove_by_data all",
		"pop", "clear", "free_data at", "set_data at", "remove_by_data first, data of item", "remove_by_data all, data of item" };
	int type = op & 15;
	char l[20];
	int64_t lb = (int64_t)(op >> 13 & 255) - 1;
	if(lb == NO_LABEL) strcpy(l, "NULL"); else snprintf(l, sizeof l, "%ld", (long)lb);
	if(type == O_REMOVE || type == O_FREEDATA || type >= O_RMDATA_A) snprintf(b, n, "%s(%u)", nm[type], op >> 5 & 255);
	else if(type == O_SETDATA) snprintf(b, n, "%s(%u,%s)", nm[type], op >> 5 & 255, l);
	else snprintf(b, n, "%s(%s)", nm[type], l);
}

static void
l_describe(uint32_t op, char *b, size_t n)
{
	if(nested)
	{
		char x[100], y[100];
		d1(unsmall(op & 1023), x, sizeof x);
		d1(unsmall(op >> 10 & 1023), y, sizeof y);
		snprintf(b, n, "%c.%s with %c.%s in its callback #%u", op >> 24 & 1 ? 'B' : 'A', x, op >> 24 & 1 ? 'A' : 'B', y, op >> 20 & 15);
		return;
	}
	char x[100];
	d1(op, x, sizeof x);
	snprintf(b, n, "%s%s", ninst == 2 ? (op >> 4 & 1 ? "B." : "A.") : "", x);
}

static void
l_abstract(void)
{
	for(cur = ninst - 1; cur >= 0; --cur)
	{
		mc_mix(H()->n);
		for(uint64_t i = 0; i < H()->n; ++i) mc_mix(lbl(H()->m[i].data));
	}
	cur = 0;
}

static void
options(void)
{
	const char *k = opts("kind", "list");
	ninst = strchr(k, '+') ? 2 : 1;
	kind2[0] = !strncmp(k, "slist", 5) ? SLIST : LIST;
	kind2[1] = strstr(k, "+slist") ? SLIST : LIST;
	form = opt("form", 0);
	fd_ = opt("fd", 0);
	poolmode = opt("pool", 0);
	sorted = opt("sorted", 0);
	dom = opt("dom", 2);
	cap = opt("cap", 4);
	nulls = opt("null", 0);
	upd = opt("update", 0);
	alias_ops = opt("alias", 0);
	clr = opt("clear", 1);
	rm_ops = opt("remove", 1);
	popop = opt("pop", 1);
	nested = opt("nest", 0);
	if(nested && ninst == 1) { ninst = 2; kind2[1] = kind2[0]; }
	callbacks = opt("callbacks", 4);
	parse_flags();
}

static Sys sys = { "list", 0, list_init_all, l_ops, l_apply, l_observe, l_finish, l_describe, l_abstract };

static Sys *
l_bfs(void)
{
	options();
	host_bytes = sizeof(Host) + (cap + 2) * sizeof(Elem);
	sys.host_size = sizeof(Shared) + ninst * host_bytes;
	return &sys;
}

/* ---- sweeps */
static void
sweep_begin(uint64_t n)
{
	sw_shared = calloc(1, sizeof *sw_shared);
	sw_host = calloc(1, sizeof(Host) + (n + 4) * sizeof(Elem));
	cap = n + 4;
	cur = 0;
	ninst = 1;
	list_init_all();
}

static void
sweep_end(void)
{
	l_finish();
	free(sw_host);
	free(sw_shared);
}

static void
check_all(void)
{
	pool_ok();
	if(flags & F_FUNC) walk();
}

static void
spot(int64_t top)
{
	if(!(flags & F_FUNC)) return;
	uint64_t n = H()->n;
	for(int64_t l = 0; l <= top; l += top / 7 + 1)
	{
		search(l, true, 0);
		if(n) { search(l, false, 0); search(l, false, n / 2); search(l, false, n - 1); }
	}
}

/* labels: element o[i] % classes */
static void
case_list(int64_t n, int ip, int rp, int64_t classes, int how)
{
	int *o = malloc((n + 1) * sizeof *o), *q = malloc((n + 1) * sizeof *q);
	perm(ip, n, o);
	perm(rp, n, q);
	bool small_n = n <= 24;
	sweep_begin(n);
	Host *h = H();
	for(int64_t i = 0; i < n; ++i)
	{
		int64_t l = o[i] % classes;
		if(how == 3) do_sorted(l);
		else do_append(l, how == 1 || (how == 2 && (o[i] & 1)));
		++sw_steps;
		if(small_n) { check_all(); spot(classes); }
	}
	check_all();
	spot(classes);
	/* removals: position of q[i] among the remaining ones, by item / pop / data */
	for(int64_t i = 0; i < n && h->n; ++i)
	{
		uint64_t at = (uint64_t)q[i] * h->n / n;
		switch(i % 4)
		{
			case 0: do_remove(at); break;
			case 1: do_pop(); break;
			case 2: if(n <= 400 || classes * 4 > n) do_remove_data(lbl(h->m[at].data), false, -1); else do_remove(at); break;
			case 3: do_remove(h->n - 1); if(h->n < 3 || n <= 400) { if(how == 3) do_sorted(classes / 2); else do_append(1 % classes, false); do_remove(h->n - 1); } break;
		}
		++sw_steps;
		if(small_n || i % (n / 6 + 1) == 0) check_all();
	}
	check_all();
	/* emptied -> refilled -> remove all of every other class -> cleared -> refilled */
	while(h->n) do_pop();
	check_all();
	for(int64_t i = 0; i < n; ++i)
	{
		if(how == 3) do_sorted(o[i] % classes); else do_append(o[i] % classes, i & 1);
		if(small_n) check_all();
	}
	check_all();
	if(n <= 2000) for(int64_t c = 0; c < classes; c += 2) { do_remove_data(c, true, -1); check_all(); }
	do_clear();
	check_all();
	for(int64_t i = 0; i < n / 2 + 1 && i < n; ++i)
	{
		if(how == 3) do_sorted(o[i] % classes); else do_append(o[i] % classes, how & 1);
		if(small_n) check_all();
	}
	check_all();
	spot(classes);
	sweep_end();
	free(o);
	free(q);
}

/* many elements through the operations that take constant time */
static void
case_light(int64_t n, int how)
{
	sweep_begin(n);
	Host *h = H();
	/* the model is built from both ends towards its middle */
	Elem *e = calloc(2 * n + 1, sizeof *e);
	int64_t lo = n, hi = n;
	for(int64_t i = 0; i < n; ++i)
	{
		bool front = how == 1 || how == 3 || (how == 2 && (i & 1));
		Tok *d = tok_new(T_VAL, how == 3 ? n - i : i);
		void *it = how == 3 ? c_sorted(d) : front ? c_prepend(d) : c_append(d);
		new_item(it, d);
		CHECK(c_count() == (size_t)i + 1, "count is %lu, expected %ld", (unsigned long)c_count(), (long)i + 1);
		if(front) { CHECK(c_head() == it, "a prepended item is not the head"); --lo; e[lo].data = d; e[lo].item = it; }
		else { e[hi].data = d; e[hi].item = it; ++hi; }
		settle();
		++sw_steps;
		++mc_progress;
	}
	memcpy(h->m, e + lo, n * sizeof *e);
	h->n = n;
	free(e);
	check_all();
	for(int i = 0; i < 40 && h->n > 8; ++i)
	{
		if(i % 3 == 0) do_remove(h->n - 1 - i % 5);
		else if(i % 3 == 1) do_pop();
		else do_remove(i % 4);
		++sw_steps;
	}
	check_all();
	do_clear();
	check_all();
	for(int i = 0; i < 4 && i < n; ++i) { if(how == 3) do_sorted(5 - i); else do_append(i, how & 1); }
	check_all();
	sweep_end();
}

static void
l_sweep(void)
{
	options();
	int64_t lo = opt("from", 0), hi = opt("to", 16), step = opt("step", 1);
	int pats = opt("pats", NPERM);
	if(!strcmp(opts("family", ""), "light"))
	{
		for(int64_t n = lo; n <= hi; n += step)
		for(int how = sorted ? 3 : 0; how < (sorted ? 4 : 3); ++how)
		{
			if(!sw_selected()) continue;
			sw_case("%s: %s %ld elements, remove some, clear", opts("kind", "list"), how == 0 ? "append" : how == 1 ? "prepend" : how == 2 ? "append/prepend" : "insert sorted", (long)n);
			case_light(n, how);
		}
		return;
	}
	for(int64_t n = lo; n <= hi; n += step)
	for(int how = sorted ? 3 : 0; how < (sorted ? 4 : 3); ++how)
	for(int c = 0; c < 3; ++c)
	for(int ip = 0; ip < pats; ++ip) for(int rp = 0; rp < pats; rp += 2)
	{
		int64_t classes = c == 0 ? 1 : c == 1 ? 3 : n + 1;
		if(!sw_selected()) continue;
		sw_case("%s: %s %ld elements of %ld classes %s, remove %s", opts("kind", "list"),
			how == 0 ? "append" : how == 1 ? "prepend" : how == 2 ? "append/prepend" : "insert sorted",
			(long)n, (long)classes, perm_name(ip), perm_name(rp));
		case_list(n, ip, rp, classes, how);
	}
}

const Harness h_list = { "list", l_bfs, l_sweep };
