/*
 * Programs of 1..4 threads on one asynchronous queue.
 *   u push   o pop   t<ms> pop with time-out   c clear   n count   s<ms> sleep (the thread does something else)
 * Threads are separated by '|'. Oracle: linearizability against a FIFO queue, no lost wake-up, virtual time.
 */
#include "sched.h"
#include "datatypes.h"

enum { J_LIN = 1, J_BLOCK = 2, J_TIME = 4, J_MEM = 8 };
static int judge;

typedef struct { char kind; uint32_t ms; } Op;
static struct { Op op[8]; int n; } prg[MAXT];
static int nthr;

#define MAXOPS 24
typedef struct
{
	char kind;
	int tid;
	bool done, ok;
	int64_t t_call, t_ret;
	uint32_t ms;
	uint64_t call, ret;
	size_t res;
	int val;
	int rel[16], nrel;
	bool inj;                /* a primitive called by this operation failed */
} Rec;
static Rec rec[MAXOPS];
static int nrec;

typedef struct { uint64_t magic; int val; } Elem;
static int sync0;
static int n_elem, prefill, pool_bs, form, nullfirst;
static AsyncQueue *q;
static MemoryPool *mp;
static int cur_rec[MAXT + 1];
static int ghost;                /* elements pushed and neither popped nor released */
static uint64_t n_lin, n_waited, n_timeouts, n_progs, n_outcomes;
static size_t blocks0;
size_t lib_live_blocks(void);

static int32_t cmp(const void *a, const void *b) { return a < b ? -1 : a > b; }

static int
val_of(void *p)
{
	if(!p)
	{
		return nullfirst ? 0 : -1;
	}

	Elem *e = p;

	return e->magic == 0xE1E3 ? e->val : -1;
}

static void
release(void *p)
{
	Rec *r = &rec[cur_rec[cur]];
	int v = val_of(p);

	if(v < 0)
	{
		fail("something that is no element is released");
	}

	if(r->nrel == 16)
	{
		fail("more elements are released than were stored");
	}

	r->rel[r->nrel++] = v;
	--ghost;
}

static Rec *
begin(char kind, uint32_t ms)
{
	if(nrec == MAXOPS)
	{
		fail("internal: too many operations");
	}

	Rec *r = &rec[nrec];

	memset(r, 0, sizeof *r);
	r->kind = kind;
	r->tid = cur;
	r->ms = ms;
	r->val = -1;
	r->call = stamp();
	r->t_call = now_ns();
	cur_rec[cur] = nrec++;

	return r;
}

static void *
new_elem(int *val)
{
	*val = n_elem++;

	if(*val == 0 && nullfirst)
	{
		return NULL;
	}

	Elem *e = a_alloc(sizeof *e);

	e->magic = 0xE1E3;
	e->val = *val;

	return e;
}

static void
end(Rec *r)
{
	r->done = true;
	r->ret = stamp();
	r->t_ret = now_ns();
}

static void
do_op(Op o)
{
	Rec *r;
	void *p;

	if(o.kind == 's')
	{
		fib_sleep(o.ms * 1000000LL);
		return;
	}

	r = begin(o.kind, o.ms);

	int inj0 = inj_by;

	switch(o.kind)
	{
		case 'u':
			p = new_elem(&r->val);
			async_queue_push(q, p);
			++ghost;
			r->ok = true;
			break;

		case 'o':
		case 't':
			p = (void *)0x5A5A;
			r->ok = o.kind == 'o' ? async_queue_pop(q, &p) : async_queue_pop_timeout(q, &p, o.ms);

			if(r->ok)
			{
				r->val = val_of(p);

				if(r->val < 0)
				{
					fail("thread %d: pop delivers something that was never pushed", r->tid);
				}

				--ghost;
			}
			break;

		case 'c':
			async_queue_clear(q);
			r->ok = true;
			break;

		case 'n':
			r->res = async_queue_count(q);
			r->ok = true;
			break;
	}

	end(r);
	r->inj = inj_by == cur && inj0 < 0;

	if(r->inj && inj_kind == I_UNLOCK && mutex_held())
	{
		fail("thread %d: %s fails, but the operation returns as if the queue were unlocked", r->tid, inj_name());
	}

	if(o.kind == 'o' && !r->ok && (judge & J_BLOCK) && !r->inj)
	{
		fail("thread %d: a blocking pop returns without an element", r->tid);
	}

	if(o.kind == 't' && (judge & J_TIME))
	{
		int64_t d = r->t_ret - r->t_call, want = r->ms * 1000000LL;

		if(!r->ok && d < want - 1000LL)
		{
			fail("thread %d: a pop with %u ms time-out gives up after %.3f ms", r->tid, r->ms, d / 1e6);
		}

		if(d > want + 50000000LL && !cfg.eager)
		{
			fail("thread %d: a pop with %u ms time-out returns after %.3f ms", r->tid, r->ms, d / 1e6);
		}
	}

	n_timeouts += o.kind == 't' && !r->ok;
}

static void
run_thread(int id)
{
	for(int i = 0; i < prg[id].n; ++i)
	{
		point();
		do_op(prg[id].op[i]);
	}
}

static void
setup(void)
{
	nrec = n_elem = ghost = 0;
	mp = NULL;
	memset(cur_rec, 0, sizeof cur_rec);
	begin('i', 0);

	if(pool_bs)
	{
		mp = memory_pool_new(sizeof(SListItem), pool_bs);
	}

	blocks0 = lib_live_blocks();

	if(form)
	{
		sync0 = live_sync_objects();
		q = a_alloc(sizeof *q);
		async_queue_init(q, cmp, release, (Pool *)mp);
	}
	else
	{
		sync0 = live_sync_objects();
		q = async_queue_new(cmp, release, (Pool *)mp);
	}

	end(&rec[0]);

	if(inj_by >= 0)
	{
		fail("%s fails, but the queue is reported as created", inj_name());
	}

	for(int i = 0; i < prefill; ++i)
	{
		do_op((Op){ 'u', 0 });
	}

	for(int i = 0; i < nthr; ++i)
	{
		fib_start(run_thread);
	}
}

/* nothing can run any more, or only after time has passed */
static void
quiet(void)
{
	for(int i = 0; i < nthr; ++i)
	{
		Rec *r = &rec[cur_rec[i]];

		if(fib_done(i))
		{
			continue;
		}

		if(fib_blocked(i))
		{
			++n_waited;

			if((judge & J_BLOCK) && ghost > 0)
			{
				fail("thread %d stays blocked in %s although %d element(s) are available", i,
				     r->kind == 't' ? "a timed pop" : "a pop", ghost);
			}

			if(r->kind == 't' && (judge & J_TIME) && !cfg.eager)
			{
				if(ghost > 0)
				{
					fail("thread %d: an element is available, but a timed pop keeps waiting", i);
				}

				if(now_ns() - r->t_call > r->ms * 1000000LL + 50000000LL)
				{
					fail("thread %d: a pop with %u ms time-out still waits after %.3f ms", i, r->ms, (now_ns() - r->t_call) / 1e6);
				}
			}

			if(r->kind != 't' && r->kind != 'o' && (judge & J_BLOCK))
			{
				fail("thread %d waits for a wake-up in an operation that must not block", i);
			}
		}
	}
}

/* ------------------------------------------------------------------ linearizability */
static int fifo[MAXOPS], fh, ft;

static bool
in_rel(const Rec *r, int v)
{
	for(int i = 0; i < r->nrel; ++i)
	{
		if(r->rel[i] == v)
		{
			return true;
		}
	}

	return false;
}

static bool
lin(uint32_t todo)
{
	++n_lin;

	if(!todo)
	{
		return true;
	}

	uint64_t first = UINT64_MAX;

	for(int i = 0; i < nrec; ++i)
	{
		if(todo & (1u << i) && rec[i].ret < first)
		{
			first = rec[i].ret;
		}
	}

	for(int i = 0; i < nrec; ++i)
	{
		const Rec *r = &rec[i];

		if(!(todo & (1u << i)) || r->call > first)
		{
			continue;
		}

		int sh = fh, st = ft;
		int save = 0;
		bool ok = true;

		switch(r->kind)
		{
			case 'u':
				save = fifo[ft];
				fifo[ft++] = r->val;
				break;

			case 'o':
			case 't':
				if(r->inj && !r->ok)
				{
					break;
				}

				if(r->ok)
				{
					ok = fh < ft && fifo[fh] == r->val;
					++fh;
				}
				else
				{
					ok = fh == ft;
				}
				break;

			case 'n':
				ok = r->res == (size_t)(ft - fh);
				break;

			case 'c':
			case 'd':
			{
				int want = 0;

				for(int k = fh; ok && k < ft; ++k)
				{
					/* a stored NULL may or may not be given to the release function */
					bool got = in_rel(r, fifo[k]);

					ok = got || (fifo[k] == 0 && nullfirst);
					want += got;
				}

				ok = ok && r->nrel == want;
			}

				fh = ft;
				break;
		}

		if(r->kind != 'c' && r->kind != 'd' && r->nrel)
		{
			ok = false;
		}

		if(ok && lin(todo & ~(1u << i)))
		{
			return true;
		}

		fh = sh;
		ft = st;

		if(r->kind == 'u')
		{
			fifo[ft] = save;
		}
	}

	return false;
}

#define NOUT 4096
static uint64_t outs[NOUT];
static int nouts;

static void
outcome(void)
{
	uint64_t h = 1469598103934665603ULL;

	for(int t = 0; t <= MAXT; ++t)
	{
		for(int i = 0; i < nrec; ++i)
		{
			if(rec[i].tid == t)
			{
				h = (h ^ (uint64_t)(rec[i].done * 8 + rec[i].ok * 4 + rec[i].kind * 16)) * 1099511628211ULL;
				h = (h ^ (uint64_t)(rec[i].val + 7)) * 1099511628211ULL;
				h = (h ^ rec[i].res) * 1099511628211ULL;
			}
		}
	}

	for(int i = 0; i < nouts; ++i)
	{
		if(outs[i] == h)
		{
			return;
		}
	}

	if(nouts < NOUT)
	{
		outs[nouts++] = h;
		++n_outcomes;
	}
}

static void
finish(bool all)
{
	outcome();

	for(int i = 0; i < nthr; ++i)
	{
		if(!fib_done(i) && !fib_blocked(i))
		{
			if(judge & J_BLOCK)
			{
				fail("deadlock: thread %d never gets the mutex", i);
			}

			return;
		}
	}

	if(!(judge & J_LIN))
	{
		if(all)
		{
			begin('d', 0);
			if(form) async_queue_free(q); else async_queue_destroy(q);
			if((judge & J_MEM) && !pool_bs && lib_live_blocks() != blocks0) fail("destroying the queue leaves %zd block(s) allocated", (ssize_t)(lib_live_blocks() - blocks0));
			if((judge & J_MEM) && live_sync_objects() != sync0) fail("destroying the queue leaves %d mutex(es) or condition variable(s) behind", live_sync_objects() - sync0);
		}

		return;
	}

	/* what is left, sequentially */
	do_op((Op){ 'n', 0 });

	if(all)
	{
		int left = ghost;

		for(int i = 0; i < (left + 1) / 2; ++i)
		{
			do_op((Op){ 'o', 0 });
		}

		if(judge & J_TIME)
		{
			do_op((Op){ 't', 0 });
		}

		do_op((Op){ 'n', 0 });

		Rec *r = begin('d', 0);

		if(form)
		{
			async_queue_free(q);
		}
		else
		{
			async_queue_destroy(q);
		}

		r->ok = true;
		end(r);

		if(!pool_bs && lib_live_blocks() != blocks0)
		{
			fail("destroying the queue leaves %zd block(s) allocated", (ssize_t)(lib_live_blocks() - blocks0));
		}

		if(mp)
		{
			memory_pool_destroy(mp);
		}
	}

	uint32_t todo = 0;

	for(int i = 0; i < nrec; ++i)
	{
		if(rec[i].done)
		{
			todo |= 1u << i;
		}
	}

	fh = ft = 0;

	if(!lin(todo))
	{
		fail("no order of the operations explains the results");
	}
}

/* ------------------------------------------------------------------ programs */
static void
hist(char *buf, size_t n)
{
	size_t k = 0;

	for(int i = 0; i < nrec && k < n - 120; ++i)
	{
		const Rec *r = &rec[i];

		k += snprintf(buf + k, n - k, "[%s%d %llu-%llu] ", r->tid == MAXT ? "main" : "thread ", r->tid == MAXT ? 0 : r->tid,
		              (unsigned long long)r->call, (unsigned long long)r->ret);

		switch(r->kind)
		{
			case 'i': k += snprintf(buf + k, n - k, "create"); break;
			case 'u': k += snprintf(buf + k, n - k, "push(%d)", r->val); break;
			case 'o': k += snprintf(buf + k, n - k, "pop() -> %s %d", r->done ? r->ok ? "true" : "false" : "blocked", r->val); break;
			case 't': k += snprintf(buf + k, n - k, "pop_timeout(%u ms) -> %s %d after %.3f ms", r->ms, r->done ? r->ok ? "true" : "false" : "blocked", r->val, (r->t_ret - r->t_call) / 1e6); break;
			case 'c': k += snprintf(buf + k, n - k, "clear() releases %d", r->nrel); break;
			case 'n': k += snprintf(buf + k, n - k, "count() -> %zu", r->res); break;
			case 'd': k += snprintf(buf + k, n - k, "destroy() releases %d", r->nrel); break;
		}

		k += snprintf(buf + k, n - k, "; ");
	}
}

static void
parse(const char *s)
{
	nthr = 0;
	memset(prg, 0, sizeof prg);

	while(*s)
	{
		int k = prg[nthr].n;

		if(*s == '|')
		{
			++nthr;
			++s;
			continue;
		}

		prg[nthr].op[k].kind = *s++;

		if(*s >= '0' && *s <= '9')
		{
			prg[nthr].op[k].ms = strtoul(s, (char **)&s, 10);
		}

		prg[nthr].n = k + 1;
	}

	++nthr;
}

static long shard, shards, n_gen;

static void
config_text(char *out, size_t n, const char *threads)
{
	snprintf(out, n, "%s;fill=%d;prefill=%d;pool=%d;form=%d;null=%d;pb=%d;spur=%d;eager=%d;access=%d;efail=%d;clock=%lld%s", threads, a_fill, prefill, pool_bs,
	         form, nullfirst, cfg.pb, cfg.spur, cfg.eager, cfg.access, cfg.efail, (long long)cfg.clock0, held_points ? ";held=1" : "");
}

static void
run_prog(const char *threads)
{
	if(n_gen++ % shards != shard)
	{
		return;
	}

	parse(threads);
	config_text(prog_text, sizeof prog_text, threads);
	++n_progs;
	explore(setup, finish, quiet);
}

/* all programs: T threads of at most L operations, total at most M, threads in order */
static const char *alpha;
static char tms[16];

static void
gen(char (*thr)[48], int t, int T, int L, int M)
{
	if(t == T)
	{
		char buf[200] = "";
		bool cons = false;

		for(int i = 0; i < T; ++i)
		{
			if(i)
			{
				strcat(buf, "|");
			}

			strcat(buf, thr[i]);
			cons |= strchr(thr[i], 'o') || strchr(thr[i], 't') || strchr(thr[i], 'c') || strchr(thr[i], 'n');
		}

		if(cons)
		{
			run_prog(buf);
		}

		return;
	}

	/* enumerate strings over alpha of length 1..L in order, not smaller than the previous thread's */
	int na = strlen(alpha), idx[8];

	for(int len = 1; len <= L && len <= M - (T - t - 1); ++len)
	{
		memset(idx, 0, sizeof idx);

		for(;;)
		{
			char s[48] = "";

			for(int i = 0; i < len; ++i)
			{
				char c[2] = { alpha[idx[i]], 0 };

				strcat(s, c);

				if(c[0] == 't')
				{
					strcat(s, tms);
				}
			}

			if(!t || strlen(s) > strlen(thr[t - 1]) || (strlen(s) == strlen(thr[t - 1]) && strcmp(s, thr[t - 1]) >= 0))
			{
				strcpy(thr[t], s);
				gen(thr, t + 1, T, L, M - len);
			}

			int i = len - 1;

			while(i >= 0 && ++idx[i] == na)
			{
				idx[i--] = 0;
			}

			if(i < 0)
			{
				break;
			}
		}
	}
}

static void
read_config(const char *s)
{
	char key[16];
	long long v;

	while(s && *s)
	{
		int n = 0;

		if(sscanf(s, ";%15[a-z]=%lld%n", key, &v, &n) < 2 || !n)
		{
			break;
		}

		if(!strcmp(key, "prefill")) prefill = v;
		if(!strcmp(key, "pool")) pool_bs = v;
		if(!strcmp(key, "form")) form = v;
		if(!strcmp(key, "fill")) a_fill = v;
		if(!strcmp(key, "null")) nullfirst = v;
		if(!strcmp(key, "pb")) cfg.pb = v;
		if(!strcmp(key, "spur")) cfg.spur = v;
		if(!strcmp(key, "eager")) cfg.eager = v;
		if(!strcmp(key, "access")) cfg.access = v;
		if(!strcmp(key, "efail")) cfg.efail = v;
		if(!strcmp(key, "held")) held_points = v;
		if(!strcmp(key, "clock")) cfg.clock0 = v;

		s += n;
	}
}

int
s_aq(const char *mode)
{
	const char *c = opts("check", "lin,block,time");

	judge = (strstr(c, "lin") ? J_LIN : 0) | (strstr(c, "block") ? J_BLOCK : 0) | (strstr(c, "time") ? J_TIME : 0) | (strstr(c, "mem") ? J_MEM : 0);
	a_fill = opt("fill", 0xA5);
	cfg.races = strstr(c, "race") != NULL;
	cfg.pb = opt("pb", -1);
	cfg.spur = opt("spur", 0);
	cfg.eager = opt("eager", 0);
	cfg.access = opt("access", 0);
	cfg.clock0 = opt("sec", 1000000) * 1000000000LL + opt("usec", 0) * 1000LL;
	cfg.efail = opt("efail", 0);
	cfg.cap = opt("cap", 0);
	prefill = opt("prefill", 0);
	pool_bs = opt("pool", 0);
	form = opt("form", 0);
	nullfirst = opt("null", 0);
	shard = opt("shard", 0);
	shards = opt("shards", 1);
	history_cb = hist;

	if(!strcmp(mode, "replay"))
	{
		static char prog[256];

		snprintf(prog, sizeof prog, "%s", opts("prog", ""));

		char *sc = strchr(prog, ';');

		read_config(sc);

		if(sc)
		{
			*sc = 0;
		}

		parse(prog);
		config_text(prog_text, sizeof prog_text, prog);
		replay(opts("trace", ""), setup, finish, quiet);
		return 0;
	}

	if(!strcmp(mode, "one"))
	{
		run_prog(opts("prog", "u|o"));
	}
	else if(!strcmp(mode, "all"))
	{
		char thr[MAXT][48];

		alpha = opts("alpha", "uotcn");
		snprintf(tms, sizeof tms, "%ld", opt("ms", 10));
		gen(thr, 0, opt("threads", 2), opt("len", 2), opt("total", 6));
	}
	else if(!strcmp(mode, "time"))
	{
		/* every time-out x clock reading x companion thread */
		static const uint32_t ms[] = { 0, 1, 2, 7, 50, 99, 100, 999, 1000, 1001, 1500, 1999, 2000, 59999, 60000, 3600000, 4294967, 4294968, 2147483647, 2147483648, 4294967295 };
		static const long usec[] = { 0, 1, 1000, 499999, 500000, 900000, 998999, 999000, 999001, 999999 };
		static const long sec[] = { 1, 1000000, 2147483647, 4294967295 };
		static const char *comp[] = { "", "|s%uu", "|s%us%uu", "|s%uut0", "|s%uuuoo", "|t%u", "|s%uu|t%u", "|s%ut0|s%uu", "|s%uc|s%uu", "|s%un", "|s%uuo|t%u" };
		static const int part[] = { 0, 1, 2 };
		int deep = opt("deep", 1);

		for(size_t a = 0; a < sizeof ms / sizeof *ms; ++a)
		{
			for(size_t b = 0; b < sizeof usec / sizeof *usec; ++b)
			{
				for(size_t d = 0; d < sizeof sec / sizeof *sec; ++d)
				{
					for(size_t e = 0; e < sizeof comp / sizeof *comp; ++e)
					{
						for(size_t f = 0; f < sizeof part / sizeof *part; ++f)
						{
							/* the companion acts half way, a bit before or after the time-out */
							uint32_t x = part[f] == 0 ? ms[a] / 2 : part[f] == 1 ? (ms[a] ? ms[a] - 1 : 0) : ms[a] < 4294967000u ? ms[a] + 1 : ms[a];
							char buf[200], cmpn[120];

							if((!*comp[e] && f) || (deep < 2 && (d != 1 && e)))
							{
								continue;
							}

							snprintf(cmpn, sizeof cmpn, comp[e], x, x, x);
							snprintf(buf, sizeof buf, "t%u%s", ms[a], cmpn);
							cfg.clock0 = sec[d] * 1000000000LL + usec[b] * 1000LL;
							run_prog(buf);
						}
					}
				}
			}
		}
	}
	else
	{
		return 3;
	}

	printf("{\"harness\":\"aq\",\"mode\":\"%s\",\"programs\":%llu,\"schedules\":%llu,\"choice_points\":%llu,\"switches\":%llu,"
	       "\"outcomes\":%llu,\"accesses\":%llu,\"capped\":%llu,\"skipped\":%llu,\"waits\":%llu,\"timeouts\":%llu,\"failures_injected\":%llu,\"stopped\":%llu,\"lin_steps\":%llu,\"last\":\"%s\"}\n",
	       mode, (unsigned long long)n_progs, (unsigned long long)n_exec, (unsigned long long)n_points, (unsigned long long)n_switch,
	       (unsigned long long)n_outcomes, (unsigned long long)n_accesses, (unsigned long long)n_capped, (unsigned long long)n_skipped, (unsigned long long)n_waited,
	       (unsigned long long)n_timeouts, (unsigned long long)n_inj, (unsigned long long)n_stopped, (unsigned long long)n_lin, prog_text);

	return 0;
}
