/* byte buffer against a byte-string model */
#include "common.h"
#include <errno.h>
#include <limits.h>

void __wrap_free(void *p);

static long cap;             /* most bytes modelled */
static long grow;            /* small writes stop at this length (unlimited buffers) */
static size_t maxsize;       /* limit given to the buffer */
static int form;
static int ninst, cur;
static bool nested;
static bool f_rd, f_inv, f_fd; /* what is judged: contents/reading, limit/validity, descriptor */
static bool o_fill, o_line, o_flush, o_str, o_fd, o_clear;
static int alpha;            /* alphabet size */
static long prefill, fillmax, bigfill, huge;
static const char AB[] = { '\n', 'a', 0, (char)0xff, ' ', (char)0x80 };

typedef struct
{
	Buffer *b;
	Buffer *storage;
	uint32_t n;
	uint8_t valid;
	char m[];
} Host;
static Host *sw_host;
static size_t host_bytes;
static Host *H(void) { return mc_passthrough ? sw_host : (Host *)((char *)mc_host + cur * host_bytes); }

#define RD(c, ...) do { if(f_rd) CHECK(c, __VA_ARGS__); } while(0)
#define INV(c, ...) do { if(f_inv) CHECK(c, __VA_ARGS__); } while(0)
#define FD(c, ...) do { if(f_fd) CHECK(c, __VA_ARGS__); } while(0)

static void
binit1(void)
{
	Host *h = H();
	h->valid = 1;
	h->n = 0;
	if(form == 0) { h->b = buffer_new(maxsize); return; }
	h->storage = h_alloc(sizeof(Buffer), CH_HOST);
	memset(h->storage, form == 1 ? 0xA5 : form == 3 ? 0 : 0xFF, sizeof(Buffer));
	buffer_init(h->storage, maxsize);
	h->b = h->storage;
}

static void
bfinish1(void)
{
	Host *h = H();
	if(h->storage) { buffer_free(h->b); h_free(h->storage); h->storage = NULL; }
	else buffer_destroy(h->b);
	h->b = NULL;
}

/* ---- writing */
static void
m_append(const char *d, size_t n)
{
	Host *h = H();
	if(!h->valid) return;
	if(n > maxsize - h->n) { h->valid = 0; h->n = 0; memset(h->m, 0, cap); return; }
	memcpy(h->m + h->n, d, n);
	h->n += n;
}

static void
do_fill(const char *d, size_t n)
{
	/* the source is an exact block: reading beyond it is noticed */
	char *src = h_alloc(n ? n : 1, CH_HOST);
	memcpy(src, d, n);
	bool was = H()->valid;
	bool ok = buffer_fill(H()->b, src, n);
	m_append(d, n);
	if(was || f_inv) INV(ok == (H()->valid != 0), "writing %lu bytes to %u reported %d", (unsigned long)n, H()->n, ok);
	INV(buffer_is_valid(H()->b) == (H()->valid != 0), "after a write the buffer is %s", H()->valid ? "invalid" : "still valid");
	RD(!was || ok == (H()->valid != 0), "writing reported %d", ok);
	memset(src, 0xEE, n ? n : 1);
	h_free(src);
}

/* a write no limit admits: it is rejected as a whole, its source is never needed */
static size_t
huge_len(int v)
{
	uint32_t n = H()->n;
	switch(v)
	{
		case 0: return SIZE_MAX;
		case 1: return (size_t)0 - n;                  /* the sum wraps to 0 */
		case 2: return (size_t)1 - n;
		case 3: return (size_t)1 << 32;
		case 4: return ((size_t)1 << 32) - n;
		case 5: return ((size_t)1 << 32) + 1;
		case 6: return (size_t)SSIZE_MAX + 1;
		default: return (size_t)1 << 31;
	}
}

static void
do_huge(int v)
{
	size_t n = huge_len(v);
	if(n <= maxsize) return;
	char *src = h_alloc(1, CH_HOST);
	*src = 'h';
	bool was = H()->valid;
	bool ok = buffer_fill(H()->b, src, n);
	if(was) m_append(src, n);
	INV(!ok, "a write of %lu bytes to a buffer limited to %lu was accepted", (unsigned long)n, (unsigned long)maxsize);
	INV(!buffer_is_valid(H()->b), "a buffer is valid after a write of %lu bytes exceeding its limit", (unsigned long)n);
	h_free(src);
}

/* ---- destination of a copy */
static char *
dst_new(size_t n)
{
	if(!n) return NULL;
	char *p = mc_user_malloc(n);
	if(!p) { fprintf(stderr, "mc: no memory\n"); _Exit(3); }
	memset(p, 0x77, n);
	return p;
}

static void
got_bytes(const char *p, size_t cap_said, const char *want, size_t n, const char *who)
{
	RD(p != NULL, "%s: no destination", who);
	RD(mc_readable(p, n + 1), "%s: the result does not fit the destination", who);
	RD(mc_readable(p, cap_said), "%s: reported a capacity of %lu bytes that the destination does not have", who, (unsigned long)cap_said);
	RD(!memcmp(p, want, n), "%s: wrong bytes", who);
	RD(p[n] == 0, "%s: result is not NUL-terminated", who);
}

/* destination states: 0 none, otherwise a block of (need + k) bytes */
static size_t
dst_size(int v, size_t need)
{
	switch(v)
	{
		case 0: return 0;
		case 1: return 1;
		case 2: return need;           /* without room for the NUL */
		case 3: return need + 1;       /* exact */
		case 4: return need + 5;
		default: return need > 1 ? need / 2 : 1;
	}
}

static void
do_line(int v)
{
	Host *h = H();
	char *nl = h->valid ? memchr(h->m, '\n', h->n) : NULL;
	size_t n = nl ? (size_t)(nl - h->m) : h->n;
	size_t len = dst_size(v, n), len0 = len;
	char *dst = dst_new(len), *dst0 = dst;
	bool ok = buffer_read_line(h->b, &dst, &len);
	if(nl)
	{
		RD(ok, "reading a line found none");
		INV(ok, "reading a line found none");
		if(ok) got_bytes(dst, len, h->m, n, "line");
		memmove(h->m, nl + 1, h->n - n - 1);
		h->n -= n + 1;
		memset(h->m + h->n, 0, n + 1);
	}
	else
	{
		RD(!ok || !h->valid, "reading a line succeeded without a newline");
		INV(!ok || h->valid, "an invalid buffer handed out a line");
		RD(dst == dst0 && len == len0, "a failed line read changed the destination");
		if(!h->valid && dst0) for(size_t i = 0; i < len0; ++i) INV(dst[i] == 0x77, "an invalid buffer handed out content");
		if(h->valid && dst0) for(size_t i = 0; i < len0; ++i) RD(dst[i] == 0x77, "a failed line read changed the destination");
	}
	__wrap_free(dst);
}

static void
do_flush(int v)
{
	Host *h = H();
	size_t len = dst_size(v, h->n), len0 = len;
	char *dst = dst_new(len), *dst0 = dst;
	bool ok = buffer_flush(h->b, &dst, &len);
	if(!h->valid)
	{
		INV(!ok, "an invalid buffer was flushed");
		INV(dst == dst0, "an invalid buffer replaced the destination");
		if(dst0 && dst == dst0) for(size_t i = 0; i < len0; ++i) INV(dst[i] == 0x77, "an invalid buffer handed out content");
	}
	else if(h->n)
	{
		RD(ok, "flushing a non-empty buffer failed");
		if(ok) got_bytes(dst, len, h->m, h->n, "flush");
	}
	else if(ok && dst) RD(mc_readable(dst, 1) && dst[0] == 0, "flushing an empty buffer yields bytes");
	__wrap_free(dst);
}

static void
do_str(void)
{
	Host *h = H();
	char *s = buffer_to_string(h->b);
	if(!h->valid) INV(s == NULL, "an invalid buffer was converted to a string");
	else if(h->n)
	{
		RD(s != NULL, "converting a non-empty buffer to a string failed");
		if(s) got_bytes(s, h->n + 1, h->m, h->n, "string");
	}
	else if(s) RD(mc_readable(s, 1) && s[0] == 0, "an empty buffer was converted to a non-empty string");
	__wrap_free(s);
}

static void
do_clear(void)
{
	Host *h = H();
	buffer_clear(h->b);
	h->n = 0;
	h->valid = 1;
	memset(h->m, 0, cap);
	INV(buffer_is_valid(h->b), "a cleared buffer is not valid");
	INV(buffer_is_empty(h->b), "a cleared buffer is not empty");
}

/* ---- descriptor */
static struct
{
	const char *data;
	long outcome;        /* bytes, 0 = end, -1 = error */
	size_t asked, given;
	size_t limit;
	int calls, fd;
	void (*nested)(void);
} rd;

static int fdno, rderr;

static long
on_read(int fd, void *buf, size_t n)
{
	++rd.calls;
	rd.asked += n;
	if(rd.nested) { void (*f)(void) = rd.nested; rd.nested = NULL; f(); }
	FD(fd == rd.fd, "read from the wrong descriptor");
	FD(n <= rd.limit - rd.given, "asked the descriptor for %lu bytes, %lu were requested", (unsigned long)n, (unsigned long)rd.limit);
	FD(n == 0 || n > (1UL << 32) || mc_readable(buf, n), "the read target is smaller than the %lu bytes asked for", (unsigned long)n);
	if(rd.outcome == -1) { errno = rderr; return -1; }
	size_t left = (size_t)rd.outcome - rd.given, k = left < n ? left : n;
	memcpy(buf, rd.data + rd.given, k);
	rd.given += k;
	return k;
}

static void
do_fd(size_t count, long outcome, const char *data)
{
	Host *h = H();
	if(outcome > (long)count) outcome = count;
	memset(&rd, 0, offsetof(typeof(rd), fd));
	rd.data = data;
	rd.outcome = outcome;
	rd.limit = count;
	rd.fd = fdno;
	mc_read_hook = on_read;
	bool was = h->valid;
	ssize_t r = buffer_fill_from_fd(h->b, fdno, count);
	mc_read_hook = NULL;
	if(!was)
	{
		FD(rd.calls == 0, "an invalid buffer consumed data from the descriptor");
		FD(r <= 0, "an invalid buffer reported %ld bytes", (long)r);
		FD(!buffer_is_valid(h->b), "an invalid buffer became valid by filling");
		return;
	}
	if(outcome == -1 && rd.calls)
	{
		FD(r == -1, "a failed read returned %ld", (long)r);
		FD(buffer_is_valid(h->b), "a failed read invalidated the buffer");
		return;
	}
	FD(rd.calls || count == 0, "the descriptor was not read");
	size_t got = rd.given;
	FD(outcome <= 0 || got == (size_t)outcome || count == 0, "%lu of %ld delivered bytes were taken", (unsigned long)got, outcome);
	m_append(data, got);
	if(h->valid) FD(r == (ssize_t)got, "reading %lu bytes returned %ld", (unsigned long)got, (long)r);
	else FD(r == -1, "a delivery that does not fit returned %ld", (long)r);
	FD(buffer_is_valid(h->b) == (h->valid != 0), "after a delivery of %lu bytes the buffer is %s", (unsigned long)got, h->valid ? "invalid" : "valid");
}

/* ---- queries */
static void
look(void)
{
	Host *h = H();
	INV(buffer_is_valid(h->b) == (h->valid != 0), "validity is %d, expected %d", buffer_is_valid(h->b), h->valid);
	if(h->valid)
	{
		size_t n = buffer_len(h->b);
		RD(n == h->n, "length is %lu, expected %u", (unsigned long)n, h->n);
		INV(n == h->n, "length is %lu, expected %u", (unsigned long)n, h->n);
		FD(n == h->n, "length is %lu, expected %u", (unsigned long)n, h->n);
		RD(buffer_is_empty(h->b) == (h->n == 0), "emptiness is wrong");
	}
	else
	{
		INV(buffer_len(h->b) == 0, "an invalid buffer has length %lu", (unsigned long)buffer_len(h->b));
		INV(!buffer_is_empty(h->b), "an invalid buffer is reported as empty");
	}
	if(f_fd && h->valid && h->n)
	{
		char *s = buffer_to_string(h->b);
		CHECK(s && !memcmp(s, h->m, h->n), "content is not what the descriptor delivered");
		__wrap_free(s);
	}
}

static void
observe1(void)
{
	Host *h = H();
	look();
	do_str();
	do_flush(0);
	look();
	for(int v = 1; v < 6; ++v) do_flush(v);
	do_str();
	look();
	/* all lines come out, the rest stays */
	uint32_t guard = h->n + 2;
	int v = 0;
	while(h->valid && memchr(h->m, '\n', h->n) && guard--)
	{
		do_line(v++ % 6);
		look();
	}
	do_line(3);
	do_str();
	look();
	/* valid or not: clear makes it empty with its full capacity */
	if(f_inv)
	{
		do_clear();
		look();
		static char big[512];
		if(maxsize < sizeof big)
		{
			memset(big, 'x', sizeof big);
			do_fill(big, maxsize);
			CHECK(h->valid && buffer_is_valid(h->b), "a cleared buffer does not take its maximum size");
			do_str();
			do_fill(big, 1);
			CHECK(!buffer_is_valid(h->b), "a byte beyond the maximum size was accepted");
			look();
			do_str();
			do_flush(4);
			do_line(4);
		}
	}
}

/* ---- BFS: op = type 3 | x 12 ... */
enum { O_FILL, O_LINE, O_FLUSH, O_STR, O_CLEAR, O_FD, O_BIG };   /* O_BIG from 4 on: huge */

static int
ops1(uint32_t *out)
{
	int n = 0;
	long spare = maxsize > (size_t)cap ? grow - (long)H()->n : 4096;
	if(o_fill)
	{
		/* every string up to fillmax over the alphabet: length, base-alpha number */
		int cnt = 1;
		for(int l = 0; l <= fillmax && l <= spare; ++l, cnt *= alpha) for(int k = 0; k < cnt; ++k) out[n++] = O_FILL | l << 3 | k << 6;
		if(bigfill && spare >= 0) for(int k = 0; k < 4; ++k) out[n++] = O_BIG | k << 3;
	}
	if(huge) for(int k = 0; k < 8; ++k) if(huge_len(k) > maxsize) out[n++] = O_BIG | (k + 4) << 3;
	if(o_line) for(int v = 0; v < 5; v += 2) out[n++] = O_LINE | v << 3;
	if(o_flush) for(int v = 1; v < 5; v += 2) out[n++] = O_FLUSH | v << 3;
	if(o_str) out[n++] = O_STR;
	if(o_clear) out[n++] = O_CLEAR;
	if(o_fd)
	{
		long top = maxsize < 6 ? (long)maxsize : 6;
		if(top > spare) top = spare;
		for(long c = 0; c <= top; ++c) for(long r = -1; r <= c; ++r) for(int p = 0; p < (r > 0 ? 2 : 1); ++p) out[n++] = O_FD | c << 3 | (r + 1) << 7 | p << 11;
	}
	return n;
}

static void
apply1(uint32_t op)
{
	char s[256];
	switch(op & 7)
	{
		case O_FILL:
		{
			int l = op >> 3 & 7, k = op >> 6 & 0xfff;
			for(int i = 0; i < l; ++i) { s[i] = AB[k % alpha]; k /= alpha; }
			do_fill(s, l);
			break;
		}
		case O_BIG:
		{
			if(op >> 3 >= 4) { do_huge((op >> 3) - 4); break; }
			static const int sz[] = { 63, 64, 65, 129 };
			int l = sz[op >> 3 & 3];
			for(int i = 0; i < l; ++i) s[i] = "ab\0\n"[(i * 7 / 5) & 3];
			do_fill(s, l);
			break;
		}
		case O_LINE: do_line(op >> 3 & 7); break;
		case O_FLUSH: do_flush(op >> 3 & 7); break;
		case O_STR: do_str(); break;
		case O_CLEAR: do_clear(); break;
		case O_FD:
		{
			static const char *src[] = { "a\nb\n\0\n", "\nxyzuv" };
			do_fd(op >> 3 & 15, (long)(op >> 7 & 15) - 1, src[op >> 11 & 1]);
			break;
		}
	}
}

static uint32_t opb;
static void
run_b(void)
{
	int c = cur;
	typeof(rd) keep = rd;
	long (*hook)(int, void *, size_t) = mc_read_hook;
	cur = !cur;
	apply1(opb);
	cur = c;
	rd = keep;
	mc_read_hook = hook;
}

static int
b_ops(uint32_t *out)
{
	static uint32_t a[2][MC_MAX_OPS];
	int n[2], k = 0;
	if(ninst == 1) return ops1(out);
	for(cur = 0; cur < 2; ++cur) n[cur] = ops1(a[cur]);
	cur = 0;
	if(!nested)
	{
		for(int w = 0; w < 2; ++w) for(int i = 0; i < n[w]; ++i) out[k++] = a[w][i] | w << 31;
		return k;
	}
	/* during each read() of one buffer, any operation on the other */
	for(int i = 0; i < n[0]; ++i) for(int j = 0; j < n[1]; ++j) if(k < MC_MAX_OPS) out[k++] = a[0][i] | a[1][j] << 13;
	return k;
}

static void
b_apply(uint32_t op)
{
	if(nested)
	{
		opb = op >> 13;
		rd.nested = run_b;
		apply1(op & 0x1fff);
		if(rd.nested) { rd.nested = NULL; run_b(); }
		return;
	}
	cur = op >> 31;
	apply1(op & 0x7fffffff);
	cur = 0;
}

static void
b_init(void)
{
	memset(&rd, 0, sizeof rd);
	mc_read_hook = NULL;
	for(cur = ninst - 1; cur >= 0; --cur)
	{
		binit1();
		char *s = malloc(prefill + 1);
		long rhythm = opt("rhythm", 23);
		for(long i = 0; i < prefill; ++i) s[i] = i % rhythm == 19 ? '\n' : 'A' + i % 50;
		if(prefill) do_fill(s, prefill);
		free(s);
	}
	cur = 0;
}

static void
b_observe(void)
{
	for(cur = ninst - 1; cur > 0; --cur) observe1();
	observe1();
}

static void
b_finish(void)
{
	for(cur = ninst - 1; cur > 0; --cur) bfinish1();
	bfinish1();
	if(flags & F_MEM) CHECK(mc_lib_live() == 0, "%lu blocks were not given back", (unsigned long)mc_lib_live());
}

static void
d1(uint32_t op, char *b, size_t n)
{
	static const char *nm[] = { "fill", "read_line", "flush", "to_string", "clear", "fill_from_fd", "fill block" };
	switch(op & 7)
	{
		case O_FILL:
		{
			char s[80] = "";
			int l = op >> 3 & 7, k = op >> 6 & 0xfff, o = 0;
			for(int i = 0; i < l; ++i) { o += snprintf(s + o, sizeof s - o, "%s%02x", i ? " " : "", (unsigned char)AB[k % alpha]); k /= alpha; }
			snprintf(b, n, "fill[%s]", s);
			break;
		}
		case O_FD: snprintf(b, n, "fill_from_fd(count %u, read gives %d)", op >> 3 & 15, (int)(op >> 7 & 15) - 1); break;
		default: snprintf(b, n, "%s(#%u)", nm[op & 7], op >> 3 & 15);
	}
}

static void
b_describe(uint32_t op, char *b, size_t n)
{
	if(nested)
	{
		char x[100], y[100];
		d1(op & 0x1fff, x, sizeof x);
		d1(op >> 13, y, sizeof y);
		snprintf(b, n, "A.%s with B.%s during its read()", x, y);
		return;
	}
	char x[100];
	d1(op & 0x7fffffff, x, sizeof x);
	snprintf(b, n, "%s%s", ninst == 2 ? (op >> 31 ? "B." : "A.") : "", x);
}

static void
b_abstract(void)
{
	for(cur = ninst - 1; cur >= 0; --cur)
	{
		Host *h = H();
		mc_mix(h->n);
		mc_mix(h->valid);
		for(uint32_t i = 0; i < h->n; ++i) mc_mix((uint8_t)h->m[i]);
	}
	cur = 0;
}

static void
options(void)
{
	maxsize = opt("max", 4);
	if(opt("nolimit", 0)) maxsize = SSIZE_MAX - 1;
	prefill = opt("prefill", 0);
	fillmax = opt("fillmax", 2);
	bigfill = opt("bigfill", 0);
	huge = opt("huge", 0);
	alpha = opt("alpha", 3);
	grow = opt("cap", 4000);
	cap = maxsize < 4000 ? (long)maxsize : grow + (bigfill ? 130 : 0);
	form = opt("form", 0);
	fdno = opt("fdno", 7);
	rderr = opt("err", EIO);
	ninst = opt("inst", 1);
	nested = opt("nest", 0);
	if(nested) ninst = 2;
	const char *o = opts("ops", "fill,line,flush,str,clear");
	o_fill = strstr(o, "fill") != NULL;
	o_line = strstr(o, "line") != NULL;
	o_flush = strstr(o, "flush") != NULL;
	o_str = strstr(o, "str") != NULL;
	o_clear = strstr(o, "clear") != NULL;
	o_fd = strstr(o, "fd") != NULL;
	const char *c = opts("check", "rd");
	parse_flags();
	f_rd = strstr(c, "rd") != NULL;
	f_inv = strstr(c, "inv") != NULL;
	f_fd = strstr(c, "fd") != NULL;
}

static Sys sys = { "buf", 0, b_init, b_ops, b_apply, b_observe, b_finish, b_describe, b_abstract };

static Sys *
b_bfs(void)
{
	options();
	host_bytes = (sizeof(Host) + cap + 15) & ~15UL;
	sys.host_size = ninst * host_bytes;
	return &sys;
}

/* ---- sweeps */
static char *text;
static void
sw_begin(size_t limit, size_t room)
{
	ninst = 1;
	cur = 0;
	maxsize = limit;
	cap = room + 16;
	prefill = 0;
	sw_host = calloc(1, sizeof(Host) + cap + 16);
	b_init();
}

static void
sw_end(void)
{
	b_finish();
	free(sw_host);
}

static void
everything(void)
{
	look();
	do_str();
	for(int v = 0; v < 6; ++v) do_flush(v);
	look();
}

/* newline at every nl-th place */
static void
make_text(size_t n, size_t nl, int style)
{
	text = realloc(text, n + 2);
	for(size_t i = 0; i < n; ++i) text[i] = (char)(style == 1 ? 128 + i % 127 : style == 2 ? (i % 3 ? 0 : 'z') : 'a' + i % 26);
	for(size_t i = 0; i < n; ++i) if(text[i] == '\n') text[i] = '_';
	if(nl) for(size_t i = nl - 1; i < n; i += nl) text[i] = '\n';
}

static void
b_sweep(void)
{
	options();
	const char *family = opts("family", "two");
	long lo = opt("from", 0), hi = opt("to", 140), step = opt("step", 1);
	if(!strcmp(family, "two"))
	{
		/* two writes of every pair of lengths, limits around the sum, lines in between */
		for(long a = lo; a <= hi; a += step)
		for(long b = 0; b <= hi; b += step)
		for(int lim = 0; lim < 4; ++lim)
		{
			if(!sw_selected()) continue;
			long sum = a + b;
			size_t limit = lim == 0 ? SSIZE_MAX - 1 : lim == 1 ? (size_t)sum : lim == 2 ? (size_t)sum + 1 : sum > 1 ? (size_t)sum - 1 : 1;
			if(!limit) limit = 1;
			sw_case("buffer limit %lu: write %ld bytes, then %ld bytes", (unsigned long)limit, a, b);
			sw_begin(limit, sum + 300);
			make_text(sum + 8, lim == 0 ? 17 : lim == 1 ? 0 : 64, (a + b) % 3);
			do_fill(text, a);
			look();
			do_fill(text + a, b);
			everything();
			do_line(5);
			everything();
			do_fill(text, 3);
			everything();
			do_line(2);
			do_line(0);
			everything();
			do_clear();
			look();
			do_fill(text, b < (long)limit ? b : (long)limit);
			everything();
			do_line(4);
			look();
			sw_steps += 7;
			sw_end();
		}
	}
	else if(!strcmp(family, "stream"))
	{
		/* many pieces of one length, line reads of another rhythm; contents up to a large size */
		for(long piece = lo; piece <= hi; piece += step)
		for(int nl = opt("nl", 1); nl <= (opt("total", 5000) >= 140000 ? 6 : 5); ++nl)
		for(int style = 0; style < 3; ++style)
		{
			if(!piece || !sw_selected()) continue;
			size_t total = opt("total", 5000);
			sw_case("buffer: pieces of %ld bytes, newline rhythm %d, style %d", piece, nl, style);
			sw_begin(SSIZE_MAX - 1, total + 2 * piece);
			size_t every = nl == 1 ? 1 : nl == 2 ? 7 : nl == 3 ? 64 : nl == 4 ? 65 : nl == 5 ? 1000 : 66000;
			make_text(total + piece, every, style);
			size_t pos = 0;
			int k = 0;
			while(pos < total)
			{
				do_fill(text + pos, piece);
				pos += piece;
				++sw_steps;
				if(++k % 3 == 0) { do_line(k % 6); do_line((k + 1) % 6); }
				if(k % 16 == 0) everything();
				++mc_progress;
			}
			everything();
			while(memchr(sw_host->m, '\n', sw_host->n)) { do_line(k++ % 6); ++mc_progress; ++sw_steps; if(k % 50 == 0) look(); }
			everything();
			do_clear();
			look();
			do_fill(text, piece);
			everything();
			sw_end();
		}
	}
	else if(!strcmp(family, "cycles"))
	{
		/* filled, then cleared, overfilled and cleared, or read line by line; three times with all combinations of lengths */
		static const long sizes[] = { 1, 63, 64, 65, 129, 300, 1000, 4097 };
		int k = opt("sizes", 7);
		for(int c = 0; c < k * k * k; ++c) for(int mode = 0; mode < 9; ++mode) for(int piece = 0; piece < 2; ++piece)
		{
			long n[3] = { sizes[c % k], sizes[c / k % k], sizes[c / k / k] }, top = n[0] > n[1] ? n[0] : n[1];
			if(n[2] > top) top = n[2];
			if(!sw_selected()) continue;
			sw_case("buffer: %ld, %ld and %ld bytes, emptied in ways %d and %d", n[0], n[1], n[2], mode % 3, mode / 3);
			sw_begin(mode % 2 ? (size_t)top : (size_t)top + 7, 2 * top + 100);
			make_text(top + 50, 50, c % 3);
			for(int r = 0; r < 3; ++r)
			{
				if(piece) for(long i = 0; i < n[r]; i += 50) do_fill(text + i, n[r] - i < 50 ? n[r] - i : 50);
				else do_fill(text, n[r]);
				look();
				do_str();
				do_flush(r);
				int how = r == 0 ? mode % 3 : mode / 3;
				sw_steps += 4;
				++mc_progress;
				if(r == 2) break;
				if(how == 0) do_clear();
				else if(how == 1) { do_fill(text, maxsize - H()->n + 1); look(); do_line(3); do_flush(4); do_clear(); }
				else
				{
					do_fill("\n", maxsize > H()->n);
					while(H()->valid && memchr(H()->m, '\n', H()->n)) do_line(r + 2);
					if(H()->n) do_clear();
				}
				look();
				do_str();
			}
			sw_end();
		}
	}
	else if(!strcmp(family, "bytes"))
	{
		/* contents of every byte value: all pairs; longer texts over the characters with a meaning somewhere */
		static const unsigned char special[] = { '\n', '\r', 0, 'a', ' ', '\t', '%', '\\', 0x1a, 0x7f, 0x80, 0xff, '\v', '\f', '0', 0x8a };
		int len = opt("len", 2), radix = len == 2 ? 256 : opt("chars", sizeof special);
		long total = 1;
		for(int i = 0; i < len; ++i) total *= radix;
		long block = len == 2 ? 256 : radix * radix;
		for(long first = 0; first < total; first += block)
		{
			if(!sw_selected()) continue;
			sw_case("buffer: all texts of %d bytes, number %ld to %ld", len, first, first + block - 1);
			for(long k = first; k < first + block && k < total; ++k)
			{
				char t[16];
				long x = k;
				for(int i = 0; i < len; ++i, x /= radix) t[i] = (char)(len == 2 ? x % radix : special[x % radix]);
				sw_begin(100, 120);
				if(o_fd) do_fd(len, len, t);
				else do_fill(t, len);
				look();
				do_str();
				do_flush(0);
				do_flush(3);
				do_fill(t, 1);
				do_line(k % 6);
				look();
				do_str();
				do_line(5);
				do_flush(2);
				look();
				sw_end();
				++sw_steps;
				++mc_progress;
			}
		}
	}
	else if(!strcmp(family, "fd"))
	{
		/* counts up to the maximum size x delivered bytes x previous content */
		static const long counts[] = { 0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 4095, 4096, 4097, 65536, 100000,
			1 << 20, (1 << 20) + 1, 8 << 20, 16 << 20, 64 << 20, 256 << 20, 1L << 30 };
		static const long had[] = { 0, 1, 60, 64, 100 };
		for(unsigned ci = 0; ci < sizeof counts / sizeof *counts; ++ci)
		for(unsigned hi_ = 0; hi_ < sizeof had / sizeof *had; ++hi_)
		for(int o = 0; o < 9; ++o)
		for(int lim = 0; lim < 4; ++lim)
		{
			long c = counts[ci], h0 = had[hi_];
			long out = o == 0 ? -1 : o == 1 ? 0 : o == 2 ? 1 : o == 3 ? 63 : o == 4 ? 64 : o == 5 ? 65 : o == 6 ? c / 2 : o == 7 ? c - 1 : c;
			if(out > c || (o == 7 && out < 0)) continue;
			if(out > 5000 && c > 65536 && (o < 8 || lim || c > (8 << 20))) continue;
			long keep = out < 0 ? 0 : out;
			size_t limit = lim == 0 ? SSIZE_MAX - 1 : lim == 1 ? (size_t)(h0 + keep) : lim == 2 ? (size_t)(h0 + keep) - 1 : (size_t)c;
			if((long)limit < c || (long)limit < h0 || !limit) { if(lim) continue; }
			if(!sw_selected()) continue;
			sw_case("fill_from_fd: %ld bytes present, limit %lu, count %ld, the descriptor gives %ld", h0, (unsigned long)limit, c, out);
			sw_begin(limit, h0 + keep + 300);
			make_text(h0 + keep + 8, 17, o % 3);
			do_fill(text, h0);
			do_fd(c, out, text + h0);
			look();
			do_fd(c < 10 ? c : 10, 3, "xyz");
			look();
			do_clear();
			do_fd(c < 3 ? c : 3, 2, "q\n");
			look();
			sw_steps += 3;
			sw_end();
		}
	}
}

const Harness h_buf = { "buf", b_bfs, b_sweep };
