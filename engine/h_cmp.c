/* hash and compare helpers against byte-wise definitions, exhaustively over small domains */
#include "common.h"

static uint64_t n_eval, n_nontrivial;

static char *
exact(const char *s, size_t n, int shift)
{
	/* block ending right behind the NUL, starting at different alignments */
	char *p = malloc(n + 1 + shift);
	memset(p, 'x', shift);
	memcpy(p + shift, s, n);
	p[shift + n] = 0;
	return p;
}

static void
pair(const char *a, size_t na, const char *b, size_t nb)
{
	bool same = na == nb && !memcmp(a, b, na);
	++n_eval;
	if(na && nb && a[0] == b[0]) ++n_nontrivial;
	CHECK(str_equal(a, b) == same, "str_equal is wrong");
	CompareFunc scmp = str_compare;
	CHECK((scmp(a, b) == 0) == same, "str_compare is zero for different strings or not for equal ones");
	if(same) CHECK(str_hash(a) == str_hash(b), "equal strings have different hash values");
}

static int64_t
gen(const char *alpha, int na, int64_t k, char *out)
{
	/* k-th string: lengths ascending */
	int64_t cnt = 1;
	int len = 0;
	while(k >= cnt) { k -= cnt; cnt *= na; ++len; }
	for(int i = 0; i < len; ++i) { out[i] = alpha[k % na]; k /= na; }
	out[len] = 0;
	return len;
}

static void
c_sweep(void)
{
	const char *family = opts("family", "pairs");
	if(!strcmp(family, "pairs"))
	{
		/* all pairs of strings up to a length, each at its own address */
		static const char alpha[] = { 'a', 'b', 1, 127, (char)128, (char)255 };
		int na = opt("alpha", 5), maxlen = opt("len", 4);
		int64_t total = 0, c = 1;
		for(int l = 0; l <= maxlen; ++l, c *= na) total += c;
		char **s = malloc(total * sizeof *s), **t = malloc(total * sizeof *t);
		size_t *n = malloc(total * sizeof *n);
		for(int64_t i = 0; i < total; ++i)
		{
			char b[32];
			n[i] = gen(alpha, na, i, b);
			s[i] = exact(b, n[i], 0);
			t[i] = exact(b, n[i], 1 + i % 7);
		}
		for(int64_t i = 0; i < total; ++i)
		{
			if(!sw_selected()) continue;
			sw_case("strings #%ld against all", (long)i);
			for(int64_t j = 0; j < total; ++j)
			{
				pair(s[i], n[i], t[j] + 1 + j % 7, n[j]);

				/* and at one address that held other strings before */
				static char p1[32], p2[32];
				memcpy(p1, s[i], n[i] + 1);
				memcpy(p2, s[j], n[j] + 1);
				pair(p1, n[i], p2, n[j]);
			}
			++sw_steps;
		}
	}
	else if(!strcmp(family, "long"))
	{
		/* long strings differing at one place, or in length */
		for(int64_t n = opt("from", 1); n <= opt("to", 300); n += opt("step", 1))
		{
			if(!sw_selected()) continue;
			sw_case("strings of length %ld differing at each place", (long)n);
			char *a = malloc(n + 1);
			for(int64_t i = 0; i < n; ++i) a[i] = 1 + (i * 89 + 3) % 255;
			char *x = exact(a, n, 0);
			for(int sh = 0; sh < 8; ++sh)
			{
				char *y = exact(a, n, sh);
				pair(x, n, y + sh, n);
				free(y);
			}
			int64_t step = n > 20000 ? 997 : n > 3000 ? 37 : 1;
			for(int64_t i = 0, k = 0; i < n; i = k < 6 ? (int64_t[]){ n - 1, n > 65536 ? n - 65536 : 0, n > 32768 ? n - 32768 : 0, n > 256 ? n - 256 : 0, n > 128 ? n - 128 : 0, n / 2 }[k] : k == 6 ? step : i + step, ++k)
			{
				char keep = a[i];
				a[i] = keep == 5 ? 6 : 5;
				char *y = exact(a, n, 3);
				pair(x, n, y + 3, n);
				pair(y + 3, n, x, n);
				a[i] = keep ^ (char)0x80;
				if(a[i])
				{
					char *z = exact(a, n, 1);
					pair(x, n, z + 1, n);
					free(z);
				}
				a[i] = keep;
				free(y);
				y = exact(a, i, 2);
				pair(x, n, y + 2, i);
				pair(y + 2, i, x, n);
				free(y);
				++sw_steps;
			}
			free(x);
			free(a);
		}
	}
	else if(!strcmp(family, "bytes"))
	{
		/* all pairs of two-byte strings' single differing bytes: 255 x 255 */
		for(int i = 1; i < 256; ++i)
		{
			if(!sw_selected()) continue;
			sw_case("strings with byte %d against all bytes", i);
			for(int j = 1; j < 256; ++j) for(int k = 0; k < 3; ++k)
			{
				char b1[4] = { 'p', 'p', 'p', 0 }, b2[4] = { 'p', 'p', 'p', 0 };
				b1[k] = i;
				b2[k] = j;
				char *x = exact(b1, 3, 0), *y = exact(b2, 3, 5);
				pair(x, 3, y + 5, 3);
				free(x);
				free(y);
			}
			++sw_steps;
		}
	}
	else if(!strcmp(family, "pointers"))
	{
		/* boundary values: all triples */
		static uintptr_t v[400];
		int n = 0;
		for(int b = 0; b < 64; ++b)
		{
			uintptr_t p = (uintptr_t)1 << b;
			for(int d = -1; d <= 1; ++d) if(p + d) v[n++] = p + d;
		}
		v[n++] = UINTPTR_MAX;
		v[n++] = UINTPTR_MAX - 1;
		v[n++] = 0x7fff12345678;
		v[n++] = 0x555555554010;
		v[n++] = 0x7fff12345679;
		v[n++] = 0xffff7fff12345679;
		for(int i = 0; i < n; ++i)
		{
			if(!sw_selected()) continue;
			sw_case("pointer value %lx against all pairs", (unsigned long)v[i]);
			const void *a = (const void *)v[i];
			for(int j = 0; j < n; ++j)
			{
				const void *b = (const void *)v[j];
				int32_t ab = direct_compare(a, b), ba = direct_compare(b, a);
				++n_eval;
				CHECK((ab == 0) == (v[i] == v[j]), "direct_compare is zero for different pointers or not for equal ones");
				CHECK(direct_equal(a, b) == (v[i] == v[j]), "direct_equal is wrong");
				CHECK((ab > 0) == (ba < 0) && (ab < 0) == (ba > 0), "direct_compare is not antisymmetric");
				if(v[i] == v[j]) CHECK(direct_hash(a) == direct_hash(b), "equal pointers have different hash values");
				for(int k = 0; k < n; ++k)
				{
					const void *c = (const void *)v[k];
					++n_eval;
					if(i != j && j != k && i != k) ++n_nontrivial;
					if(ab < 0 && direct_compare(b, c) < 0) CHECK(direct_compare(a, c) < 0, "direct_compare is not transitive");
				}
			}
			++sw_steps;
		}
	}
	else if(!strcmp(family, "ints"))
	{
		/* small integers hash to themselves: blocks of 2^20 of the 32 bit range */
		uint64_t blocks = 4096, stride = opt("stride", 1);
		for(uint64_t b = 0; b < blocks; b += 1)
		{
			if(stride > 1 && b > 4 && b < blocks - 2 && b % stride && b != 2047 && b != 2048) continue;
			if(!sw_selected()) continue;
			sw_case("integers %lu * 2^20 ...", (unsigned long)b);
			uint64_t bad = UINT64_MAX;
			for(uint64_t i = b << 20; i < (b + 1) << 20; ++i)
			{
				if(direct_hash((const void *)(uintptr_t)i) != (uint32_t)i) { bad = i; break; }
			}
			CHECK(bad == UINT64_MAX, "direct_hash(%lu) is %u", (unsigned long)bad, direct_hash((const void *)(uintptr_t)bad));
			n_eval += 1 << 20;
			n_nontrivial += 1 << 20;
			++sw_steps;
		}
	}
	else if(!strcmp(family, "hash"))
	{
		/* equal strings in differing surroundings and alignments, with other calls in between */
		static const char alpha[] = { 'a', 'Z', 1, 127, (char)128, (char)255, '0' };
		int na = 7, maxlen = opt("len", 4);
		int64_t total = 0, c = 1;
		for(int l = 0; l <= maxlen; ++l, c *= na) total += c;
		uint32_t prev = 0;
		const char *pv = "";
		char *last = NULL;
		for(int64_t i = 0; i < total; ++i)
		{
			if(!sw_selected()) continue;
			char b[32];
			size_t n = gen(alpha, na, i, b);
			sw_case("hash of string #%ld at 8 alignments", (long)i);
			static char place[32];
			uint32_t h0 = str_hash(b);
			memcpy(place, b, n + 1);
			CHECK(str_hash(place) == h0, "equal strings have different hash values");
			for(int sh = 0; sh < 8; ++sh)
			{
				char *x = exact(b, n, sh);
				CHECK(str_hash(x + sh) == h0, "equal strings have different hash values");
				++n_eval;
				n_nontrivial += n > 1;
				free(x);
			}
			if(last) CHECK(str_hash(last) == prev, "the hash value of a string depends on earlier calls");
			(void)pv;
			free(last);
			last = exact(b, n, 0);
			prev = h0;
			++sw_steps;
		}
	}
	sw_note("evaluations=%lu nontrivial=%lu", (unsigned long)n_eval, (unsigned long)n_nontrivial);
}

const Harness h_cmp = { "cmp", NULL, c_sweep };
