/* U03: symbol table.  The real tsm-unicode.c and shl-array.h; the hash table
 * is the set model of stub_htable.c */
#include "vpalloc.h"
#undef malloc
#undef calloc
#undef realloc
#undef strdup
#undef free
#include "vp.h"
#include "libtsm.h"
#include "libtsm-int.h"

#ifndef K
#define K 4
#endif
#define ML (TSM_UCS4_MAXLEN + 2)

static uint32_t str[K + 1][ML];	/* expected string of each symbol */
static unsigned int slen[K + 1];
static tsm_symbol_t sym[K + 1];

static bool same(unsigned int a, unsigned int b)
{
	unsigned int i;
	bool r = slen[a] == slen[b];

	for (i = 0; i < ML; ++i)
		if (i < slen[a] && i < slen[b] && str[a][i] != str[b][i])
			r = false;
	return r;
}

static void check(struct tsm_symbol_table *t, unsigned int k)
{
	tsm_symbol_t s = sym[k];
	size_t n = 777;
	unsigned int i;
	const uint32_t *p = tsm_symbol_get(t, &s, &n);

	vp_assert(n == slen[k], "symbol decomposes to its full length");
	for (i = 0; i < ML; ++i)
		if (i < slen[k] && i < n)
			vp_assert(p[i] == str[k][i], "symbol decomposes to the characters it was built from");
	vp_assert(tsm_symbol_get_width(t, sym[k]) == tsm_ucs4_get_width(str[k][0]),
		  "width is that of the base character");
}

int main(void)
{
	struct tsm_symbol_table *t;
	unsigned int k, j, i;

	vp_fail_budget = 0;
	if (tsm_symbol_table_new(&t))
		return 0;
	vp_fail_budget = FAILS;
#if PART == 1
	static const unsigned int from_of[] = { 0, FROM };
	/* K appends, each to any earlier symbol or to a fresh base character */
	uint32_t base = vp_u32();

	sym[0] = tsm_symbol_make(base);
	if (base > TSM_UCS4_MAX) {
		vp_assert(sym[0] == 0, "a value that is no code point makes the default symbol");
		base = 0;
	}
	vp_assert(sym[0] == base, "a code point is its own symbol");
	str[0][0] = base;
	slen[0] = 1;
	for (k = 1; k <= K; ++k) {
		uint32_t mark = vp_u32();
		unsigned int from = from_of[k];
		unsigned int failed = vp_failed;

#ifdef VALID
		vp_assume(mark <= TSM_UCS4_MAX);
#endif
		sym[k] = tsm_symbol_append(t, sym[from], mark);
		for (i = 0; i < ML; ++i)
			str[k][i] = str[from][i];
		slen[k] = slen[from];
		if (mark > TSM_UCS4_MAX || vp_failed != failed)
			vp_assert(sym[k] == sym[from], "failed append returns the symbol unchanged");
		else {
			vp_assert(sym[k] > TSM_UCS4_MAX, "combined symbols are no code points");
			str[k][slen[k]++] = mark;
		}
		for (j = 0; j <= k; ++j)
			check(t, j);
		for (j = 0; j < k; ++j)
			vp_assert((sym[j] == sym[k]) == same(j, k),
				  "equal strings share one symbol, different strings never do");
	}
#elif PART == 2
	/* one chain: grows to the maximum combined length and stops there */
	sym[0] = vp_u32();
	vp_assume(sym[0] <= TSM_UCS4_MAX);
	str[0][0] = sym[0];
	slen[0] = 1;
	for (k = 1; k <= K; ++k) {
		uint32_t mark = 0x300 + k;

		sym[k] = tsm_symbol_append(t, sym[k - 1], mark);
		for (i = 0; i < ML; ++i)
			str[k][i] = str[k - 1][i];
		slen[k] = slen[k - 1];
		if (slen[k] >= TSM_UCS4_MAXLEN)
			vp_assert(sym[k] == sym[k - 1], "a symbol of maximum length stays as it is");
		else {
			vp_assert(sym[k] != sym[k - 1], "appending makes a new symbol");
			str[k][slen[k]++] = mark;
		}
	}
	for (k = 0; k <= K; ++k)
		check(t, k);
#elif PART == 4
	/* many symbols: the tables grow several times; any few allocations fail.
	 * Symbol k extends an earlier one (FROM_OF) by a mark; then the same
	 * strings are built once more */
	for (k = 0; k < K; ++k) {
		unsigned int from = k % 3 == 2 ? k - 1 : k % 5 == 4 ? k / 2 : ~0U;
		uint32_t mark = 0x300 + k * 7 % 41;
		unsigned int failed = vp_failed;
		tsm_symbol_t f;

		slen[k] = 0;
		if (from == ~0U) {
			f = str[k][slen[k]++] = 'a' + k % 7;
		} else {
			for (i = 0; i < slen[from]; ++i)
				str[k][i] = str[from][i];
			slen[k] = slen[from];
			f = sym[from];
		}
		sym[k] = tsm_symbol_append(t, f, mark);
		if (vp_failed != failed) {
#if FAILS
			vp_reach("an append fails for lack of memory");
#endif
			vp_assert(sym[k] == f, "failed append returns the symbol unchanged");
		} else if (slen[k] >= TSM_UCS4_MAXLEN) {
			vp_assert(sym[k] == f, "a symbol of maximum length stays as it is");
		} else {
			str[k][slen[k]++] = mark;
			vp_assert(sym[k] > TSM_UCS4_MAX, "combined symbols are no code points");
		}
	}
	vp_fail_budget = 0;
	for (k = 0; k < K; ++k) {
		check(t, k);
		for (j = 0; j < k; ++j)
			vp_assert((sym[j] == sym[k]) == same(j, k),
				  "equal strings share one symbol, different strings never do");
	}
	for (k = 0; k < K; ++k) {
		tsm_symbol_t f = str[k][0];

		for (i = 1; i < slen[k]; ++i)
			f = tsm_symbol_append(t, f, str[k][i]);
		vp_assert(f == sym[k], "building a string again gives the symbol it had");
	}
	/* one more, from any of them, with any of a few marks */
	k = vp_pick(0, K - 1);
	i = 0x300 + vp_pick(0, 42);
	if (slen[k] < TSM_UCS4_MAXLEN - 1) {
		for (j = 0; j < slen[k]; ++j)
			str[K][j] = str[k][j];
		slen[K] = slen[k];
		str[K][slen[K]++] = i;
		sym[K] = tsm_symbol_append(t, sym[k], i);
		check(t, K);
		for (j = 0; j < K; ++j)
			vp_assert((sym[j] == sym[K]) == same(j, K),
				  "a new string gets a new symbol, a known one its own");
	}
#else
	/* unknown symbols decompose to the default character */
	tsm_symbol_t s = vp_u32();
	size_t n = 777;
	const uint32_t *p = tsm_symbol_get(t, &s, &n);

	vp_assert(n == 1, "one character");
	if (s <= TSM_UCS4_MAX)
		vp_assert(*p == s, "a code point decomposes to itself");
	else
		vp_assert(*p == tsm_symbol_default, "an unknown symbol decomposes to the default");
	vp_assert(*tsm_symbol_get(t, &s, NULL) == *p, "the size may be left out");
	/* no table: the same, as nothing is known */
	n = 777;
	p = tsm_symbol_get(NULL, &s, &n);
	vp_assert(n == 1 && *p == (s <= TSM_UCS4_MAX ? s : tsm_symbol_default), "without a table only code points are known");
	vp_assert(*tsm_symbol_get(NULL, &s, NULL) == *p, "the size may be left out");
	vp_assert(tsm_symbol_append(NULL, s, vp_u32()) == s, "nothing to append with without a table");
	vp_assert(tsm_symbol_get_width(NULL, s) == 0, "no table, no width");
	vp_assert(tsm_symbol_table_new(NULL) == -EINVAL, "nowhere to put the table");
	tsm_symbol_table_ref(NULL);
	tsm_symbol_table_unref(NULL);
	(void)k; (void)j; (void)i;
#endif
	vp_fail_budget = 0;
	tsm_symbol_table_ref(t);
	tsm_symbol_table_unref(t);
	vp_assert(vp_live > 0, "table lives while referenced");
	tsm_symbol_table_unref(t);
	vp_assert(vp_live == 0, "everything freed with the last reference");
	vp_done();
	return 0;
}
