/* Hash table: any few insertions and removals of elements with any addresses,
 * keys and hash values, against a multiset. */
#include "vpalloc.h"
#undef malloc
#undef calloc
#undef realloc
#undef strdup
#undef free
#include "vp.h"
#include "shl-htable.h"

#ifndef NE
#define NE 3
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef PTRMASK
#define PTRMASK 0xffff8
#endif
#ifndef HASHMASK
#define HASHMASK 0xffffffffffffffff
#endif
#ifndef NK
#define NK 2
#endif

#ifdef SCRIPT
static const size_t hbase[] = { HBASE }, hmask[] = { HMASK };
#endif
static uintptr_t ptr[NE];
static size_t hash[NK];
static unsigned int key[NE], cnt[NE], seen[NE];
static struct shl_htable ht;
static int token;

static unsigned int idx(const void *p)
{
	unsigned int i;

	for (i = 0; i < NE; ++i)
		if ((uintptr_t)p == ptr[i])
			return i;
	vp_assert(false, "the table only knows elements that were inserted");
	return 0;
}

static bool compare(const void *a, const void *b)
{
	return *(const unsigned int *)a == key[idx(b)];
}

static size_t rehash(const void *e, void *priv)
{
	vp_assert(priv == &token, "the callback gets its data");
	return hash[key[idx(e)]];
}

static void visit(void *e, void *ctx)
{
	vp_assert(ctx == &token, "the callback gets its data");
	++seen[idx(e)];
}

static void check(void)
{
	unsigned int i, k, n;

	for (k = 0; k < NK; ++k) {
		void *out = NULL;
		bool r = shl_htable_lookup(&ht, &k, hash[k], &out);

		for (i = n = 0; i < NE; ++i)
			n += key[i] == k ? cnt[i] : 0;
		vp_assert(r == (n > 0), "a key is found when an element has it");
		vp_assert(shl_htable_lookup(&ht, &k, hash[k], NULL) == r, "with or without a place for the result");
		if (r) {
			i = idx(out);
			vp_assert(key[i] == k && cnt[i], "the element found is one of those");
		} else {
			vp_assert(!out, "nothing is returned when nothing is found");
		}
	}
}

static void check_visit(unsigned int mul)
{
	unsigned int i;

	for (i = 0; i < NE; ++i)
		vp_assert(seen[i] == cnt[i] * mul, "every element is visited once for each insertion");
}

int main(void)
{
	unsigned int i, j, s, k, failed;
	int ret;

	for (i = 0; i < NE; ++i) {
#ifdef FIXED
		static const uintptr_t fixed[] = { FIXED };

		ptr[i] = fixed[i];
		(void)j;
#else
		ptr[i] = 0x550000000000 | (vp_u64() & PTRMASK);
		for (j = 0; j < i; ++j)
			vp_assume(ptr[i] != ptr[j]);
#endif
#ifdef SCRIPT
		key[i] = i;
#else
		key[i] = vp_pick(0, i < NK ? i : NK - 1);
#endif
	}
	for (i = 0; i < NK; ++i)
#ifdef SCRIPT
		hash[i] = hmask[i] ? hbase[i] ^ (vp_u64() & hmask[i]) : hbase[i];
#else
		hash[i] = vp_u64() & HASHMASK;
#endif
	vp_fail_budget = FAILS;
#ifdef INIT
	struct shl_htable tmpl = SHL_HTABLE_INIT(ht, compare, rehash, &token);
	ht = tmpl;
#else
	shl_htable_init(&ht, compare, rehash, &token);
#endif
	check();
#ifdef SCRIPT
	/* fill the table, remove any few in ascending order, insert the others */
	(void)failed;
	(void)k;
	for (i = 0; i < SCRIPT; ++i) {
		vp_assert(!shl_htable_insert(&ht, (void *)ptr[i], hash[i]), "an insertion fails only without memory");
		cnt[i] = 1;
	}
	check();
	for (s = j = 0; s < OPS; ++s) {
		void *out = NULL;

		i = vp_pick(j, SCRIPT - OPS + s);
		j = i + 1;
		vp_assert(shl_htable_remove(&ht, &i, hash[i], &out) && out == (void *)ptr[i], "a key is removed when an element has it");
		cnt[i] = 0;
	}
	check();
	for (i = SCRIPT; i < NE; ++i) {
		vp_assert(!shl_htable_insert(&ht, (void *)ptr[i], hash[i]), "an insertion fails only without memory");
		cnt[i] = 1;
		check();
	}
	for (s = OPS; s < OPS; ++s) {
#else
	for (s = 0; s < OPS; ++s) {
#endif
		failed = vp_failed;
		k = vp_pick(0, NE + NK - 1);
		if (k < NE) {
			ret = shl_htable_insert(&ht, (void *)ptr[k], hash[key[k]]);
			vp_assert(ret == (vp_failed != failed ? -ENOMEM : 0), "an insertion fails only without memory");
			if (!ret)
				++cnt[k];
		} else {
			void *out = NULL;
			unsigned int n;
			bool r;

			k -= NE;
			r = shl_htable_remove(&ht, &k, hash[k], &out);
			for (i = n = 0; i < NE; ++i)
				n += key[i] == k ? cnt[i] : 0;
			vp_assert(r == (n > 0), "a key is removed when an element has it");
			if (r) {
				i = idx(out);
				vp_assert(key[i] == k && cnt[i], "the element removed is one of those");
				--cnt[i];
			}
		}
		check();
	}
	shl_htable_visit(&ht, NULL, &token);
	shl_htable_visit(&ht, visit, &token);
	check_visit(1);
	shl_htable_clear(&ht, visit, &token);
	check_visit(2);
	vp_assert(vp_live == 0, "clear frees the table");
	for (i = 0; i < NE; ++i)
		cnt[i] = 0;
	check();
	vp_fail_budget = 0;
	ret = shl_htable_insert(&ht, (void *)ptr[0], hash[key[0]]);
	vp_assert(ret == 0, "a cleared table can be used again");
	cnt[0] = 1;
	check();
	shl_htable_clear(&ht, NULL, NULL);
	vp_assert(vp_live == 0, "clear frees the table");
	vp_done();
	return 0;
}
