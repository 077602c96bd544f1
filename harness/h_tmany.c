/* Hash table with many elements: it grows several times, any one allocation
 * may fail, any one element is removed or inserted again in the end. */
#include "vpalloc.h"
#undef malloc
#undef calloc
#undef realloc
#undef strdup
#undef free
#include "vp.h"
#include "shl-htable.h"

static uintptr_t ptr[NE];
static size_t hash[NE];
static unsigned int cnt[NE], seen[NE];
static struct shl_htable ht;
static int token;

/* elements differ in more and more address bits */
static uintptr_t addr(unsigned int i)
{
	uintptr_t p = 0x550000001000 + 16 * (uintptr_t)i;

	if (i % 16 == 15)
		p ^= (uintptr_t)1 << (20 + i / 16);
	return p + (i > NE / 2 && i % 8 == 7);
}

static size_t hashof(unsigned int i)
{
	switch (i % 4) {
	case 0: return i;			/* neighbours */
	case 1: return 0x1000 * (size_t)i + 3;	/* one bucket */
	case 2: return (size_t)i * 0x9e3779b97f4a7c15;
	default: return 5;			/* equal hash values */
	}
}

static unsigned int idx(const void *p)
{
	unsigned int i;

	for (i = 0; i < NE; ++i)
		if ((uintptr_t)p == ptr[i])
			return i;
	vp_assert(false, "the table only knows elements that were inserted");
	return 0;
}

/* keys are the element numbers; ptr[] is in ascending order but for a few */
static bool compare(const void *a, const void *b)
{
	return ptr[*(const unsigned int *)a] == (uintptr_t)b;
}

static size_t rehash(const void *e, void *priv)
{
	vp_assert(priv == &token, "the callback gets its data");
	return hash[idx(e)];
}

static void visit(void *e, void *ctx)
{
	++seen[idx(e)];
}

static void look(unsigned int k)
{
	void *out = NULL;
	bool r = shl_htable_lookup(&ht, &k, hash[k], &out);

	vp_assert(r == (cnt[k] > 0), "a key is found when an element has it");
	vp_assert(out == (r ? (void *)ptr[k] : NULL), "the element found is that one");
}

static void check(void)
{
	unsigned int k;

	for (k = 0; k < NE; ++k)
		look(k);
	for (k = 0; k < NE; ++k)
		seen[k] = 0;
	shl_htable_visit(&ht, visit, NULL);
	for (k = 0; k < NE; ++k)
		vp_assert(seen[k] == cnt[k], "every element is visited once for each insertion");
}

static void insert(unsigned int i)
{
	unsigned int failed = vp_failed;
	int r = shl_htable_insert(&ht, (void *)ptr[i], hash[i]);

	vp_assert(r == (vp_failed != failed ? -ENOMEM : 0), "an insertion fails only without memory");
	if (!r)
		++cnt[i];
}

static void del(unsigned int i)
{
	void *out = NULL;
	bool r = shl_htable_remove(&ht, &i, hash[i], &out);

	vp_assert(r == (cnt[i] > 0), "a key is removed when an element has it");
	if (r) {
		vp_assert(out == (void *)ptr[i], "the element removed is that one");
		--cnt[i];
	}
}

int main(void)
{
	unsigned int i, k;

	for (i = 0; i < NE; ++i) {
		ptr[i] = addr(i);
		hash[i] = hashof(i);
	}
	vp_fail_budget = FAILS;
	shl_htable_init(&ht, compare, rehash, &token);
#ifdef CHURN
	/* few elements at a time, but many have come and gone */
	for (k = 0; k < 3 * NE; ++k) {
		i = k % NE;
		insert(i);
		i = (k + NE - CHURN) % NE;
		if (cnt[i])
			del(i);
		for (i = 0; i < CHURN + 2; ++i)
			look((k + NE - i) % NE);
	}
	check();
#endif
	for (i = 0; i < NE; ++i)
		insert(i);
	check();
	for (i = 0; i < NE; i += 3)
		del(i);
	for (i = 0; i < NE; i += 2)
		del(i);
	check();
	for (i = 0; i < NE; i += 4) {
		insert(i);
		insert(i);
	}
	check();
	k = vp_pick(0, NE - 1);
	if (vp_bool())
		insert(k);
	else
		del(k);
	for (i = 0; i < NE; i += 5)
		look(i);
	look(k);
#if FAILS
	if (vp_failed)
		vp_reach("an insertion fails for lack of memory");
#endif
	for (i = 0; i < NE; ++i)
		seen[i] = 0;
	shl_htable_clear(&ht, visit, NULL);
	for (i = 0; i < NE; ++i)
		vp_assert(seen[i] == cnt[i], "every element is visited once for each insertion");
	vp_assert(vp_live == 0, "clear frees the table");
	vp_done();
	return 0;
}
