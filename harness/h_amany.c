/* Dynamic array with many elements: it grows several times, any one
 * allocation may fail. */
#include "vpalloc.h"
#include "vp.h"
#include "shl-array.h"
#include <string.h>

struct e { unsigned int v; char c[3]; };
static struct e q[2 * N + 1];
static size_t n;
static struct shl_array *a;

static struct e mk(unsigned int i)
{
	struct e e;

	memset(&e, 0, sizeof(e));
	e.v = i * 2654435761u;
	e.c[0] = i;
	e.c[2] = i >> 3;
	return e;
}

static void check(void)
{
	size_t i;

	vp_assert(shl_array_get_length(a) == n && shl_array_get_bsize(a) == n * sizeof(struct e), "the length is the number of elements");
	for (i = 0; i < n; ++i) {
		struct e *p = SHL_ARRAY_AT(a, struct e, i);

		vp_assert(p->v == q[i].v && p->c[0] == q[i].c[0] && p->c[1] == q[i].c[1] && p->c[2] == q[i].c[2],
			  "elements keep their values and new ones of a resize are zero");
	}
}

static void push(unsigned int i)
{
	struct e e = mk(i);
	unsigned int failed = vp_failed;
	int r = shl_array_push(a, &e);

	vp_assert(r == (vp_failed != failed ? -ENOMEM : 0), "a push fails only without memory");
	if (!r)
		q[n++] = e;
}

static void resize(size_t k)
{
	unsigned int failed = vp_failed;
	int r = shl_array_zresize(a, k);

	vp_assert(r == (vp_failed != failed ? -ENOMEM : 0), "a resize fails only without memory");
	if (r)
		return;
	for (; n < k; ++n)
		memset(&q[n], 0, sizeof(q[n]));
	n = k;
}

int main(void)
{
	unsigned int i, k;

	vp_fail_budget = 0;
	k = vp_pick(0, 4);
	vp_assert(!shl_array_new(&a, sizeof(struct e), k == 4 ? N : k), "creation succeeds");
	vp_fail_budget = FAILS;
	for (i = 0; i < N; ++i)
		push(i);
	check();
	k = vp_pick(0, N + 3);		/* any smaller or larger size */
	resize(k);
	check();
	push(7);
	check();
	resize(vp_concrete(vp_bool()) ? 2 * N : k + 3);
	check();
	shl_array_pop(a);
	--n;
	check();
	shl_array_free(a);
	vp_assert(vp_live == 0, "everything is freed");
	vp_done();
	return 0;
}
