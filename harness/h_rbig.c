/* Ring buffer of the size it has in use: large pushes, pulls and growth at
 * and around the ends of the buffer. */
#include "vpalloc.h"
#undef malloc
#undef calloc
#undef realloc
#undef strdup
#undef free
#include "vp.h"
#include "shl-ring.h"
#include <string.h>

#define QMAX 40000
static struct shl_ring r;
static uint8_t q[QMAX], data[20000], out[QMAX];
static size_t qn;
static unsigned int ctr;

static const unsigned int at[] = { 0, 99, 4094 };
static const unsigned int fill[] = { 0, 96, 97, 3996, 4096 };
static const unsigned int len[] = { 1, 97, 255, 4000, 4096, 4097, 12289 };
#define PICK(a) (a)[vp_pick(0, sizeof(a) / sizeof((a)[0]) - 1)]

static uint8_t next(void)
{
	++ctr;
	return ctr * 7 + ctr / 251;
}

static void check(void)
{
	struct iovec vec[2];
	size_t n, i, k, bad;

	vp_assert(shl_ring_get_size(&r) == qn, "the size is the number of bytes queued");
	n = shl_ring_peek(&r, vec);
	vp_assert(n <= 2, "at most two vectors");
	for (i = k = 0; i < n; ++i) {
		vp_assert(vec[i].iov_len > 0 && vec[i].iov_len <= qn - k, "vectors hold the queued bytes");
		bad = memcmp(vec[i].iov_base, q + k, vec[i].iov_len);
		vp_assert(!bad, "peek shows the queued bytes in order");
		k += vec[i].iov_len;
	}
	vp_assert(k == qn, "peek shows all of them");
	n = shl_ring_copy(&r, out, qn / 2 + 1);
	vp_assert(n == (qn / 2 + 1 < qn ? qn / 2 + 1 : qn), "copy returns what there is, up to what was asked for");
	bad = memcmp(out, q, n);
	vp_assert(!bad, "copy writes the first bytes");
}

static void push(size_t k)
{
	unsigned int failed = vp_failed;
	size_t i;
	int ret;

	for (i = 0; i < k; ++i)
		data[i] = next();
	ret = shl_ring_push(&r, data, k);
	if (vp_failed != failed) {
		vp_assert(ret == -ENOMEM, "a push without memory fails");
		return;
	}
	vp_assert(ret == 0, "a push succeeds");
	memcpy(q + qn, data, k);
	qn += k;
}

static void pull(size_t k)
{
	shl_ring_pull(&r, k);
	if (k > qn)
		k = qn;
	qn -= k;
	memmove(q, q + k, qn);
}

int main(void)
{
	size_t i, n;

	/* start and fill any ring of the first size there is */
	n = PICK(at);
	push(1);
	pull(1);
	push(n);
	pull(n);
	check();
	push(PICK(fill));
	check();
	vp_fail_budget = FAILS;
	push(PICK(len));
	check();
	i = vp_pick(0, 3);
	pull(i == 0 ? 1 : i == 1 ? 97 : i == 2 ? qn / 2 : qn + 1);
	check();
	push(300);
	check();
	vp_fail_budget = 0;
	push(4097);
	check();
	pull(qn - 1);
	check();
	push(5);
	check();
	shl_ring_clear(&r);
	vp_assert(vp_live == 0, "clear frees the buffer");
	vp_done();
	return 0;
}
