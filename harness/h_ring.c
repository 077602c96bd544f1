/* Ring buffer: any ring (size, start, fill, contents), any few operations,
 * against a byte queue. */
#include "vpalloc.h"
#undef malloc
#undef calloc
#undef realloc
#undef strdup
#undef free
#include "vp.h"
#include "shl-ring.h"

#ifndef SIZE
#define SIZE 8
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef PUSHMAX
#define PUSHMAX 4
#endif
#define QMAX (SIZE + STEPS * PUSHMAX)

static struct shl_ring r;
static uint8_t q[QMAX + 1];
static size_t qn, ask;

static void check(void)
{
	struct iovec vec[2] = { { NULL, 77 }, { NULL, 77 } };
	uint8_t out[QMAX + 2];
	size_t n, i, k;

	vp_assert(shl_ring_get_size(&r) == qn, "the size is the number of bytes queued");
	n = shl_ring_peek(&r, vec);
	vp_assert(n == shl_ring_peek(&r, NULL), "peek counts the same without vectors");
	vp_assert(n <= 2, "at most two vectors");
	if (n < 2)
		vp_assert(vec[1].iov_len == 77 && (n == 1 || vec[0].iov_len == 77), "unused vectors are left alone");
	for (i = k = 0; i < n; ++i) {
		size_t j;

		vp_assert(vec[i].iov_len > 0 && vec[i].iov_len <= qn - k, "vectors hold the queued bytes");
		for (j = 0; j < vec[i].iov_len && k < qn; ++j, ++k)
			vp_assert(((uint8_t *)vec[i].iov_base)[j] == q[k], "peek shows the queued bytes in order");
	}
	vp_assert(k == qn, "peek shows all of them");
	for (i = 0; i < sizeof(out); ++i)
		out[i] = 0xa5;
	n = shl_ring_copy(&r, out, ask);
	vp_assert(n == (ask < qn ? ask : qn), "copy returns what there is, up to what was asked for");
	for (i = 0; i < sizeof(out); ++i)
		vp_assert(out[i] == (i < n ? q[i] : 0xa5), "copy writes the first bytes and nothing else");
}

int main(void)
{
	unsigned int s, i;
	size_t k;
	int ret;

#if SIZE
	r.buf = malloc(SIZE);
	++vp_live;
	r.size = SIZE;
	r.start = vp_pick(0, SIZE - 1);
	r.used = vp_pick(0, SIZE);
	qn = r.used;
	for (i = 0; i < SIZE; ++i)
		r.buf[i] = vp_u8();
	for (i = 0; i < qn; ++i)
		q[i] = r.buf[(r.start + i) % SIZE];
#endif
	ask = vp_pick(0, SIZE + 2);
	if (ask == SIZE + 2)
		ask = (size_t)-1;
	vp_fail_budget = FAILS;
	for (s = 0; s < STEPS; ++s) {
		switch (vp_pick(0, 3)) {
		case 0: {
			uint8_t data[PUSHMAX];
			unsigned int failed = vp_failed;

			k = vp_pick(0, PUSHMAX);
			for (i = 0; i < k; ++i)
				data[i] = vp_u8();
			ret = shl_ring_push(&r, data, k);
			if (vp_failed != failed) {
				vp_assert(ret == -ENOMEM, "a push without memory fails");
				break;
			}
			vp_assert(ret == 0, "a push succeeds");
			for (i = 0; i < k; ++i)
				q[qn++] = data[i];
			break;
		}
		case 1:
			k = vp_pick(0, qn + 1);
			if (k > qn) {
				k = vp_u64();
				vp_assume(k > qn);
				shl_ring_pull(&r, k);
				k = qn;
			} else {
				shl_ring_pull(&r, k);
			}
			for (i = 0; i + k < qn; ++i)
				q[i] = q[i + k];
			qn -= k;
			break;
		case 2:
			shl_ring_flush(&r);
			qn = 0;
			break;
		case 3:
			/* more than can ever be stored */
			k = vp_u64();
			vp_assume(k > ((size_t)1 << 63));
			ret = shl_ring_push(&r, q, k);
			vp_assert(ret == -ENOMEM, "a push of more than fits the address space fails");
			break;
		}
		check();
	}
	shl_ring_clear(&r);
	qn = 0;
	vp_fail_budget = 0;
	check();
	vp_assert(vp_live == 0, "clear frees the buffer");
	ret = shl_ring_push(&r, "x", 1);
	vp_assert(ret == 0, "a cleared ring can be used again");
	q[qn++] = 'x';
	check();
	shl_ring_clear(&r);
	vp_done();
	return 0;
}
