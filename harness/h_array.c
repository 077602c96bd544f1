/* Dynamic array: any few operations against a plain sequence. */
#include "vpalloc.h"
#include "vp.h"
#include "shl-array.h"

#ifndef STEPS
#define STEPS 5
#endif
#define MAX (STEPS * 4 + 4)

int main(void)
{
	struct shl_array *a = NULL;
	uint8_t q[MAX][ES], e[ES];
	size_t n = 0, i, j, k;
	unsigned int s, failed;
	int ret;

	vp_fail_budget = 0;
	vp_assert(shl_array_new(NULL, ES, 1) == -EINVAL, "no place for the array");
	vp_assert(shl_array_new(&a, 0, 1) == -EINVAL, "elements without size");
	vp_fail_budget = FAILS;
	failed = vp_failed;
	k = vp_pick(0, 3);
	ret = shl_array_new(&a, ES, k);
	if (vp_failed != failed) {
		vp_assert(ret == -ENOMEM && vp_live == 0, "a failed creation leaves nothing behind");
		vp_fail_budget = 0;
		ret = shl_array_new(&a, ES, k);
	}
	vp_assert(ret == 0, "creation succeeds");
	vp_assert(shl_array_get_element_size(a) == ES, "element size");
	for (s = 0; s < STEPS; ++s) {
		failed = vp_failed;
		switch (vp_pick(0, 3)) {
		case 0:
			for (i = 0; i < ES; ++i)
				e[i] = vp_u8();
			ret = shl_array_push(a, e);
			if (vp_failed != failed) {
				vp_assert(ret == -ENOMEM, "a push without memory fails");
				break;
			}
			vp_assert(ret == 0, "a push succeeds");
			for (i = 0; i < ES; ++i)
				q[n][i] = e[i];
			++n;
			break;
		case 1:
			shl_array_pop(a);
			if (n)
				--n;
			break;
		case 2:
			k = vp_pick(0, 9);
			if (k > MAX)
				break;
			ret = shl_array_zresize(a, k);
			if (vp_failed != failed) {
				vp_assert(ret == -ENOMEM, "a resize without memory fails");
				break;
			}
			vp_assert(ret == 0, "a resize succeeds");
			for (; n < k; ++n)
				for (i = 0; i < ES; ++i)
					q[n][i] = 0;
			n = k;
			break;
		case 3:
			vp_assert(shl_array_push(a, NULL) == -EINVAL, "nothing to push");
			break;
		}
		vp_assert(shl_array_get_length(a) == n, "the length is the number of elements");
		vp_assert(shl_array_get_bsize(a) == n * ES, "the size in bytes");
		for (i = 0; i < n; ++i)
			for (j = 0; j < ES; ++j)
				vp_assert(((uint8_t *)shl_array_get_array(a))[i * ES + j] == q[i][j],
					  "elements keep their values and new ones of a resize are zero");
		if (n && ES == 1)
			vp_assert(SHL_ARRAY_AT(a, uint8_t, n - 1) == (uint8_t *)shl_array_get_array(a) + (n - 1),
				  "element access");
	}
	vp_assert(shl_array_push(NULL, e) == -EINVAL && shl_array_zresize(NULL, 1) == -EINVAL &&
		  !shl_array_get_array(NULL) && !shl_array_get_length(NULL) && !shl_array_get_bsize(NULL) &&
		  !shl_array_get_element_size(NULL), "no array");
	shl_array_pop(NULL);
	shl_array_free(NULL);
	shl_array_free(a);
	vp_assert(vp_live == 0, "everything is freed");
	vp_done();
	return 0;
}
