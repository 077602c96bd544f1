/* see vpmem.h */
#undef memmove
#undef memcpy
#include "vp.h"
#include "libtsm.h"
#include "libtsm-int.h"

#ifndef VPM_MAX
#define VPM_MAX 8
#endif
#ifndef VPM_BYTES
#define VPM_BYTES 64
#endif

#define TYPED(name, type, max)							\
void name(void *vd, const void *vs, size_t n)					\
{										\
	type *d = vd;								\
	const type *s = vs;							\
	type tmp[max];								\
	size_t i, c = n / sizeof(type);						\
	vp_bound(n % sizeof(type) == 0, "copy of whole elements");		\
	if (c == 1) {								\
		*d = *s;							\
		return;								\
	}									\
	__CPROVER_assert(c <= max || !__CPROVER_r_ok(vs, n) || !__CPROVER_w_ok(vd, n), \
			 "VPBOUND copy within the modelled capacity");		\
	/* an absurd length is the bug itself: touch the last element */	\
	if (c > max) {								\
		tmp[0] = s[c - 1];						\
		d[c - 1] = tmp[0];						\
		__CPROVER_assume(0);						\
	}									\
	for (i = 0; i < c; ++i)							\
		tmp[i] = s[i];							\
	for (i = 0; i < c; ++i)							\
		d[i] = tmp[i];							\
}

TYPED(vpm_cells, struct cell, VPM_MAX)
typedef struct line *linep;
TYPED(vpm_lines, linep, VPM_MAX)
TYPED(vpm_u32, uint32_t, 16)
TYPED(vpm_rawbytes, unsigned char, VPM_BYTES)

void vpm_bytes(void *d, const void *s, size_t n)
{
	/* one pointer-sized element: keep pointers whole */
	if (n == sizeof(void *))
		*(void **)d = *(void *const *)s;
	else
		vpm_rawbytes(d, s, n);
}


void vpm_attr(void *d, const void *s, size_t n)
{
	vp_bound(n == sizeof(struct tsm_screen_attr), "copy of one attribute");
	*(struct tsm_screen_attr *)d = *(const struct tsm_screen_attr *)s;
}

void vpm_overlap(const void *d, const void *s, size_t n)
{
	if (__CPROVER_same_object(d, s)) {
		size_t a = __CPROVER_POINTER_OFFSET(d), b = __CPROVER_POINTER_OFFSET(s);

		vp_assert(a >= b ? a - b >= n : b - a >= n, "memcpy of overlapping ranges");
	}
}
