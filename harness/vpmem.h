/* Typed models of memcpy/memmove, forced in with -include under CBMC only.
 * CBMC's built-in models go through byte arrays, which is far slower for
 * arrays of structs and pointers.  Each model is an element loop over the
 * caller's element type, so every element access keeps its pointer and bounds
 * checks.  Any other element type falls through to a byte loop. */
#ifndef VPMEM_H
#define VPMEM_H
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>

struct cell;
struct line;
struct tsm_screen_attr;
void vpm_cells(void *d, const void *s, size_t n);
void vpm_lines(void *d, const void *s, size_t n);
void vpm_attr(void *d, const void *s, size_t n);
void vpm_u32(void *d, const void *s, size_t n);
void vpm_bytes(void *d, const void *s, size_t n);

static inline void vpm_plain(void *d, const void *s, size_t n) { memcpy(d, s, n); }

#undef memmove
#undef memcpy
#define VPM_COPY(d, s, n) \
	_Generic((d), struct cell *: vpm_cells, struct line **: vpm_lines, \
		 struct tsm_screen_attr *: vpm_attr, uint32_t *: vpm_u32, \
		 char *: vpm_bytes, unsigned char *: vpm_bytes, void *: vpm_bytes, \
		 default: vpm_plain)((void *)(d), (const void *)(s), (n))
void vpm_overlap(const void *d, const void *s, size_t n);
#define memmove(d, s, n) VPM_COPY(d, s, n)
#define memcpy(d, s, n) (vpm_overlap(d, s, n), VPM_COPY(d, s, n))
#endif
