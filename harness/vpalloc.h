/* Forced into the code under test (-include) when allocation failure or leaks
 * are in scope: every allocation may fail, as chosen by a symbolic (and
 * replayable) bit.  vp_live counts blocks allocated and not yet freed.
 * Macros rather than functions, so that CBMC still sees the sizeof expression
 * at each malloc and gives the block its real element type. */
#ifndef VPALLOC_H
#define VPALLOC_H
#include <stdlib.h>
#include <string.h>
extern unsigned int vp_fail_budget;	/* how many allocations may still fail */
extern unsigned int vp_failed;		/* how many did */
extern int vp_live;
extern int vp_alloc_fails(void);
extern char *vp_strdup(const char *s);
extern char *vp_strndup(const char *s, size_t n);
#ifndef VPALLOC_IMPL
#define malloc(n) (vp_alloc_fails() ? NULL : (++vp_live, malloc(n)))
#define calloc(a, b) (vp_alloc_fails() ? NULL : (++vp_live, calloc(a, b)))
#define realloc(p, n) (vp_alloc_fails() ? NULL : (vp_live += !(p), realloc(p, n)))
#undef strdup
#undef strndup
#define strdup(s) vp_strdup(s)
#define strndup(s, n) vp_strndup(s, n)
#define reallocarray(p, a, b) (vp_alloc_fails() ? NULL : (vp_live += !(p), reallocarray(p, a, b)))
#define free(p) ({ void *vp__p = (p); if (vp__p) --vp_live; free(vp__p); })
#endif
#endif
