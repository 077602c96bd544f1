#define VPALLOC_IMPL
#include "vpalloc.h"
#include "vp.h"

unsigned int vp_fail_budget;
unsigned int vp_failed;
int vp_live;

int vp_alloc_fails(void)
{
	if (!vp_fail_budget)
		return 0;
	if (!vp_concrete(vp_bool()))
		return 0;
	--vp_fail_budget;
	++vp_failed;
	return 1;
}

char *vp_strndup(const char *s, size_t max)
{
	char *r;
	size_t n = 0;

	if (vp_alloc_fails())
		return NULL;
	while (n < max && s[n])
		++n;
	++vp_live;
	r = malloc(n + 1);
	for (size_t i = 0; i < n; ++i)
		r[i] = s[i];
	r[n] = 0;
	return r;
}

char *vp_strdup(const char *s)
{
	return vp_strndup(s, (size_t)-1);
}
