/* native side of vp.h: feed the solver's values to the real code */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>

static FILE *f;

uint64_t vp_pop(void)
{
	unsigned long long v;
	if (!f) {
		const char *p = getenv("VP_REPLAY");
		f = p ? fopen(p, "r") : NULL;
		if (!f) { fprintf(stderr, "VPREPLAY no value file\n"); exit(80); }
	}
	if (fscanf(f, "%llu", &v) != 1) {
		fprintf(stderr, "VPREPLAY value file exhausted\n");
		exit(79);
	}
	return v;
}

void vp_fail(const char *msg, const char *file, int line)
{
	fprintf(stderr, "VPREPLAY property violated: %s (%s:%d)\n", msg, file, line);
	exit(77);
}

void vp_assume_failed(const char *file, int line)
{
	fprintf(stderr, "VPREPLAY assumption not met (%s:%d)\n", file, line);
	exit(78);
}

void vp_bound_failed(const char *msg)
{
	fprintf(stderr, "VPREPLAY harness bound exceeded: %s\n", msg);
	exit(76);
}

void vp_done(void)
{
	fprintf(stderr, "VPREPLAY end of harness reached\n");
	exit(0);
}
