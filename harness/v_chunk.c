/* The same bytes in different portions: one emulator gets them in one call, the
 * other split at every possible place (or byte by byte). */
#include "v_ref.h"

#ifndef LEN
#define LEN 0
#define REP ""
#endif

static struct tsm_vte *vteB;
static struct log outB, oscB;

static void wrB(struct tsm_vte *v, const char *s, size_t n, void *d) { log_put(&outB, s, n); }
static void oB(struct tsm_vte *v, const char *s, size_t n, void *d) { osc_put(&oscB, s, n); }
static void oA(struct tsm_vte *v, const char *s, size_t n, void *d) { osc_put(&oscA, s, n); }

int main(void)
{
	static const char pre[] = PRE, post[] = POST;
	static char b[sizeof(pre) + sizeof(post) + N + LEN];
	unsigned int i, n = 0, cut;

	scrA = mk_small();
	scrB = mk_small();
	if (tsm_vte_new(&vte, scrA, wr_cb, &outA, NULL, NULL) || tsm_vte_new(&vteB, scrB, wrB, NULL, NULL, NULL))
		abort();
	tsm_vte_set_osc_cb(vte, oA, NULL);
	tsm_vte_set_osc_cb(vteB, oB, NULL);
	for (i = 0; i + 1 < sizeof(pre); ++i)
		b[n++] = pre[i];
	for (i = 0; i < LEN; ++i)
		b[n++] = REP[i % (sizeof(REP) - 1)];
	for (i = 0; i < N; ++i)
		b[n++] = vp_u8();
	for (i = 0; i + 1 < sizeof(post); ++i)
		b[n++] = post[i];
	tsm_vte_input(vte, b, n);
#ifdef SINGLE
	for (i = 0; i < n; ++i) {
		char one[1] = { b[i] };

		tsm_vte_input(vteB, one, 1);
		tsm_vte_input(vteB, one, 0);
	}
	(void)cut;
#else
#if LEN
	static const unsigned int at[] = { 1, 255, 256, 4095, 4096, LEN / 2, LEN - 1, LEN };

	cut = at[vp_pick(0, 7)];
#else
	cut = vp_pick(0, n);
#endif
	tsm_vte_input(vteB, b, cut);
	tsm_vte_input(vteB, b + cut, n - cut);
#endif
	vp_assert(tsm_vte_get_flags(vte) == tsm_vte_get_flags(vteB), "modes");
	vp_assert(tsm_vte_get_mouse_mode(vte) == tsm_vte_get_mouse_mode(vteB), "mouse mode");
	vp_assert(tsm_vte_get_mouse_event(vte) == tsm_vte_get_mouse_event(vteB), "mouse events");
	log_cmp(&outB, &outA, 0);
	log_cmp(&oscB, &oscA, 1);
	cmp_screens(scrA, scrB);
	vp_done();
	return 0;
}
