/* Any bytes: no memory error, and the screen keeps its invariants. */
#include "v_ref.h"

static void sink(struct tsm_vte *v, const char *s, size_t n, void *d)
{
	size_t i;
	volatile char c = 0;

	for (i = 0; i < n; ++i)		/* all of it is readable */
		c ^= s[i];
	vp_assert(n <= 64, "replies are short");
	++*(unsigned int *)d;
}

static void osc(struct tsm_vte *v, const char *s, size_t n, void *d)
{
	vp_assert(n <= 127 && s[n] == 0, "an operating system command is a string of at most 127 bytes");
}

int main(void)
{
	unsigned int replies = 0, i, n = 0;
	static const char pre[] = PRE;
	char b[sizeof(pre) + N];

	scrA = mk_small();
	if (tsm_vte_new(&vte, scrA, sink, &replies, NULL, NULL))
		abort();
	tsm_vte_set_osc_cb(vte, osc, NULL);
#ifdef SB
	tsm_screen_set_max_sb(scrA, SB);
#endif
#ifdef CUR
	scrA->cursor_x = vp_pick(0, X);
	scrA->cursor_y = vp_pick(0, Y - 1);
#endif
	for (i = 0; i + 1 < sizeof(pre); ++i)
		b[n++] = pre[i];
	for (i = 0; i < N; ++i)
		b[n++] = vp_u8();
	tsm_vte_input(vte, b, n);
	vp_assert(replies <= n, "at most one reply per byte");
	vp_assert(tsm_screen_get_width(scrA) == X && tsm_screen_get_height(scrA) == Y, "input never resizes the screen");
	vp_assert(scrA->cursor_x <= X + 1 && scrA->cursor_y < Y, "cursor on the screen");
	vp_assert(scrA->margin_top <= scrA->margin_bottom && scrA->margin_bottom < Y, "margins on the screen");
	tsm_vte_unref(vte);
	tsm_screen_unref(scrA);
	vp_done();
	return 0;
}
