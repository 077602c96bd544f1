/* Life cycle of the emulator and allocation failure: any few allocations may
 * fail (symbolic choice). */
#include "vp.h"
#include "libtsm.h"
#include "libtsm-int.h"

extern unsigned int vp_fail_budget, vp_failed;
extern int vp_live;

static struct tsm_screen *con;
static struct tsm_vte *vte;
static char out[64];
static size_t nout;

static void wr(struct tsm_vte *v, const char *s, size_t n, void *d)
{
	vp_assert(v == vte && d == &con, "the callback gets its data");
	for (; n; --n)
		out[nout++] = *s++;
}

static void alive(uint32_t c, unsigned int refs)
{
	char b[2] = { '\r', (char)c };
	struct cell *l = con->lines[con->cursor_y]->cells;

	tsm_vte_input(vte, b, 2);
	vp_assert(l[0].ch == c, "the emulator writes to its screen");
	nout = 0;
	tsm_vte_input(vte, "\033[5n", 4);
	vp_assert(nout == 4 && out[0] == 033 && out[2] == '0', "the emulator answers");
	(void)refs;
}

int main(void)
{
	struct tsm_vte *keep = (void *)out;
	uint8_t pal[TSM_COLOR_NUM][3], last[3] = { 0 };
	unsigned int i, n;
	int r, live, base, own = 0;
	bool first;

	tsm_screen_new(&con, NULL, NULL);
	tsm_screen_resize(con, 2, 2);
	tsm_screen_set_max_sb(con, vp_pick(0, 1));
	base = vp_live;
	vte = keep;
	vp_assert(tsm_vte_new(NULL, con, wr, NULL, NULL, NULL) == -EINVAL && tsm_vte_new(&vte, NULL, wr, NULL, NULL, NULL) == -EINVAL &&
		  tsm_vte_new(&vte, con, NULL, NULL, NULL, NULL) == -EINVAL && vte == keep && vp_live == base, "what is needed is needed");
	vp_fail_budget = FAILS;
	r = tsm_vte_new(&vte, con, wr, &con, NULL, NULL);
	if (r) {
		vp_reach("no emulator for lack of memory");
		vp_assert(r == -ENOMEM && vp_failed, "creating an emulator only fails for lack of memory");
		vp_assert(vp_live == base && vte == keep, "a failed creation leaves nothing behind");
		tsm_screen_unref(con);
		vp_assert(vp_live == 0, "a failed creation holds no reference to the screen");
		vp_done();
	}
	vp_assert(!vp_failed, "a failed allocation is reported");
	alive('a', 1);
#ifdef PAL
	for (i = 0; i < 2; ++i) {
		struct tsm_screen_attr a;
		unsigned int f = vp_failed, k = vp_pick(0, 3);
		unsigned int j, c;

		for (j = 0; j < TSM_COLOR_NUM; ++j)
			for (c = 0; c < 3; ++c)
				pal[j][c] = 7 * j + c + 100 * i;
		tsm_vte_get_def_attr(vte, &a);
		last[0] = a.fr, last[1] = a.fg, last[2] = a.fb;
		live = vp_live;
		r = k == 0 ? tsm_vte_set_palette(vte, "solarized") : k == 1 ? tsm_vte_set_palette(vte, NULL) :
		    k == 2 ? tsm_vte_set_custom_palette(vte, pal) : tsm_vte_set_custom_palette(vte, NULL);
		vp_assert(r == (vp_failed != f ? -ENOMEM : 0), "setting a palette only fails for lack of memory");
		tsm_vte_get_def_attr(vte, &a);
		if (r) {
			vp_reach("no palette for lack of memory");
			vp_assert(vp_live == live, "a failed change leaves nothing behind");
			vp_assert(a.fr == last[0] && a.fg == last[1] && a.fb == last[2], "a failed change keeps the colours");
		}
		own = vp_live - base;
		vp_assert(own >= 1 && own <= 4, "a replaced palette is released");
		alive('0' + i, 1);
	}
#endif
	vp_fail_budget = 0;
	/* references, to the emulator and the screen, dropped in any order */
	n = vp_pick(0, 2);
	for (i = 0; i < n; ++i)
		tsm_vte_ref(vte);
	first = vp_concrete(vp_bool());
	if (first)
		tsm_screen_unref(con);
	for (i = 0; i < n; ++i) {
		live = vp_live;
		tsm_vte_unref(vte);
		vp_assert(vp_live == live, "an emulator that is still referenced is kept");
		alive('A' + i, n - i);
	}
	tsm_vte_unref(vte);
	if (!first) {
		vp_assert(vp_live == base, "the last reference to the emulator frees what belongs to it, not the screen");
		tsm_screen_write(con, 'z', &con->def_attr);
		tsm_screen_unref(con);
	}
	vp_assert(vp_live == 0, "everything is freed in the end");
	tsm_vte_ref(NULL);
	tsm_vte_unref(NULL);
	(void)pal; (void)last; (void)own; (void)live;
	vp_done();
	return 0;
}
