/* Life cycle and allocation failure: any allocation inside the library may
 * fail (symbolic choice); nothing leaks and the screen stays usable. */
#include "vp.h"
#include "libtsm.h"
#include "libtsm-int.h"

extern unsigned int vp_fail_budget, vp_failed;
extern int vp_live;

static struct tsm_screen *con;
static volatile uint32_t sink;

static void check(unsigned int x, unsigned int y)
{
	unsigned int i, j, n = 0;
	uint32_t sum = 0;
	struct line *l, *p = NULL;

	vp_assert(con->size_x == x && con->size_y == y, "size of the screen");
	vp_assert(con->line_num >= y, "every row is allocated");
	vp_assert(con->lines == con->main_lines, "main screen is active");
	for (i = 0; i < con->line_num; ++i) {
		vp_assert(con->main_lines[i]->size >= x && con->alt_lines[i]->size >= x, "every row is wide enough");
		sum += con->main_lines[i]->cells[x - 1].ch + con->alt_lines[i]->cells[x - 1].ch;
		sum += con->main_lines[i]->cells[0].ch;
	}
	for (i = 0; i < y; ++i)
		for (j = 0; j < i; ++j)
			vp_assert(con->main_lines[i] != con->main_lines[j], "no row appears twice");
	for (j = 0; j < x; ++j)
		sum += con->tab_ruler[j];
	for (l = con->sb_first; l; l = l->next) {
		vp_assert(l->prev == p, "scrollback links");
		p = l;
		sum += l->cells[0].ch;
		++n;
	}
	vp_assert(con->sb_last == p && con->sb_count == n && n <= con->sb_max, "scrollback count");
	vp_assert(con->cursor_y < y && con->cursor_x <= x + 1, "cursor on the screen");
	vp_assert(con->margin_bottom < y, "margins on the screen");
	sink = sum;
}

int main(void)
{
	int r, i, n;
	char *out = NULL;
	struct tsm_screen_attr attr = { .fr = 1, .bb = 2 };
	(void)r; (void)i; (void)n; (void)out; (void)attr;

#if PART == 1
	vp_fail_budget = FAILS;
	con = (void *)&attr;
	r = tsm_screen_new(&con, NULL, NULL);
	vp_fail_budget = 0;
	if (r) {
		vp_reach("out of memory");
		vp_assert(r == -ENOMEM && vp_failed, "creating a screen only fails for lack of memory");
		vp_assert(vp_live == 0, "a failed creation leaks nothing");
		vp_assert(con == (void *)&attr, "a failed creation returns no screen");
		vp_done();
	}
	vp_assert(!vp_failed, "a failed allocation is reported");
	check(80, 24);
	vp_assert(tsm_screen_get_cursor_x(con) == 0 && tsm_screen_get_cursor_y(con) == 0, "the cursor starts at the top left");
	vp_assert(tsm_screen_get_flags(con) == 0 && con->sb_max == 0, "no flags, no scrollback");
	vp_assert(con->margin_top == 0 && con->margin_bottom == 23, "no margins");
	for (i = 0; i < 24; ++i)
		for (n = 0; n < 80; ++n) {
			struct cell *c = &con->lines[i]->cells[n];

			vp_assert(c->ch == 0 && c->width == 1, "the screen starts empty");
		}
	for (n = 0; n < 80; ++n)
		vp_assert(con->tab_ruler[n] == (n % 8 == 0), "a tab stop every eight columns");
	/* references */
	n = vp_pick(0, 2);
	for (i = 0; i < n; ++i)
		tsm_screen_ref(con);
	for (i = 0; i < n; ++i) {
		tsm_screen_unref(con);
		check(80, 24);
	}
	tsm_screen_unref(con);
	vp_assert(vp_live == 0, "the last reference frees everything");
#elif PART == 2
	{
		unsigned int nx = vp_pick(79, 82), ny = vp_pick(23, 26);
		uint32_t ch = vp_u32();

		vp_assume(!(nx == 80 && ny == 24));
		tsm_screen_new(&con, NULL, NULL);
		tsm_screen_set_max_sb(con, 1);
		con->cursor_x = 80;
		con->cursor_y = 23;
		con->lines[5]->cells[7].ch = ch;
		vp_fail_budget = FAILS;
		r = tsm_screen_resize(con, nx, ny);
		vp_fail_budget = 0;
		if (r) {
			vp_reach("out of memory");
			vp_assert(r == -ENOMEM && vp_failed, "a resize only fails for lack of memory");
			check(80, 24);
			vp_assert(con->lines[5]->cells[7].ch == ch, "a failed resize changes no cell");
			vp_assert(con->cursor_x == 80 && con->cursor_y == 23, "a failed resize does not move the cursor");
			tsm_screen_write(con, 'x', &attr);
			check(80, 24);
			r = tsm_screen_resize(con, nx, ny);
			vp_assert(r == 0, "the resize succeeds when there is memory again");
		}
		check(nx, ny);
		tsm_screen_unref(con);
		vp_assert(vp_live == 0, "nothing leaks");
	}
#elif PART == 3
	{
		unsigned int m = vp_pick(0, 2);

		tsm_screen_new(&con, NULL, NULL);
		tsm_screen_resize(con, 2, 3);
		tsm_screen_set_max_sb(con, m);
		{
			unsigned int t = vp_pick(1, 2), b = vp_pick(2, 3);

			tsm_screen_set_margins(con, t, b);
		}
		vp_fail_budget = FAILS;
		for (i = 0; i < 2; ++i) {
			n = vp_pick(0, 3);
			tsm_screen_scroll_up(con, n);
			check(2, 3);
		}
		if (vp_failed)
			vp_reach("scrolling without memory");
		if (vp_bool())
			tsm_screen_clear_sb(con);
		else
			tsm_screen_set_max_sb(con, vp_pick(0, 1));
		check(2, 3);
		tsm_screen_unref(con);
		vp_assert(vp_live == 0, "nothing leaks");
	}
#elif PART == 4
	{
		int live;

		tsm_screen_new(&con, NULL, NULL);
		tsm_screen_resize(con, 2, 2);
		tsm_screen_write(con, 'x', &attr);
		tsm_screen_selection_start(con, 0, 0);
		tsm_screen_selection_target(con, 1, vp_pick(0, 1));
		live = vp_live;
		if (vp_bool()) {
			/* selected text scrolled out */
			tsm_screen_scroll_up(con, 2);
		}
		vp_fail_budget = FAILS;
		r = tsm_screen_selection_copy(con, &out);
		vp_fail_budget = 0;
		if (vp_failed) {
			vp_reach("out of memory");
			vp_assert(r == -ENOMEM && !out, "a failed copy is reported");
			vp_assert(vp_live == live, "a failed copy leaks nothing");
		} else {
			vp_assert(r >= 0 && out && vp_live == live + 1, "the caller owns the copy and nothing else");
		}
		check(2, 2);
	}
#endif
	vp_done();
	return 0;
}
