/* One screen operation on an arbitrary screen: the state after it must equal
 * the reference semantics in every observable detail. */
#include "s_common.h"

#define WRITE 1
#define NEWLINE 2
#define SCROLL_UP 3
#define SCROLL_DOWN 4
#define MOVE_TO 5
#define MOVE_UP 6
#define MOVE_DOWN 7
#define MOVE_LEFT 8
#define MOVE_RIGHT 9
#define LINE_END 10
#define LINE_HOME 11
#define TAB_RIGHT 12
#define TAB_LEFT 13
#define SET_TAB 14
#define RESET_TAB 15
#define RESET_ALL_TABS 16
#define INS_LINES 17
#define DEL_LINES 18
#define INS_CHARS 19
#define DEL_CHARS 20
#define ERASE_CURSOR 21
#define ERASE_CHARS 22
#define ERASE_TO_EOL 23
#define ERASE_FROM_BOL 24
#define ERASE_LINE 25
#define ERASE_TO_CURSOR 26
#define ERASE_FROM_CURSOR 27
#define ERASE_SCREEN 28
#define SET_MARGINS 29
#define SET_FLAGS 30
#define RESET_FLAGS 31
#define RESET 32
#define SET_DEF_ATTR 33
#define SET_MAX_SB 34
#define CLEAR_SB 35
#define SB_UP 36
#define SB_DOWN 37
#define SB_PAGE_UP 38
#define SB_PAGE_DOWN 39
#define SB_RESET 40
#define RESIZE 41
#define SEL_RESET 42
#define SEL_START 43
#define SEL_TARGET 44
#define DRAW 45
#define COPY 46
#define RESIZES 47

static struct view v, g;

#ifdef TALL
#define vp_count(n) vp_assume((n) > TALL)
#else
#define vp_count(n) ((void)0)
#endif

static unsigned int minu(unsigned int a, unsigned int b) { return a < b ? a : b; }

/* "on the last column" covers the pending-wrap positions */
static unsigned int colx(void) { return minu(v.cx, v.sx - 1); }

static unsigned int drawn;
int vp_draw_ret;
static int draw_any(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
		    unsigned int posx, unsigned int posy, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	uint32_t x = 0;
	size_t i;

	for (i = 0; i < len; ++i)
		x ^= ch[i];
	++drawn;
	return x == 0x12345 ? -1 : vp_draw_ret;
}

#ifdef AGEING
/* what a renderer that redraws only what is newer than its last frame shows */
struct shown {
	uint64_t id;
	uint32_t ch;
	size_t len;
	unsigned int width;
	struct tsm_screen_attr attr;
	tsm_age_t age;
};
static struct shown frame[YM][XM];
static tsm_age_t last_age;
static unsigned int fx, fy;

static int draw_first(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
		      unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	struct shown *s = &frame[y][x];

	s->id = id;
	s->ch = len ? *ch : 0;
	s->len = len;
	s->width = width;
	s->attr = *attr;
	s->age = age;
	return 0;
}

static int draw_second(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
		       unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	struct shown *s = &frame[y][x];
	bool same;

	if (x >= fx || y >= fy)
		return 0;
	same = (s->id == id) & (s->len == len) & (s->width == width) & attr_eq(&s->attr, attr);
	if (len)
		same &= s->ch == *ch;
	vp_assert(same | (age == 0) | (age > last_age), "a cell that looks different is newer than the last frame");
	/* so that the same holds for any number of operations between two frames */
	vp_assert((age == 0) | (age > last_age) | ((s->age != 0) & (age >= s->age)), "the age of a cell never goes back");
	return 0;
}

#ifdef PENDING
/* the counter overflowed earlier and nothing was drawn since */
static int draw_zero(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
		     unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	vp_assert(age == 0, "after an overflow everything is drawn again");
	return 0;
}
#endif

static void age_before(void)
{
#ifdef PENDING
	con->age_reset = 1;
	return;
#endif
	con->age_reset = 0;
	fx = con->size_x;
	fy = con->size_y;
	last_age = tsm_screen_draw(con, draw_first, NULL);
	vp_assert(last_age == con->age_cnt, "draw returns the current age");
}

static void age_after(void)
{
	tsm_age_t r;
	bool wrapped = con->age_reset;

#ifdef PENDING
	r = tsm_screen_draw(con, draw_zero, NULL);
	vp_assert(r == 0, "the overflow is reported");
	return;
#endif
	r = tsm_screen_draw(con, draw_second, NULL);
	vp_assert(wrapped ? r == 0 : r >= last_age, "ages grow from frame to frame, or start over");
}
#endif

static void resize_to(unsigned int n, unsigned int m)
{
	unsigned int ox = v.sx, oy = v.sy, i, c;
	struct tsm_screen_attr ma;
	int k;

	k = tsm_screen_resize(con, n, m);
	if (!n || !m) {
		vp_assert(k == -EINVAL, "an empty screen is refused");
		return;
	}
	vp_assert(k == 0, "the resize succeeds");
	if (n == ox && m == oy)
		return;
	/* new cells of the main screen get its own default
	 * attributes, also while the other one is active */
	ma = (v.flags & TSM_SCREEN_ALTERNATE) ? v.defm : v.def;
	for (i = 0; i < YM; ++i)
		for (c = 0; c < n; ++c)
			if (i >= oy || c >= ox) {
				blank(&v.g[0][i][c], &ma);
				blank(&v.g[1][i][c], &v.def);
			}
	v.sx = n;
	if (m < oy)
		ref_rows_up(&v, 0, oy - 1, oy - m, true);
	v.sy = m;
	v.top = 0;
	v.bot = m - 1;
	for (c = 0; c < n; ++c)
		v.tab[c] = c % 8 == 0;
	v.cx = minu(v.cx, n - 1);
	if (m < oy)
		v.cy = v.cy > oy - m ? v.cy - (oy - m) : 0;
	v.cy = minu(v.cy, m - 1);
}

/* arguments: any value, or a few (histories) */
static uint32_t arg(void)
{
#ifdef BIG
	uint32_t n;

	if (vp_concrete(vp_bool()))
		return big_pick(UINT32_MAX);
	n = vp_u32();
#ifdef BIGCONC
	vp_assume((n == BIGMAX + 1) | (n == 65536) | (n == 0x80000000u) | (n == UINT32_MAX));
	return vp_concrete(n);
#endif
	vp_assume(n > BIGMAX);
	return n;
#elif defined(ARGS)
	return vp_pick(0, ARGS);
#else
	return vp_u32();
#endif
}

/* one operation on the real screen, and its reference on the view */
static void step(int op)
{
	uint32_t n = 0, m = 0;
	bool b = false;
	struct tsm_screen_attr attr;
	unsigned int i, j, last;
	struct cell (*a)[XM] = act(&v);

	switch (op) {
	case WRITE: {
		{
			uint32_t ch = vp_u32();
			unsigned int w;

			sym_attr(&attr);
			tsm_screen_write(con, ch, &attr);
			w = vp_concrete(tsm_symbol_get_width(con->sym_table, ch));
			if (w) {
				bool pend = v.cx >= v.sx;

				vp_reach("a visible character");
				if (pend && (v.flags & TSM_SCREEN_AUTO_WRAP)) {
					v.cx = 0;
					if (v.cy == v.bot)
						ref_rows_up(&v, v.top, v.bot, 1, true);
					else if (v.cy < v.sy - 1)
						++v.cy;
				} else if (pend) {
					v.cx = v.sx - 1;
				}
				if ((v.flags & TSM_SCREEN_INSERT_MODE) && v.cx + w < v.sx)
					for (j = v.sx; j-- > v.cx + w; )
						a[v.cy][j] = a[v.cy][j - w];
				a[v.cy][v.cx].ch = ch;
				a[v.cy][v.cx].width = w;
				a[v.cy][v.cx].attr = attr;
				if (w == 2 && v.cx + 1 < v.sx) {
					/* the continuation cell only has its width defined */
					a[v.cy][v.cx + 1].width = 0;
#ifndef WIDE_KEEP
					a[v.cy][v.cx + 1].ch = con->lines[v.cy]->cells[v.cx + 1].ch;
					a[v.cy][v.cx + 1].attr = con->lines[v.cy]->cells[v.cx + 1].attr;
#endif
				}
				v.cx += w;
			}
		}
		break;
	}
	case NEWLINE: {
		tsm_screen_newline(con);
		if (v.cy == v.bot)
			ref_rows_up(&v, v.top, v.bot, 1, true);
		else if (v.cy < v.sy - 1)
			++v.cy;
		v.cx = 0;
		break;
	}
	case SCROLL_UP: {
		n = arg();
		vp_count(n);
		tsm_screen_scroll_up(con, n);
		ref_rows_up(&v, v.top, v.bot, n, true);
		break;
	}
	case SCROLL_DOWN: {
		n = arg();
		vp_count(n);
		tsm_screen_scroll_down(con, n);
		ref_rows_down(&v, v.top, v.bot, n);
		break;
	}
	case MOVE_TO: {
		n = arg();
		m = arg();
		tsm_screen_move_to(con, n, m);
		v.cx = minu(n, v.sx - 1);
		if (v.flags & TSM_SCREEN_REL_ORIGIN)
			v.cy = m > v.bot - v.top ? v.bot : v.top + m;
		else
			v.cy = minu(m, v.sy - 1);
		break;
	}
	case MOVE_UP: {
		n = arg();
		b = vp_bool();
		tsm_screen_move_up(con, n, b);
		last = v.cy >= v.top ? v.top : 0;
		if (n > v.cy - last) {
			if (b && v.cy >= v.top)
				ref_rows_down(&v, v.top, v.bot, n - (v.cy - last));
			v.cy = last;
		} else
			v.cy -= n;
		break;
	}
	case MOVE_DOWN: {
		n = arg();
		b = vp_bool();
		tsm_screen_move_down(con, n, b);
		last = v.cy <= v.bot ? v.bot : v.sy - 1;
		if (n > last - v.cy) {
			if (b && v.cy <= v.bot)
				ref_rows_up(&v, v.top, v.bot, n - (last - v.cy), true);
			v.cy = last;
		} else
			v.cy += n;
		break;
	}
	case MOVE_LEFT: {
		n = arg();
		tsm_screen_move_left(con, n);
		if (n)
			v.cx = n > colx() ? 0 : colx() - n;
		break;
	}
	case MOVE_RIGHT: {
		n = arg();
		tsm_screen_move_right(con, n);
		if (n)
			v.cx = n > v.sx - 1 - colx() ? v.sx - 1 : colx() + n;
		break;
	}
	case LINE_END: {
		tsm_screen_move_line_end(con);
		v.cx = v.sx - 1;
		break;
	}
	case LINE_HOME: {
		tsm_screen_move_line_home(con);
		v.cx = 0;
		break;
	}
	case TAB_RIGHT: {
		n = arg();
		tsm_screen_tab_right(con, n);
		if (n) {
			i = v.cx = colx();
			for (j = i + 1; j < v.sx && n; ++j)
				if (v.tab[j] || j == v.sx - 1) {
					v.cx = j;
					--n;
				}
		}
		break;
	}
	case TAB_LEFT: {
		n = arg();
		tsm_screen_tab_left(con, n);
		if (n) {
			i = v.cx = colx();
			for (j = i; j-- > 0 && n; )
				if (v.tab[j] || j == 0) {
					v.cx = j;
					--n;
				}
		}
		break;
	}
	case SET_TAB: {
		tsm_screen_set_tabstop(con);
		if (v.cx < v.sx)
			v.tab[v.cx] = 1;
		break;
	}
	case RESET_TAB: {
		tsm_screen_reset_tabstop(con);
		if (v.cx < v.sx)
			v.tab[v.cx] = 0;
		break;
	}
	case RESET_ALL_TABS: {
		tsm_screen_reset_all_tabstops(con);
		for (j = 0; j < v.sx; ++j)
			v.tab[j] = 0;
		break;
	}
	case INS_LINES: {
		n = arg();
		vp_count(n);
		tsm_screen_insert_lines(con, n);
		if (n && v.cy >= v.top && v.cy <= v.bot) {
			ref_rows_down(&v, v.cy, v.bot, n);
			v.cx = 0;
		}
		break;
	}
	case DEL_LINES: {
		n = arg();
		vp_count(n);
		tsm_screen_delete_lines(con, n);
		if (n && v.cy >= v.top && v.cy <= v.bot) {
			ref_rows_up(&v, v.cy, v.bot, n, false);
			v.cx = 0;
		}
		break;
	}
	case INS_CHARS: {
		n = arg();
		tsm_screen_insert_chars(con, n);
		if (n) {
			v.cx = colx();
			n = vp_concrete(minu(n, v.sx - v.cx));
			for (j = v.sx; j-- > v.cx; )
				if (j >= v.cx + n)
					a[v.cy][j] = a[v.cy][j - n];
				else
					blank(&a[v.cy][j], &v.def);
		}
		break;
	}
	case DEL_CHARS: {
		n = arg();
		tsm_screen_delete_chars(con, n);
		if (n) {
			v.cx = colx();
			n = vp_concrete(minu(n, v.sx - v.cx));
			for (j = v.cx; j < v.sx; ++j)
				if (j + n < v.sx)
					a[v.cy][j] = a[v.cy][j + n];
				else
					blank(&a[v.cy][j], &v.def);
		}
		break;
	}
	case ERASE_CURSOR: {
		tsm_screen_erase_cursor(con);
		ref_erase(&v, colx(), v.cy, colx(), v.cy, false);
		break;
	}
	case ERASE_CHARS: {
		n = arg();
		tsm_screen_erase_chars(con, n);
		if (n)
			ref_erase(&v, colx(), v.cy, vp_concrete(n > v.sx - colx() ? v.sx - 1 : colx() + n - 1), v.cy, false);
		break;
	}
	case ERASE_TO_EOL: {
		b = vp_bool();
		tsm_screen_erase_cursor_to_end(con, b);
		ref_erase(&v, colx(), v.cy, v.sx - 1, v.cy, b);
		break;
	}
	case ERASE_FROM_BOL: {
		b = vp_bool();
		tsm_screen_erase_home_to_cursor(con, b);
		ref_erase(&v, 0, v.cy, colx(), v.cy, b);
		break;
	}
	case ERASE_LINE: {
		b = vp_bool();
		tsm_screen_erase_current_line(con, b);
		ref_erase(&v, 0, v.cy, v.sx - 1, v.cy, b);
		break;
	}
	case ERASE_TO_CURSOR: {
		b = vp_bool();
		tsm_screen_erase_screen_to_cursor(con, b);
		ref_erase(&v, 0, 0, colx(), v.cy, b);
		break;
	}
	case ERASE_FROM_CURSOR: {
		b = vp_bool();
		tsm_screen_erase_cursor_to_screen(con, b);
		ref_erase(&v, colx(), v.cy, v.sx - 1, v.sy - 1, b);
		break;
	}
	case ERASE_SCREEN: {
		b = vp_bool();
		tsm_screen_erase_screen(con, b);
		ref_erase(&v, 0, 0, v.sx - 1, v.sy - 1, b);
		break;
	}
	case SET_MARGINS: {
		n = arg();
		m = arg();
		vp_assert(tsm_screen_set_margins(con, n, m) == 0, "setting margins succeeds");
		if (!n)
			n = 1;
		if (n < m && m <= v.sy) {
			v.top = n - 1;
			v.bot = m - 1;
		} else {
			v.top = 0;
			v.bot = v.sy - 1;
		}
		break;
	}
	case SET_FLAGS: {
		n = arg();
		vp_assume((n & ~FLAGS_MASK) == 0);
		tsm_screen_set_flags(con, n);
		if ((n & TSM_SCREEN_ALTERNATE) && !(v.flags & TSM_SCREEN_ALTERNATE))
			v.defm = v.def;
		v.flags |= n;
		break;
	}
	case RESET_FLAGS: {
		n = arg();
		vp_assume((n & ~FLAGS_MASK) == 0);
		tsm_screen_reset_flags(con, n);
		v.flags &= ~n;
		break;
	}
	case RESET: {
		tsm_screen_reset(con);
		v.flags = 0;
		v.top = 0;
		v.bot = v.sy - 1;
		for (j = 0; j < v.sx; ++j)
			v.tab[j] = j % 8 == 0;
		break;
	}
	case SET_DEF_ATTR: {
		sym_attr(&attr);
		tsm_screen_set_def_attr(con, &attr);
		v.def = attr;
		break;
	}
	case SET_MAX_SB: {
		n = arg();
		tsm_screen_set_max_sb(con, n);
		last = vp_concrete(v.sbn > n ? v.sbn - n : 0);
		for (i = 0; i + last < v.sbn; ++i)
			v.sb[i] = v.sb[i + last];
		v.sbn -= last;
		if (v.pos >= 0)
			v.pos = (unsigned int)v.pos >= last ? v.pos - (int)last : v.sbn ? 0 : -1;
		ref_sel_drop(&v.s0, last);
		ref_sel_drop(&v.s1, last);
		v.sb_max = n;
		break;
	}
	case CLEAR_SB: {
		tsm_screen_clear_sb(con);
		ref_sel_drop(&v.s0, v.sbn);
		ref_sel_drop(&v.s1, v.sbn);
		v.sbn = 0;
		v.pos = -1;
		break;
	}
	case SB_UP: case SB_PAGE_UP: {
		{
			uint64_t d;
			unsigned int k;

			n = arg();
			if (op == SB_UP)
				tsm_screen_sb_up(con, n);
			else
				tsm_screen_sb_page_up(con, n);
			d = (uint64_t)n * (op == SB_UP ? 1 : v.sy);
			k = v.pos < 0 ? v.sbn : v.pos;
			k = vp_concrete(d > k ? 0 : k - d);
			v.pos = k == v.sbn ? -1 : (int)k;
		}
		break;
	}
	case SB_DOWN: case SB_PAGE_DOWN: {
		{
			uint64_t d;
			unsigned int k;

			n = arg();
			if (op == SB_DOWN)
				tsm_screen_sb_down(con, n);
			else
				tsm_screen_sb_page_down(con, n);
			d = (uint64_t)n * (op == SB_DOWN ? 1 : v.sy);
			k = v.pos < 0 ? v.sbn : v.pos;
			k = vp_concrete(d > v.sbn - k ? v.sbn : k + d);
			v.pos = k == v.sbn ? -1 : (int)k;
		}
		break;
	}
	case SB_RESET: {
		tsm_screen_sb_reset(con);
		v.pos = -1;
		break;
	}
	case RESIZE: {
#ifdef BIG
		n = big_pick(XM);
		m = big_pick(YM);
#else
		n = vp_pick(0, XM);
		m = vp_pick(0, YM);
#endif
		resize_to(n, m);
		break;
	}
	case RESIZES: {
		/* narrower or wider, a row scrolls away, another size */
		n = vp_pick(1, XM);
		m = vp_pick(1, YM);
		resize_to(n, m);
		tsm_screen_scroll_up(con, 1);
		ref_rows_up(&v, v.top, v.bot, 1, true);
		n = vp_pick(1, XM);
		m = vp_pick(1, YM);
		resize_to(n, m);
		{
			struct line *l = con->sb_first;

			for (i = 0; l && i < v.sbn; ++i, l = l->next)
				for (j = v.sb[i].size; j < l->size && j < v.sx; ++j)
					vp_assert((l->cells[j].ch == 0) & (l->cells[j].width == 1),
						  "a scrollback line shows nothing where its row had no cells");
		}
		break;
	}
	case SEL_RESET: {
		tsm_screen_selection_reset(con);
		v.sel = false;
		break;
	}
	case SEL_START: case SEL_TARGET: {
		{
			struct sp p;
			unsigned int k;

			n = arg();
			m = arg();
			if (op == SEL_START)
				tsm_screen_selection_start(con, n, m);
			else
				tsm_screen_selection_target(con, n, m);
			/* the cell shown there, or the nearest one */
			p.x = minu(n, v.sx - 1);
			k = vp_concrete(minu(m, v.sy - 1));
			if (v.pos >= 0 && v.pos + k < v.sbn)
				p.kind = P_SB, p.idx = v.pos + k;
			else
				p.kind = P_ROW, p.idx = v.pos >= 0 ? k - (v.sbn - v.pos) : k;
			if (op == SEL_START) {
				v.sel = true;
				v.s0 = v.s1 = p;
			} else if (v.sel) {
				v.s1 = p;
			}
		}
		break;
	}
	case DRAW: {
		{
			extern int vp_draw_ret;

			vp_draw_ret = vp_bool() ? -1 : 0;
			drawn = 0;
			tsm_screen_draw(con, draw_any, NULL);
			vp_assert(drawn == v.sx * v.sy, "every cell is drawn");
		}
		break;
	}
	case COPY: {
		{
			char *out = NULL;
			int r = tsm_screen_selection_copy(con, &out);

			if (v.sel) {
				vp_assert(r >= 0 && out && (int)strlen(out) == r, "the selection is copied as a string");
				free(out);
			} else {
				vp_assert(r == -ENOENT && !out, "without a selection nothing is copied");
			}
		}
		break;
	}
	default:
		vp_bound(false, "unknown operation");
	}
	(void)n; (void)m; (void)b; (void)attr; (void)i; (void)j; (void)last; (void)a;
}

#ifdef H1
static const uint8_t h1[] = { H1 }, h2[] = { H2 };
#endif

int main(void)
{
#ifdef H1
	unsigned int k;
#endif
	mk_screen();
#ifndef NOMARGINS
	pick_margins();
#endif
#ifdef TALL
	con->cursor_y = vp_pick(0, 1);
#elif defined(SYMCURSOR)
	con->cursor_x = vp_range(0, CXMAX);
	con->cursor_y = vp_range(0, Y - 1);
#else
	pick_cursor();
#endif
	pick_flags(FLAGS_MASK);
#ifdef ALT_ONLY
	vp_assume(con->flags & TSM_SCREEN_ALTERNATE);
	con->lines = con->alt_lines;
#endif
#if SBN
	pick_sb_pos();
#endif
#ifdef SEL
	pick_sel();
#endif
#ifdef SBMAX_FREE
	/* limit at or above the current fill */
	con->sb_max = vp_pick(SBN, SBN + SBMAX_FREE);
#endif
#ifdef SBMAX0
	con->sb_max = 0;
#endif
	view(&v);
#ifdef AGEING
	age_before();
#endif

#ifdef H1
	k = vp_pick(0, sizeof(h1) - 1);
	step(h1[k]);
	k = vp_pick(0, sizeof(h2) - 1);
	step(h2[k]);
#else
	step(OP);
#endif
#ifdef AGEING
	age_after();
	vp_done();
	return 0;
#endif
	view(&g);
	cmp_all(&v, &g);
	vp_assert(tsm_screen_get_cursor_x(con) == v.cx && tsm_screen_get_cursor_y(con) == v.cy, "reported cursor");
	vp_assert(tsm_screen_get_width(con) == v.sx && tsm_screen_get_height(con) == v.sy, "reported size");
	vp_assert(tsm_screen_get_flags(con) == v.flags, "reported flags");
	vp_assert(tsm_screen_sb_get_line_count(con) == v.sbn, "reported scrollback size");
	vp_done();
	return 0;
}
