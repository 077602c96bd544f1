/* Screen harness support: an arbitrary well-formed screen with symbolic
 * contents, a plain-value view of everything observable in it, and comparison
 * of views.  X, Y: screen size.  LX: allocated line width.  LN: allocated
 * lines.  SBN: lines in the scrollback. */
#ifndef S_COMMON_H
#define S_COMMON_H
#include "vp.h"
#include "libtsm.h"
#include "libtsm-int.h"

#ifndef X
#define X 3
#endif
#ifndef Y
#define Y 3
#endif
#ifndef LX
#define LX X
#endif
#ifndef LN
#define LN Y
#endif
#ifndef SBN
#define SBN 0
#endif
#ifndef SBW
#define SBW LX
#endif
/* room for growth (resize) */
#ifndef XM
#define XM LX
#endif
#ifndef YM
#define YM LN
#endif
#define SM (SBN + YM + 1)
#ifndef CH_MIN
#define CH_MIN 0
#endif
#ifndef CH_MAX
#define CH_MAX 0xffffffff
#endif
/* highest cursor column: X is the position after the last column, X + 1 is
 * reached by a wide character in the last one */
#ifndef CXMAX
#define CXMAX (X + 1)
#endif
#ifndef FLAGS_MASK
#define FLAGS_MASK 0x7f
#endif

struct lv {
	uint64_t id;
	unsigned int size;
	struct cell c[XM > SBW ? XM : SBW];
};

/* a selection endpoint: above everything, in a scrollback line or in a row */
enum { P_TOP, P_SB, P_ROW };
struct sp {
	int kind;
	unsigned int idx, x;
};

struct view {
	unsigned int sx, sy, cx, cy, top, bot, flags;
	unsigned int sb_max, sbn, pos_num;
	int pos;			/* index of the line at the top of the view; -1: live */
	struct cell g[2][YM][XM];
	struct lv sb[SM];
	uint64_t last_id;
	uint8_t tab[XM];
	struct tsm_screen_attr def, defm;
	bool sel;
	struct sp s0, s1;
};

static struct tsm_screen *con;

static void sym_attr(struct tsm_screen_attr *a)
{
	uint64_t c = vp_u64();
	uint32_t f = vp_u8() & 0x3f;

	memcpy(a, &c, 8);
	memcpy((char *)a + 8, &f, 4);
}

#ifdef BIG
/* big screens: positions and counts around the limits of narrower integers
 * and around the size, besides any larger count; the contents are symbolic */
static const uint32_t bigs[] = { BIG };

#define BIGMARK (1u << 30)
static uint32_t big_pick(uint32_t max)
{
	uint32_t k = vp_pick(0, sizeof(bigs) / sizeof(*bigs) - 1);

	vp_assume(bigs[k] <= max);
	return bigs[k];
}
#endif

static void sym_cell(struct cell *c)
{
#ifdef BIG
	static unsigned int serial;

	++serial;
#ifdef BIGASCII
	c->ch = 0x21 + serial % 94;
	c->width = 1;
#else
	c->ch = vp_u32();
	c->width = vp_u8();
#endif
	sym_attr(&c->attr);
	c->attr.protect = serial % 3 == 0;
	c->age = 1;
	return;
#endif
	c->ch = vp_u32();
	vp_assume(c->ch >= CH_MIN && c->ch <= CH_MAX);
#ifdef WIDTH1
	c->width = 1;
#else
	c->width = vp_u8();
#endif
	sym_attr(&c->attr);
	c->age = vp_u32();
	vp_assume(c->age <= con->age_cnt);
}

static inline bool attr_eq(const struct tsm_screen_attr *a, const struct tsm_screen_attr *b)
{
	uint64_t p, q;
	uint32_t f, g;

	memcpy(&p, a, 8);
	memcpy(&q, b, 8);
	memcpy(&f, (const char *)a + 8, 4);
	memcpy(&g, (const char *)b + 8, 4);
	return (p == q) & (((f ^ g) & 0x3f) == 0);
}

static inline bool cell_eq(const struct cell *a, const struct cell *b)
{
	return (a->ch == b->ch) & (a->width == b->width) & attr_eq(&a->attr, &b->attr);
}

static inline void blank(struct cell *c, const struct tsm_screen_attr *a)
{
	c->ch = 0;
	c->width = 1;
	c->attr = *a;
}

static struct line *mk_line(unsigned int size)
{
	struct line *l = calloc(1, sizeof(*l));
	unsigned int i;

	l->size = size;
	l->cells = malloc(sizeof(struct cell) * size);
	for (i = 0; i < size; ++i)
		sym_cell(&l->cells[i]);
#ifdef BIG
	l->age = 1;
	return l;
#endif
	l->age = vp_u32();
	vp_assume(l->age <= con->age_cnt);
	return l;
}

/* screen with arbitrary contents; cursor, margins, flags set by the caller */
static void mk_screen(void)
{
	unsigned int i;

	con = calloc(1, sizeof(*con));
	con->ref = 1;
	if (tsm_symbol_table_new(&con->sym_table))
		return;
	con->age_cnt = vp_u32();
	vp_assume(con->age_cnt >= 1);
	con->age = vp_u32();
	vp_assume(con->age <= con->age_cnt);
	con->age_reset = 0;
	sym_attr(&con->def_attr);
	sym_attr(&con->def_attr_main);
	con->size_x = X;
	con->size_y = Y;
	con->line_num = LN;
	con->main_lines = malloc(sizeof(struct line *) * LN);
	con->alt_lines = malloc(sizeof(struct line *) * LN);
	for (i = 0; i < LN; ++i) {
		con->main_lines[i] = mk_line(LX);
		con->alt_lines[i] = mk_line(LX);
	}
	con->lines = con->main_lines;
	con->tab_ruler = malloc(sizeof(bool) * LX);
	for (i = 0; i < LX; ++i)
#ifdef BIG
		con->tab_ruler[i] = i % 37 == 0 || i == LX - 3;
#else
		con->tab_ruler[i] = vp_bool();
#endif
	con->margin_bottom = Y - 1;
	con->sb_last_id = vp_u32();
	for (i = 0; i < SBN; ++i) {
		struct line *l = mk_line(SBW);

		l->sb_id = ++con->sb_last_id;
		l->prev = con->sb_last;
		if (con->sb_last)
			con->sb_last->next = l;
		else
			con->sb_first = l;
		con->sb_last = l;
		++con->sb_count;
	}
	con->sb_max = SBN;
	con->sb_pos_num = con->sb_count;
}

static void pick_flags(unsigned int mask)
{
	unsigned int f = vp_u32();

	vp_assume((f & ~mask) == 0);
	con->flags = f;
	if (mask & TSM_SCREEN_ALTERNATE)
		if (f & TSM_SCREEN_ALTERNATE)
			con->lines = con->alt_lines;
}

static void pick_cursor(void)
{
#ifdef BIG
	con->cursor_x = big_pick(CXMAX);
	con->cursor_y = big_pick(Y - 1);
#else
	con->cursor_x = vp_pick(0, CXMAX);
	con->cursor_y = vp_pick(0, Y - 1);
#endif
}

static void pick_endpoint(struct selection_pos *s)
{
	struct line *l = con->sb_first;
	unsigned int k;

#ifdef BIG
	s->x = X == 1 ? 0 : big_pick(UINT32_MAX);
#else
	s->x = vp_u32();
#endif
#ifdef BIG
	k = big_pick(SBN + Y);
#else
	k = vp_pick(0, SBN + Y);
#endif
	if (k == SBN + Y) {
		s->y = SELECTION_TOP;
	} else if (k < SBN) {
		for (; k; --k)
			l = l->next;
		s->line = l;
		s->y = vp_bool() ? 0 : SELECTION_TOP;
	} else {
		s->y = k - SBN;
	}
}

/* no selection, or one between any two places */
static void pick_sel(void)
{
	con->sel_active = vp_bool();
	if (vp_concrete(con->sel_active)) {
		pick_endpoint(&con->sel_start);
		pick_endpoint(&con->sel_end);
	}
}

static void view_sel(struct sp *p, const struct selection_pos *s)
{
	struct line *l;
	unsigned int i = 0;

	p->x = s->x;
	p->idx = 0;
	if (s->line) {
		for (l = con->sb_first; l && l != s->line; l = l->next)
			++i;
		vp_assert(l, "a selection endpoint in the scrollback is one of its lines");
		p->kind = P_SB;
		p->idx = i;
	} else if (s->y == SELECTION_TOP) {
		p->kind = P_TOP;
	} else {
		vp_assert(s->y >= 0 && s->y < (int)con->size_y, "a selection endpoint on the screen is one of its rows");
		p->kind = P_ROW;
		p->idx = vp_concrete(s->y);
	}
}

static void pick_margins(void)
{
	unsigned int t, b;

	if (vp_bool()) {
		con->margin_top = 0;
		con->margin_bottom = Y - 1;
		return;
	}
#ifdef BIG
	t = big_pick(Y - 1);
	b = big_pick(Y - 1);
#else
	t = vp_pick(0, Y - 1);
	b = vp_pick(0, Y - 1);
#endif
	vp_assume(t < b);
	con->margin_top = t;
	con->margin_bottom = b;
}

/* position in the scrollback: none (live view) or any of its lines */
static void pick_sb_pos(void)
{
#ifdef BIG
	unsigned int i = big_pick(SBN), k;
#else
	unsigned int i = vp_pick(0, SBN), k;
#endif
	struct line *l = con->sb_first;

	con->sb_pos_num = i;
	if (i == SBN) {
		con->sb_pos = NULL;
		return;
	}
	for (k = 0; k < i; ++k)
		l = l->next;
	con->sb_pos = l;
}

/* what must hold of the data structure in every state; reading the cells also
 * has every one of them bounds-checked */
static void view(struct view *v)
{
	unsigned int i, j, a, n;
	struct line *l, *p;
	uint64_t id;

	memset(v, 0, sizeof(*v));
	v->sx = con->size_x;
	v->sy = con->size_y;
	v->cx = con->cursor_x;
	v->cy = con->cursor_y;
	v->top = con->margin_top;
	v->bot = con->margin_bottom;
	v->flags = con->flags;
	v->def = con->def_attr;
	v->defm = con->def_attr_main;
	v->sel = vp_concrete(con->sel_active);
	vp_assert(v->sx >= 1 && v->sy >= 1, "the screen has at least one cell");
	vp_assert(con->line_num >= v->sy, "every row is allocated");
	vp_bound(v->sx <= XM && v->sy <= YM && con->line_num <= YM, "view capacity");
	vp_assert(con->lines == ((con->flags & TSM_SCREEN_ALTERNATE) ? con->alt_lines : con->main_lines),
		  "the active buffer is the one selected by the alternate-screen flag");
	for (a = 0; a < 2; ++a)
		for (i = 0; i < con->line_num; ++i) {
			l = a ? con->alt_lines[i] : con->main_lines[i];
			vp_assert(l->size >= v->sx, "every row is at least as wide as the screen");
#ifdef BIG
			vp_assert(!(l->size & BIGMARK), "no row appears twice");
			l->size |= BIGMARK;
#else
			for (j = 0; j < i; ++j)
				vp_assert(l != (a ? con->alt_lines[j] : con->main_lines[j]), "no row appears twice");
#endif
			if (i < v->sy)
				for (j = 0; j < v->sx; ++j)
					v->g[a][i][j] = l->cells[j];
		}
#ifdef BIG
	for (i = 0; i < con->line_num; ++i) {
		con->main_lines[i]->size &= ~BIGMARK;
		con->alt_lines[i]->size &= ~BIGMARK;
	}
#endif
	for (j = 0; j < v->sx; ++j)
		v->tab[j] = con->tab_ruler[j];
	vp_assert(v->cy < v->sy, "the cursor row is on the screen");
	vp_assert(v->cx <= v->sx + 1, "the cursor column is on the screen or pending a wrap");
	vp_assert(v->bot < v->sy && (v->top < v->bot || (v->top == 0 && v->bot == v->sy - 1)),
		  "the scroll region is a valid region of the screen");
	/* scrollback */
	v->sb_max = con->sb_max;
	v->pos = -1;
	n = 0;
	p = NULL;
	id = 0;
	for (l = con->sb_first; l; l = l->next) {
		vp_bound(n < SM, "scrollback view capacity");
		vp_assert(l->prev == p, "scrollback links are consistent");
		vp_assert(l->sb_id > id, "scrollback lines are in order of age");
		id = l->sb_id;
		if (l == con->sb_pos)
			v->pos = n;
		v->sb[n].id = l->sb_id;
		v->sb[n].size = l->size;
		vp_bound(l->size <= (XM > SBW ? XM : SBW), "scrollback line capacity");
		for (j = 0; j < l->size; ++j)
			v->sb[n].c[j] = l->cells[j];
		p = l;
		++n;
	}
	vp_assert(con->sb_last == p, "scrollback end is its last line");
	vp_assert(con->sb_count == n, "scrollback count is its number of lines");
	vp_assert(n <= con->sb_max, "the scrollback never exceeds its maximum");
	vp_assert(!con->sb_pos || v->pos >= 0, "the view position is a line of the scrollback");
	vp_assert(id <= con->sb_last_id, "scrollback ids are fresh");
	if (v->sel) {
		view_sel(&v->s0, &con->sel_start);
		view_sel(&v->s1, &con->sel_end);
	}
	v->sbn = n;
	v->last_id = con->sb_last_id;
	v->pos_num = tsm_screen_sb_get_line_pos(con);
	if (v->pos >= 0)
		vp_assert(v->pos_num == (unsigned int)v->pos, "the numeric view position is the index of the line shown first");
	else
		vp_assert(v->pos_num == n, "at the bottom the numeric view position is the number of lines");
}

static void cmp_grid(const struct view *e, const struct view *g)
{
	unsigned int a, i, j;

	vp_assert(g->sx == e->sx && g->sy == e->sy, "screen size");
	for (a = 0; a < 2; ++a)
		for (i = 0; i < e->sy; ++i)
			for (j = 0; j < e->sx; ++j) {
				if (a == !!(e->flags & TSM_SCREEN_ALTERNATE))
					vp_assert(cell_eq(&e->g[a][i][j], &g->g[a][i][j]), "cells of the active screen");
				else
					vp_assert(cell_eq(&e->g[a][i][j], &g->g[a][i][j]), "cells of the inactive screen");
			}
}

static void cmp_sb(const struct view *e, const struct view *g)
{
	unsigned int i, j;

	vp_assert(g->sb_max == e->sb_max, "scrollback limit");
	vp_assert(g->sbn == e->sbn, "number of scrollback lines");
	for (i = 0; i < e->sbn; ++i) {
		for (j = 0; j < e->sb[i].size && j < g->sb[i].size; ++j)
			vp_assert(cell_eq(&e->sb[i].c[j], &g->sb[i].c[j]), "cells of the scrollback");
		vp_assert(g->sb[i].size >= e->sb[i].size, "scrollback lines keep their width");
	}
	vp_assert(g->pos == e->pos, "view position");
}

static void cmp_rest(const struct view *e, const struct view *g)
{
	unsigned int j;

	vp_assert(g->cx == e->cx, "cursor column");
	vp_assert(g->cy == e->cy, "cursor row");
	vp_assert(g->top == e->top, "top margin");
	vp_assert(g->bot == e->bot, "bottom margin");
	vp_assert(g->flags == e->flags, "flags");
	for (j = 0; j < e->sx; ++j)
		vp_assert(!g->tab[j] == !e->tab[j], "tab stops");
	vp_assert(attr_eq(&g->def, &e->def), "default attributes");
	if (e->flags & TSM_SCREEN_ALTERNATE)
		vp_assert(attr_eq(&g->defm, &e->defm), "default attributes of the main screen");
	vp_assert(g->sel == e->sel, "selection is active or not");
	if (e->sel) {
		vp_assert(g->s0.kind == e->s0.kind && g->s0.idx == e->s0.idx, "the selection starts in the same line as before");
		vp_assert(g->s1.kind == e->s1.kind && g->s1.idx == e->s1.idx, "the selection ends in the same line as before");
		vp_assert(e->s0.kind == P_TOP || g->s0.x == e->s0.x, "the selection starts in the same column as before");
		vp_assert(e->s1.kind == P_TOP || g->s1.x == e->s1.x, "the selection ends in the same column as before");
	}
}

static void cmp_all(const struct view *e, const struct view *g)
{
	cmp_rest(e, g);
	cmp_grid(e, g);
	cmp_sb(e, g);
}

/* ---- reference semantics on views ---------------------------------------- */

static struct cell (*act(struct view *v))[XM]
{
	return v->g[!!(v->flags & TSM_SCREEN_ALTERNATE)];
}

/* n lines leave the top of the scrollback */
static void ref_sel_drop(struct sp *p, unsigned int n)
{
	if (p->kind == P_SB) {
		if (p->idx < n)
			p->kind = P_TOP, p->idx = 0;
		else
			p->idx -= n;
	}
}

/* rows from..to moved up; sb: those that left are the last ones of the scrollback */
static void ref_sel_up(struct view *v, struct sp *p, unsigned int from, unsigned int to, unsigned int n, bool sb)
{
	unsigned int k;

	if (p->kind != P_ROW || p->idx < from || p->idx > to)
		return;
	if (p->idx >= from + n) {
		p->idx -= n;
	} else if (sb) {
		k = from + n - p->idx;		/* counted from the end */
		if (k <= v->sbn)
			p->kind = P_SB, p->idx = v->sbn - k;
		else
			p->kind = P_TOP, p->idx = 0;
	} else {
		p->idx = from;
		p->x = 0;
	}
}

static void ref_sel_down(struct view *v, struct sp *p, unsigned int from, unsigned int to, unsigned int n)
{
	if (p->kind != P_ROW || p->idx < from || p->idx > to)
		return;
	p->idx += n;
	if (p->idx > to) {
		p->idx = to;
		p->x = v->sx - 1;
	}
}

/* one row leaves the main screen into the scrollback */
static void ref_push(struct view *v, const struct cell *row)
{
	unsigned int i;

	if (!v->sb_max)
		return;
	if (v->sbn >= v->sb_max) {
		/* the oldest line goes; a fixed view stays on its line while that
		 * exists, otherwise it moves along by one line */
		if (v->pos >= 0) {
			if (v->pos == 0 || !(v->flags & TSM_SCREEN_FIXED_POS))
				; /* next line takes over this index */
			else
				--v->pos;
		}
		for (i = 1; i < v->sbn; ++i)
			v->sb[i - 1] = v->sb[i];
		--v->sbn;
		ref_sel_drop(&v->s0, 1);
		ref_sel_drop(&v->s1, 1);
	}
	v->sb[v->sbn].size = v->sx;
	for (i = 0; i < v->sx; ++i)
		v->sb[v->sbn].c[i] = row[i];
	++v->sbn;
}

static void ref_blank_row(struct view *v, struct cell *row)
{
	unsigned int j;

	for (j = 0; j < v->sx; ++j)
		blank(&row[j], &v->def);
}

/* rows from..to move up by n; the top ones leave, blank ones enter */
static void ref_rows_up(struct view *v, unsigned int from, unsigned int to, uint32_t n, bool sb)
{
	struct cell (*g)[XM] = act(v);
	unsigned int i, h = to - from + 1;

	if (n > h)
		n = h;
	n = vp_concrete(n);
	sb = vp_concrete(sb && !(v->flags & TSM_SCREEN_ALTERNATE));
	if (sb)
		for (i = 0; i < n; ++i)
			ref_push(v, g[from + i]);
	if (n) {
		ref_sel_up(v, &v->s0, from, to, n, sb);
		ref_sel_up(v, &v->s1, from, to, n, sb);
	}
	for (i = from; i <= to; ++i)
		if (i + n <= to)
			memcpy(g[i], g[i + n], sizeof(g[i]));
		else
			ref_blank_row(v, g[i]);
}

static void ref_rows_down(struct view *v, unsigned int from, unsigned int to, uint32_t n)
{
	struct cell (*g)[XM] = act(v);
	unsigned int i, h = to - from + 1;

	if (n > h)
		n = h;
	n = vp_concrete(n);
	for (i = to + 1; i-- > from; )
		if (i >= from + n)
			memcpy(g[i], g[i - n], sizeof(g[i]));
		else
			ref_blank_row(v, g[i]);
	if (n) {
		ref_sel_down(v, &v->s0, from, to, n);
		ref_sel_down(v, &v->s1, from, to, n);
	}
}

/* erase the cells of the reading-order interval [first, last] */
static void ref_erase(struct view *v, unsigned int x0, unsigned int y0, unsigned int x1, unsigned int y1, bool protect)
{
	struct cell (*g)[XM] = act(v);
	unsigned int i, j, k, a = y0 * v->sx + x0, b = y1 * v->sx + x1;

	for (i = 0; i < v->sy; ++i)
		for (j = 0; j < v->sx; ++j) {
			k = i * v->sx + j;
			if (k >= a && k <= b && !(protect && g[i][j].attr.protect))
				blank(&g[i][j], &v->def);
		}
}
#endif
