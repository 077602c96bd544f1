/* tsm_screen_draw on an arbitrary screen: exactly one call per cell, in reading
 * order, showing the scrollback from the view position on and then the rows of
 * the active screen, with cursor, inverse mode and selection applied. */
#include "s_common.h"

static struct view v, g;
static unsigned int calls;
static int ret;
static const struct tsm_symbol_table *tab;

/* reading-order key of a selection endpoint; 0: before everything */
static uint64_t key(const struct sp *p)
{
	uint64_t line;

	if (p->kind == P_TOP)
		return 0;
	line = p->kind == P_SB ? p->idx : v.sbn + p->idx;
	return line * v.sx + (p->x < v.sx ? p->x : v.sx - 1) + 1;
}

static int cb(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int width,
	      unsigned int x, unsigned int y, const struct tsm_screen_attr *attr, tsm_age_t age, void *data)
{
	unsigned int doc, off;
	struct cell e;
	uint64_t a, b, k, eid;
	bool sb, inv, hi = false;
	tsm_age_t eage;
	struct line *l;

	vp_assert(data == &calls && c == con, "the callback gets its data");
	vp_assert(x == calls % v.sx && y == calls / v.sx && y < v.sy, "cells are drawn once each in reading order");
	doc = (v.pos >= 0 ? v.pos : v.sbn) + y;
	off = x;
	sb = doc < v.sbn;
	eage = 0;
	if (sb) {
		unsigned int i;

		for (l = con->sb_first, i = 0; i < doc; ++i)
			l = l->next;
		if (x < v.sb[doc].size) {
			e = v.sb[doc].c[x];
		} else {
			blank(&e, &v.def);
			e.age = con->age_cnt;
		}
	} else {
		l = con->lines[doc - v.sbn];
		e = act(&v)[doc - v.sbn][x];
	}
	(void)off;
	inv = e.attr.inverse;
	if (!sb && doc - v.sbn == v.cy && x == (v.cx < v.sx ? v.cx : v.sx - 1) && !(v.flags & TSM_SCREEN_HIDE_CURSOR))
		inv = !inv;
	if (v.flags & TSM_SCREEN_INVERSE)
		inv = !inv;
	if (v.sel) {
		a = key(&v.s0);
		b = key(&v.s1);
		k = (uint64_t)doc * v.sx + x + 1;
		hi = ((a <= k) & (k <= b)) | ((b <= k) & (k <= a));
	}
	inv = inv ^ hi;
	e.attr.inverse = inv;
	vp_assert(attr_eq(&e.attr, attr), "attributes, inverted for cursor, inverse mode and selection");
	vp_assert(width == e.width, "width of the cell");
	if (e.ch == 0)
		vp_assert(len == 0, "an empty cell has no character");
	else if (e.ch == ' ')
		vp_assert(len == (attr->underline ? 1 : 0) && (!len || *ch == ' '), "a blank is only drawn underlined");
	else
		vp_assert(len == 1 && *ch == e.ch, "the character of the cell");
	eid = e.ch | (uint64_t)attr->bold << 31 | (uint64_t)attr->italic << 32 | (uint64_t)attr->underline << 33 |
	      (uint64_t)attr->inverse << 34 | (uint64_t)attr->blink << 35;
	vp_assert(TSM_UCS4_MAX_BITS == 31 && id == eid, "the id tells differently looking cells apart");
	eage = e.age > l->age ? e.age : l->age;
	eage = eage > con->age ? eage : con->age;
	vp_assert(age == (data && con->age_reset ? 0 : eage), "age of the cell");
	++calls;
	return ret;
}

int main(void)
{
	tsm_age_t r;
	bool wrapped;

	mk_screen();
	pick_cursor();
	pick_flags(FLAGS_MASK);
	if (SBN)
		pick_sb_pos();
#ifdef SEL
	pick_sel();
#endif
	con->age_reset = wrapped = vp_concrete(vp_bool());
	ret = vp_bool() ? -1 : 0;
	view(&v);
	r = tsm_screen_draw(con, cb, &calls);
	vp_assert(calls == v.sx * v.sy, "every cell is drawn");
	vp_assert(r == (wrapped ? 0 : con->age_cnt), "draw returns the current age, 0 after an overflow");
	vp_assert(!con->age_reset, "an overflow is reported once");
	view(&g);
	cmp_all(&v, &g);
	vp_assert(tsm_screen_draw(NULL, cb, NULL) == 0 && tsm_screen_draw(con, NULL, NULL) == 0, "nothing to draw");
	(void)tab;
	vp_done();
	return 0;
}
