/* tsm_screen_selection_copy against a plain reading of the selected cells. */
#include "s_common.h"

static struct view v, g;
static char exp[(SBN + YM) * (4 * XM + 1) + 1];

struct end { unsigned int line, x; };

static struct end at(const struct sp *p)
{
	struct end e = { 0, 0 };

	if (p->kind != P_TOP) {
		e.line = p->kind == P_SB ? p->idx : v.sbn + p->idx;
		e.x = vp_concrete(p->x < v.sx ? p->x : v.sx - 1);
	}
	return e;
}

static unsigned int enc(uint32_t c, char *o)
{
	if (c < 0x80) {
		o[0] = c;
		return 1;
	} else if (c < 0x800) {
		o[0] = 0xc0 | c >> 6;
		o[1] = 0x80 | (c & 0x3f);
		return 2;
	} else if (c < 0x10000) {
		if ((c >= 0xd800 && c <= 0xdfff) || (c >= 0xfdd0 && c <= 0xfdef) || (c & 0xffff) >= 0xfffe)
			return 0;
		o[0] = 0xe0 | c >> 12;
		o[1] = 0x80 | (c >> 6 & 0x3f);
		o[2] = 0x80 | (c & 0x3f);
		return 3;
	} else if (c <= 0x10ffff) {
		if ((c & 0xffff) >= 0xfffe)
			return 0;
		o[0] = 0xf0 | c >> 18;
		o[1] = 0x80 | (c >> 12 & 0x3f);
		o[2] = 0x80 | (c >> 6 & 0x3f);
		o[3] = 0x80 | (c & 0x3f);
		return 4;
	}
	return 0;
}

int main(void)
{
	struct end a, b, t;
	unsigned int l, x, n = 0, len, to, from, size;
	struct cell *c;
	char *out = (char *)&v;
	int r;

	mk_screen();
	pick_flags(FLAGS_MASK);
	if (SBN)
		pick_sb_pos();
	pick_sel();
	view(&v);
	r = tsm_screen_selection_copy(con, &out);
	if (!v.sel) {
		vp_reach("no selection");
		vp_assert(r == -ENOENT && out == (char *)&v, "without a selection nothing is copied");
	} else if (v.s0.kind == P_TOP && v.s1.kind == P_TOP) {
		vp_reach("selection scrolled out");
		vp_assert(r == 0 && out && !*out, "a selection whose text is gone is empty");
		free(out);
	} else {
		a = at(&v.s0);
		b = at(&v.s1);
		if (v.s1.kind == P_TOP || (v.s0.kind != P_TOP && (b.line < a.line || (b.line == a.line && b.x < a.x)))) {
			t = a;
			a = b;
			b = t;
		}
#if SBN
		if (a.line < v.sbn && b.line >= v.sbn)
			vp_reach("from scrollback to screen");
#endif
		for (l = a.line; l <= b.line; ++l) {
			c = l < v.sbn ? v.sb[l].c : act(&v)[l - v.sbn];
			size = l < v.sbn ? v.sb[l].size : con->lines[l - v.sbn]->size;
			from = l == a.line ? a.x : 0;
			to = l == b.line ? b.x : v.sx - 1;
			/* trailing empty cells are not copied */
			len = 0;
			for (x = 0; x < size; ++x)
				if ((l < v.sbn ? c[x].ch : con->lines[l - v.sbn]->cells[x].ch))
					len = x + 1;
			if (from > len)
				continue;
			for (x = from; x <= to && x < len; ++x) {
				if (!c[x].width)
					continue;
				n += enc(c[x].ch ? c[x].ch : ' ', exp + n);
			}
			exp[n++] = '\n';
		}
		if (n)
			--n;
		exp[n] = 0;
		vp_assert(r == (int)n, "length of the copied text");
		for (x = 0; x < n && (int)x < r; ++x)
			vp_assert(out[x] == exp[x], "the copied text is the text of the selected cells");
		vp_assert(out[r] == 0, "the copy is a string");
		free(out);
	}
	view(&g);
	cmp_all(&v, &g);
	vp_assert(tsm_screen_selection_copy(NULL, &out) == -EINVAL && tsm_screen_selection_copy(con, NULL) == -EINVAL, "missing arguments");
	vp_done();
	return 0;
}
