/* Two emulators on twin screens: the real one (vte on screen A) and an
 * independent reference (struct ref on screen B).  The reference is written
 * from the documented behaviour (ECMA-48, DEC, xterm) and drives screen B only
 * through the public screen operations, so what is compared is the effect on
 * the screen, what was sent to the application and what the callbacks saw. */
#ifndef V_REF_H
#define V_REF_H
#include <stdarg.h>
#include "vp.h"
#include "libtsm.h"
#include "libtsm-int.h"

#ifndef X
#define X 4
#endif
#ifndef Y
#define Y 3
#endif
#define LOGMAX 400

struct log {
	unsigned int n;
	uint8_t b[LOGMAX];
};

struct rattr {			/* a colour is a palette index or RGB */
	int fc, bc;		/* -1: RGB */
	uint8_t f[3], b[3];
	bool bold, italic, under, inverse, blink;
};

enum { R_GROUND, R_ESC, R_ESCI, R_CSI0, R_CSIP, R_CSII, R_CSIX, R_STR, R_OSC };
enum { CS_ASCII, CS_UPPER, CS_SPECIAL, CS_SUPPL };

#define M_BANG	1
#define M_DOLLAR 2
#define M_QUEST	4
#define M_GT	8
#define M_SPACE	16
#define M_DQUOTE 64
#define M_STAR	128
#define M_PLUS	256
#define M_OPEN	512
#define M_CLOSE	1024
#define M_OTHER	2048

struct ref {
	struct tsm_screen *con;
	struct log out, osc, mouse;
	uint8_t pal[TSM_COLOR_NUM][3];
	unsigned int state, inter, argc;
	int argv[16];
	unsigned int flags;
	struct rattr at, sat;
	unsigned int g[4], gl, gr, ss;	/* ss: 0 or the set shifted in for one character */
	unsigned int sgl, sgr, sx, sy;
	bool swrap, sorigin;
	unsigned int ax, ay;
	unsigned int mmode, mevent, mlx, mly;
	bool mouse_cb, osc_full, bsdel;
	uint8_t oscb[128];
	unsigned int oscn;
	unsigned int need;		/* UTF-8 decoder: bytes missing, code so far, bounds of the next byte */
	uint32_t acc;
	uint8_t lo, hi;
};

static struct tsm_screen *scrA, *scrB;
static struct tsm_vte *vte;
static struct ref R;
static struct log outA, oscA, mouseA;

static void log_put(struct log *l, const char *s, size_t n)
{
	size_t i;

	for (i = 0; i < n; ++i) {
		vp_bound(l->n < LOGMAX, "log capacity");
		l->b[l->n++] = s[i];
	}
}

static void log_cmp(const struct log *e, const struct log *g, int what)
{
	unsigned int i;

	if (what == 0)
		vp_assert(e->n == g->n, "number of bytes sent to the application");
	else if (what == 1)
		vp_assert(e->n == g->n, "operating system commands reported");
	else
		vp_assert(e->n == g->n, "mouse tracking changes reported");
	for (i = 0; i < e->n; ++i) {
		if (what == 0)
			vp_assert(e->b[i] == g->b[i], "bytes sent to the application");
		else if (what == 1)
			vp_assert(e->b[i] == g->b[i], "content of an operating system command");
		else
			vp_assert(e->b[i] == g->b[i], "content of a mouse tracking report");
	}
}

static void wr_cb(struct tsm_vte *v, const char *s, size_t n, void *data)
{
	vp_assert(data == &outA, "the write callback gets its data pointer");
	log_put(&outA, s, n);
}

static void osc_put(struct log *l, const char *s, size_t n)
{
	uint8_t k = n;

	log_put(l, (char *)&k, 1);
	log_put(l, s, n);
}

static void osc_cb(struct tsm_vte *v, const char *s, size_t n, void *data)
{
	vp_assert(data == &oscA, "the osc callback gets its data pointer");
	vp_assert(n <= 127, "an operating system command is at most 127 bytes");
	vp_assert(s[n] == 0, "an operating system command is terminated");
	osc_put(&oscA, s, n);
}

#ifdef LOGGED
/* a message is complete: its arguments fit its format and every string is readable */
static unsigned int nlog;

static void log_cb(void *data, const char *file, int line, const char *func, const char *subs, unsigned int sev,
		   const char *format, va_list args)
{
	char buf[256];
	int n;

	vp_assert(data == &nlog, "the log function gets its data pointer");
	vp_assert(sev <= 7, "a severity");
	vp_assert(file && *file && func && *func && line > 0, "the place of the message");
	vp_assert(!subs || *subs, "the subsystem");
	vp_assert(format && *format, "a format");
	n = vsnprintf(buf, sizeof(buf), format, args);
	vp_assert(n > 0 && n < (int)sizeof(buf), "a message of moderate length");
#ifdef SOME_LOG
	if (sev == 7)
		vp_reach("a debug message");
#endif
	++nlog;
}
#endif

static enum tsm_mouse_track_mode told_track;
static bool told_pixel;

static void mouse_put(struct log *l, unsigned int ev, bool px)
{
	char b[2] = { ev == 0 ? 0 : ev == TSM_MOUSE_TRACK_BTN ? 1 : ev == TSM_MOUSE_TRACK_ANY ? 2 : 3, px };

	log_put(l, b, 2);
}

static void mouse_cb(struct tsm_vte *v, enum tsm_mouse_track_mode m, bool px, void *data)
{
	vp_assert(data == &mouseA, "the mouse callback gets its data pointer");
	mouse_put(&mouseA, m, px);
	told_track = m;
	told_pixel = px;
}

/* what the terminal was told last fits what the emulator would report now */
static void told_right(void)
{
	unsigned int mode = tsm_vte_get_mouse_mode(vte), ev = tsm_vte_get_mouse_event(vte);

	if (mode == TSM_VTE_MOUSE_MODE_X10)
		vp_assert(told_track == TSM_MOUSE_TRACK_BTN && !told_pixel, "the terminal was told to track clicks");
	else if (!ev)
		vp_assert(told_track == TSM_MOUSE_TRACK_DISABLE, "the terminal was told to stop tracking");
	else if (mode)
		vp_assert((unsigned int)told_track == ev && told_pixel == (mode == TSM_VTE_MOUSE_MODE_PIXEL), "the terminal was told what to track");
}

/* ---- colours ---------------------------------------------------------------- */

static const uint8_t pal_legacy[TSM_COLOR_NUM][3] = {
	{ 0, 0, 0 }, { 205, 0, 0 }, { 0, 205, 0 }, { 205, 205, 0 }, { 0, 0, 238 }, { 205, 0, 205 }, { 0, 205, 205 },
	{ 229, 229, 229 }, { 127, 127, 127 }, { 255, 0, 0 }, { 0, 255, 0 }, { 255, 255, 0 }, { 92, 92, 255 },
	{ 255, 0, 255 }, { 0, 255, 255 }, { 255, 255, 255 }, { 229, 229, 229 }, { 0, 0, 0 },
};

static void attr_default(struct ref *r, struct rattr *a)
{
	memset(a, 0, sizeof(*a));
	a->fc = TSM_COLOR_FOREGROUND;
	a->bc = TSM_COLOR_BACKGROUND;
}

static struct tsm_screen_attr attr_out(struct ref *r, const struct rattr *a)
{
	struct tsm_screen_attr o;
	unsigned int c;

	memset(&o, 0, sizeof(o));
	o.fccode = a->fc;
	o.bccode = a->bc;
	if (a->fc >= 0) {
		c = a->fc + ((a->bold && a->fc < 8) ? 8 : 0);
		o.fr = r->pal[c][0];
		o.fg = r->pal[c][1];
		o.fb = r->pal[c][2];
	} else {
		o.fr = a->f[0];
		o.fg = a->f[1];
		o.fb = a->f[2];
	}
	if (a->bc >= 0) {
		o.br = r->pal[a->bc][0];
		o.bg = r->pal[a->bc][1];
		o.bb = r->pal[a->bc][2];
	} else {
		o.br = a->b[0];
		o.bg = a->b[1];
		o.bb = a->b[2];
	}
	o.bold = a->bold;
	o.italic = a->italic;
	o.underline = a->under;
	o.inverse = a->inverse;
	o.blink = a->blink;
	return o;
}

static void r_erase_attr(struct ref *r)
{
	struct tsm_screen_attr a = attr_out(r, &r->at);

	tsm_screen_set_def_attr(r->con, &a);
}

/* ---- reset ---------------------------------------------------------------------- */

static void r_soft(struct ref *r)
{
	tsm_screen_reset(r->con);
	tsm_screen_set_flags(r->con, TSM_SCREEN_AUTO_WRAP);
	r->flags = TSM_VTE_FLAG_TEXT_CURSOR_MODE | TSM_VTE_FLAG_AUTO_REPEAT_MODE | TSM_VTE_FLAG_SEND_RECEIVE_MODE |
		TSM_VTE_FLAG_AUTO_WRAP_MODE | TSM_VTE_FLAG_BACKGROUND_COLOR_ERASE_MODE;
	r->state = R_GROUND;
	r->need = 0;
	r->g[0] = r->g[2] = CS_ASCII;
	r->g[1] = r->g[3] = CS_UPPER;
	r->gl = 0;
	r->gr = 1;
	r->ss = 0;
	if (r->mouse_cb && r->mevent)
		mouse_put(&r->mouse, 0, false);
	r->mmode = r->mevent = 0;
	r->mlx = r->mly = 0;
	attr_default(r, &r->at);
	r_erase_attr(r);
	attr_default(r, &r->sat);
	r->sgl = 0;
	r->sgr = 1;
	r->sx = r->sy = 0;
	r->ax = r->ay = 0;
	r->swrap = true;
	r->sorigin = false;
}

static void r_hard(struct ref *r)
{
	r_soft(r);
	tsm_screen_erase_screen(r->con, false);
	tsm_screen_clear_sb(r->con);
	tsm_screen_move_to(r->con, 0, 0);
}

static void r_new(struct ref *r, struct tsm_screen *con)
{
	memset(r, 0, sizeof(*r));
	r->con = con;
	memcpy(r->pal, pal_legacy, sizeof(r->pal));
	r_soft(r);
	tsm_screen_erase_screen(con, false);
}

/* ---- printing --------------------------------------------------------------------- */

/* DEC special graphics, 0x5f..0x7e */
static const uint32_t special[32] = {
	0, 0x2666, 0x2592, 0x2409, 0x240c, 0x240d, 0x240a, 0xb0, 0xb1, 0x2424, 0x240b, 0x2518, 0x2510, 0x250c, 0x2514,
	0x253c, 0x23ba, 0x23bb, 0x2500, 0x23bc, 0x23bd, 0x251c, 0x2524, 0x2534, 0x252c, 0x2502, 0x2264, 0x2265, 0x3c0,
	0x2260, 0xa3, 0x22c5,
};

static uint32_t r_glyph(unsigned int set, uint32_t low)	/* low: 1..94 */
{
	switch (set) {
	case CS_ASCII:
		return low + 0x20;
	case CS_UPPER:
		return low + 0xa0;
	case CS_SPECIAL:
		return low + 0x20 >= 0x5f ? special[low + 0x20 - 0x5f] : low + 0x20;
	default:
		switch (low + 0xa0) {
		case 0xa8: return 0xa4;
		case 0xd7: return 0x152;
		case 0xdd: return 0x178;
		case 0xf7: return 0x153;
		case 0xfd: return 0xff;
		case 0xa4: case 0xa6: case 0xac: case 0xad: case 0xae: case 0xaf: case 0xb4: case 0xb8: case 0xbe:
		case 0xd0: case 0xde: case 0xf0: case 0xfe:
			return 0;
		}
		return low + 0xa0;
	}
}

static void r_put(struct ref *r, uint32_t c)
{
	struct tsm_screen_attr a = attr_out(r, &r->at);

	tsm_screen_write(r->con, c, &a);
}

static void r_print(struct ref *r, uint32_t c)
{
	if (c >= 33 && c <= 126) {
		c = r_glyph(r->g[r->ss ? r->ss : r->gl], c - 32);
		r->ss = 0;
	} else if (c >= 161 && c <= 254) {
		c = r_glyph(r->g[r->gr], c - 160);
	}
	r_put(r, c);
}

static void r_send(struct ref *r, const char *s)
{
	log_put(&r->out, s, strlen(s));
}

/* ---- control functions --------------------------------------------------------------- */

static void r_control(struct ref *r, uint32_t c)
{
	switch (c) {
	case 0x05:
		r_send(r, "\x06");
		break;
	case 0x08:
		tsm_screen_move_left(r->con, 1);
		break;
	case 0x09:
		tsm_screen_tab_right(r->con, 1);
		break;
	case 0x0a: case 0x0b: case 0x0c:
		if (r->flags & TSM_VTE_FLAG_LINE_FEED_NEW_LINE_MODE)
			tsm_screen_newline(r->con);
		else
			tsm_screen_move_down(r->con, 1, true);
		break;
	case 0x0d:
		tsm_screen_move_line_home(r->con);
		break;
	case 0x0e:
		r->gl = 1;
		break;
	case 0x0f:
		r->gl = 0;
		break;
	case 0x1a:
		r_put(r, 0xbf);
		break;
	case 0x84:
		tsm_screen_move_down(r->con, 1, true);
		break;
	case 0x85:
		tsm_screen_newline(r->con);
		break;
	case 0x88:
		tsm_screen_set_tabstop(r->con);
		break;
	case 0x8d:
		tsm_screen_move_up(r->con, 1, true);
		break;
	case 0x8e:
		r->ss = 2;
		break;
	case 0x8f:
		r->ss = 3;
		break;
	case 0x9a:
		r_send(r, "\x1b[?60;1;6;9;15c");
		break;
	}
}

static void r_save(struct ref *r)
{
	r->sx = tsm_screen_get_cursor_x(r->con);
	r->sy = tsm_screen_get_cursor_y(r->con);
	r->sat = r->at;
	r->sgl = r->gl;
	r->sgr = r->gr;
	r->swrap = r->flags & TSM_VTE_FLAG_AUTO_WRAP_MODE;
	r->sorigin = r->flags & TSM_VTE_FLAG_ORIGIN_MODE;
}

static void r_flag(struct ref *r, bool set, unsigned int f)
{
	r->flags = set ? r->flags | f : r->flags & ~f;
}

static void r_scr(struct ref *r, bool set, unsigned int f)
{
	if (set)
		tsm_screen_set_flags(r->con, f);
	else
		tsm_screen_reset_flags(r->con, f);
}

/* to an absolute position of the screen, whatever the origin mode is */
static void r_goto(struct ref *r, unsigned int x, unsigned int y)
{
	bool rel = tsm_screen_get_flags(r->con) & TSM_SCREEN_REL_ORIGIN;

	tsm_screen_reset_flags(r->con, TSM_SCREEN_REL_ORIGIN);
	tsm_screen_move_to(r->con, x, y);
	if (rel)
		tsm_screen_set_flags(r->con, TSM_SCREEN_REL_ORIGIN);
}

static void r_restore(struct ref *r)
{
	r_goto(r, r->sx, r->sy);
	r->at = r->sat;
	r_erase_attr(r);
	r->gl = r->sgl;
	r->gr = r->sgr;
	r_flag(r, r->swrap, TSM_VTE_FLAG_AUTO_WRAP_MODE);
	r_scr(r, r->swrap, TSM_SCREEN_AUTO_WRAP);
	r_flag(r, r->sorigin, TSM_VTE_FLAG_ORIGIN_MODE);
	r_scr(r, r->sorigin, TSM_SCREEN_REL_ORIGIN);
}

static int r_designate(struct ref *r)
{
	switch (r->inter) {
	case M_OPEN: return 0;
	case M_CLOSE: return 1;
	case M_STAR: return 2;
	case M_PLUS: return 3;
	}
	return -1;
}

static void r_esc(struct ref *r, uint32_t c)
{
	int set = r_designate(r);

	if (set >= 0) {
		if (c == 'B')
			r->g[set] = CS_ASCII;
		else if (c == '0')
			r->g[set] = CS_SPECIAL;
		else if (c == '<')
			r->g[set] = CS_SUPPL;
		else /* national sets are not modelled */
			vp_assume(!(c == 'A' || (c >= '4' && c <= '7') || c == '=' || c == 'C' || c == 'E' || c == 'H' ||
				    c == 'K' || c == 'Q' || c == 'R' || c == 'Y' || c == 'Z'));
		return;
	}
	if (r->inter == M_SPACE) {
		if (c == 'F')
			r_flag(r, false, TSM_VTE_FLAG_USE_C1);
		else if (c == 'G')
			r_flag(r, true, TSM_VTE_FLAG_USE_C1);
		return;
	}
	if (r->inter) {
		/* several intermediates: no such function */
		vp_assume((r->inter & (r->inter - 1)) == 0);
		return;
	}
	switch (c) {
	case 'D': case 'E': case 'H': case 'M': case 'N': case 'O': case 'Z':
		r_control(r, c + 0x40);		/* 7-bit form of a C1 control */
		break;
	case '~':
		r->gr = 1;
		break;
	case 'n':
		r->gl = 2;
		break;
	case '}':
		r->gr = 2;
		break;
	case 'o':
		r->gl = 3;
		break;
	case '|':
		r->gr = 3;
		break;
	case '=':
		r_flag(r, true, TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE);
		break;
	case '>':
		r_flag(r, false, TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE);
		break;
	case 'c':
		r_hard(r);
		break;
	case '7':
		r_save(r);
		break;
	case '8':
		r_restore(r);
		break;
	}
}

static void r_rgb(struct ref *r, bool fg, int red, int green, int blue)
{
	uint8_t v[3] = { red, green, blue };

	if (fg) {
		r->at.fc = -1;
		memcpy(r->at.f, v, 3);
	} else {
		r->at.bc = -1;
		memcpy(r->at.b, v, 3);
	}
}

static void r_sgr(struct ref *r)
{
	unsigned int i, n = r->argc;
	int p;

	for (i = 0; i < n; ++i) {
		p = r->argv[i];
		if (p == -1) {
			if (n == 1)
				p = 0;
			else
				continue;
		}
		if (p == 0)
			attr_default(r, &r->at);
		else if (p == 1 || p == 22)
			r->at.bold = p < 20;
		else if (p == 3 || p == 23)
			r->at.italic = p < 20;
		else if (p == 4 || p == 24)
			r->at.under = p < 20;
		else if (p == 5 || p == 25)
			r->at.blink = p < 20;
		else if (p == 7 || p == 27)
			r->at.inverse = p < 20;
		else if (p >= 30 && p <= 37)
			r->at.fc = p - 30;
		else if (p >= 40 && p <= 47)
			r->at.bc = p - 40;
		else if (p >= 90 && p <= 97)
			r->at.fc = p - 90 + 8;
		else if (p >= 100 && p <= 107)
			r->at.bc = p - 100 + 8;
		else if (p == 39)
			r->at.fc = TSM_COLOR_FOREGROUND;
		else if (p == 49)
			r->at.bc = TSM_COLOR_BACKGROUND;
		else if (p == 38 || p == 48) {
			int t = i + 1 < n ? r->argv[i + 1] : -1;

			if (t == 5 && i + 2 < n && r->argv[i + 2] >= 0) {
				int k = r->argv[i + 2];

				i += 2;
				if (k < 16) {
					if (p == 38)
						r->at.fc = k;
					else
						r->at.bc = k;
				} else if (k < 232) {
					static const uint8_t lv[6] = { 0, 95, 135, 175, 215, 255 };

					k -= 16;
					r_rgb(r, p == 38, lv[k / 36], lv[k / 6 % 6], lv[k % 6]);
				} else if (k < 256) {
					k = 8 + 10 * (k - 232);
					r_rgb(r, p == 38, k, k, k);
				}
			} else if (t == 2 && i + 4 < n && r->argv[i + 2] >= 0 && r->argv[i + 3] >= 0 &&
				   r->argv[i + 4] >= 0) {
				if (r->argv[i + 2] < 256 && r->argv[i + 3] < 256 && r->argv[i + 4] < 256)
					r_rgb(r, p == 38, r->argv[i + 2], r->argv[i + 3], r->argv[i + 4]);
				i += 4;
			}
			/* malformed: the rest is taken as ordinary attributes */
		}
	}
	r_erase_attr(r);
}

static void r_mouse_set(struct ref *r, bool set, int p)
{
	switch (p) {
	case 9:
		r->mmode = set ? 9 : 0;
		r->mevent = set ? TSM_MOUSE_TRACK_BTN : 0;
		if (r->mouse_cb)
			mouse_put(&r->mouse, r->mevent, false);
		break;
	case 1002:
	case 1003:
		if (r->mmode == 9)
			r->mevent = TSM_MOUSE_TRACK_BTN;
		else
			r->mevent = set ? p : 0;
		if (r->mouse_cb && (r->mmode || !set))
			mouse_put(&r->mouse, r->mevent, r->mmode == 1016);
		break;
	case 1006:
	case 1016:
		r->mmode = set ? p : 0;
		if (r->mouse_cb && (!set || r->mevent))
			mouse_put(&r->mouse, r->mevent, set && p == 1016);
		break;
	}
}

static void r_mode(struct ref *r, bool set, bool dec, int p)
{
	if (!dec) {
		switch (p) {
		case 2:
			r_flag(r, set, TSM_VTE_FLAG_KEYBOARD_ACTION_MODE);
			break;
		case 4:
			r_flag(r, set, TSM_VTE_FLAG_INSERT_REPLACE_MODE);
			r_scr(r, set, TSM_SCREEN_INSERT_MODE);
			break;
		case 12:
			r_flag(r, set, TSM_VTE_FLAG_SEND_RECEIVE_MODE);
			break;
		case 20:
			r_flag(r, set, TSM_VTE_FLAG_LINE_FEED_NEW_LINE_MODE);
			break;
		}
		return;
	}
	switch (p) {
	case 1:
		r_flag(r, set, TSM_VTE_FLAG_CURSOR_KEY_MODE);
		break;
	case 5:
		r_flag(r, set, TSM_VTE_FLAG_INVERSE_SCREEN_MODE);
		r_scr(r, set, TSM_SCREEN_INVERSE);
		break;
	case 6:
		r_flag(r, set, TSM_VTE_FLAG_ORIGIN_MODE);
		r_scr(r, set, TSM_SCREEN_REL_ORIGIN);
		break;
	case 7:
		r_flag(r, set, TSM_VTE_FLAG_AUTO_WRAP_MODE);
		r_scr(r, set, TSM_SCREEN_AUTO_WRAP);
		break;
	case 8:
		r_flag(r, set, TSM_VTE_FLAG_AUTO_REPEAT_MODE);
		break;
	case 25:
		r_flag(r, set, TSM_VTE_FLAG_TEXT_CURSOR_MODE);
		r_scr(r, !set, TSM_SCREEN_HIDE_CURSOR);
		break;
	case 42:
		r_flag(r, set, TSM_VTE_FLAG_NATIONAL_CHARSET_MODE);
		break;
	case 47:
		r_scr(r, set, TSM_SCREEN_ALTERNATE);
		break;
	case 1047:
		if (!set && (tsm_screen_get_flags(r->con) & TSM_SCREEN_ALTERNATE))
			tsm_screen_erase_screen(r->con, false);
		r_scr(r, set, TSM_SCREEN_ALTERNATE);
		break;
	case 1048:
	case 1049:
		if (set) {
			r->ax = tsm_screen_get_cursor_x(r->con);
			r->ay = tsm_screen_get_cursor_y(r->con);
			if (p == 1049) {
				r_scr(r, true, TSM_SCREEN_ALTERNATE);
				tsm_screen_erase_screen(r->con, false);
			}
		} else {
			if (p == 1049)
				r_scr(r, false, TSM_SCREEN_ALTERNATE);
			r_goto(r, r->ax, r->ay);
		}
		break;
	case 9: case 1002: case 1003: case 1006: case 1016:
		r_mouse_set(r, set, p);
		break;
	}
}

static void r_num(struct ref *r, unsigned int v)
{
	static const unsigned int p10[10] = { 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000 };
	unsigned int i, n = 1;
	char c;

	while (n < 10 && v >= p10[n])
		++n;
	for (i = n; i-- > 0; ) {
		c = '0' + v / p10[i] % 10;
		log_put(&r->out, &c, 1);
	}
}

/* first parameter; missing and zero mean one */
static int r_count(struct ref *r)
{
	return r->argv[0] <= 0 ? 1 : r->argv[0];
}

static void r_csi(struct ref *r, uint32_t c)
{
	unsigned int i, x, y;
	int a = r->argv[0], n = r_count(r);
	struct tsm_screen *s = r->con;
	bool rel = r->flags & TSM_VTE_FLAG_ORIGIN_MODE;

	/* private markers and intermediates select other functions, which are
	 * ignored unless known */
	switch (c) {
	case 'J': case 'K': case 'h': case 'l': case 'n':
		if (r->inter & ~M_QUEST)
			return;
		break;
	case 'c':
		if (r->inter & ~M_GT)
			return;
		break;
	case 'p':
		if (r->inter != 0 && r->inter != M_GT && r->inter != M_BANG && r->inter != M_DQUOTE)
			return;
		break;
	default:
		if (r->inter)
			return;
	}
	switch (c) {
	case 'A':
		tsm_screen_move_up(s, n, false);
		break;
	case 'B':
		tsm_screen_move_down(s, n, false);
		break;
	case 'C':
		tsm_screen_move_right(s, n);
		break;
	case 'D':
		tsm_screen_move_left(s, n);
		break;
	case 'E':
		tsm_screen_move_down(s, n, false);
		tsm_screen_move_line_home(s);
		break;
	case 'F':
		tsm_screen_move_up(s, n, false);
		tsm_screen_move_line_home(s);
		break;
	case 'G':
		r_goto(r, n - 1, tsm_screen_get_cursor_y(s));
		break;
	case 'd':
		tsm_screen_move_to(s, tsm_screen_get_cursor_x(s), n - 1);
		break;
	case 'e':
		y = tsm_screen_get_cursor_y(s) + n;
		if (rel && y < s->margin_top)
			y = s->margin_top;
		if (rel && y > s->margin_bottom)
			y = s->margin_bottom;
		r_goto(r, tsm_screen_get_cursor_x(s), y);
		break;
	case 'H': case 'f':
		tsm_screen_move_to(s, (r->argv[1] <= 0 ? 1 : r->argv[1]) - 1, n - 1);
		break;
	case 'J':
		if (a <= 0)
			tsm_screen_erase_cursor_to_screen(s, r->inter);
		else if (a == 1)
			tsm_screen_erase_screen_to_cursor(s, r->inter);
		else if (a == 2)
			tsm_screen_erase_screen(s, r->inter);
		break;
	case 'K':
		if (a <= 0)
			tsm_screen_erase_cursor_to_end(s, r->inter);
		else if (a == 1)
			tsm_screen_erase_home_to_cursor(s, r->inter);
		else if (a == 2)
			tsm_screen_erase_current_line(s, r->inter);
		break;
	case 'X':
		tsm_screen_erase_chars(s, n);
		break;
	case 'm':
		r_sgr(r);
		break;
	case 'p':
		r_soft(r);
		if (r->inter == 0 || r->inter == M_DQUOTE) {
			if (a == 61) {
				r_flag(r, true, TSM_VTE_FLAG_7BIT_MODE);
				r->g[1] = CS_SUPPL;
			} else if (a >= 62 && a <= 64) {
				r_flag(r, true, TSM_VTE_FLAG_8BIT_MODE);
				if (r->argv[1] == 1 || r->argv[1] == 2)
					r_flag(r, true, TSM_VTE_FLAG_USE_C1);
				r->g[1] = CS_SUPPL;
			}
		}
		break;
	case 'h': case 'l':
		for (i = 0; i < r->argc; ++i)
			r_mode(r, c == 'h', r->inter & M_QUEST, r->argv[i]);
		break;
	case 'r':
		tsm_screen_set_margins(s, a < 0 ? 0 : a, r->argv[1] < 0 ? 0 : r->argv[1]);
		break;
	case 'c':
		if (r->argc <= 1 && a <= 0)
			r_send(r, r->inter & M_GT ? "\x1b[>1;1;0c" : "\x1b[?60;1;6;9;15c");
		break;
	case 'L':
		tsm_screen_insert_lines(s, n);
		break;
	case 'M':
		tsm_screen_delete_lines(s, n);
		break;
	case 'g':
		if (a <= 0)
			tsm_screen_reset_tabstop(s);
		else if (a == 3)
			tsm_screen_reset_all_tabstops(s);
		break;
	case '@':
		tsm_screen_insert_chars(s, n);
		break;
	case 'P':
		tsm_screen_delete_chars(s, n);
		break;
	case 'Z':
		tsm_screen_tab_left(s, n);
		break;
	case 'I':
		tsm_screen_tab_right(s, n);
		break;
	case 'n':
		if (a == 5) {
			r_send(r, "\x1b[0n");
		} else if (a == 6) {
			x = tsm_screen_get_cursor_x(s);
			y = tsm_screen_get_cursor_y(s);
			r_send(r, "\x1b[");
			r_num(r, y + 1 - (rel && y >= s->margin_top ? s->margin_top : 0));
			r_send(r, ";");
			r_num(r, (x >= s->size_x ? s->size_x - 1 : x) + 1);
			r_send(r, "R");
		}
		break;
	case 'S':
		tsm_screen_scroll_up(s, n);
		break;
	case 'T':
		tsm_screen_scroll_down(s, n);
		break;
	}
}

/* ---- parser --------------------------------------------------------------------------- */

static void r_clear(struct ref *r)
{
	unsigned int i;

	r->inter = 0;
	r->argc = 0;
	for (i = 0; i < 16; ++i)
		r->argv[i] = -1;
}

static void r_collect(struct ref *r, uint32_t c)
{
	switch (c) {
	case '!': r->inter |= M_BANG; break;
	case '$': r->inter |= M_DOLLAR; break;
	case '?': r->inter |= M_QUEST; break;
	case '>': r->inter |= M_GT; break;
	case ' ': r->inter |= M_SPACE; break;
	case '"': r->inter |= M_DQUOTE; break;
	case '*': r->inter |= M_STAR; break;
	case '+': r->inter |= M_PLUS; break;
	case '(': r->inter |= M_OPEN; break;
	case ')': r->inter |= M_CLOSE; break;
	default: r->inter |= M_OTHER;
	}
}

static void r_param(struct ref *r, uint32_t c)
{
	int *p;

	if (c == ';') {
		if (r->argc < 16)
			++r->argc;
		return;
	}
	if (r->argc >= 16)
		return;
	p = &r->argv[r->argc];
	if (*p > 0xffff)
		return;			/* too large for anything already */
	*p = (*p < 0 ? 0 : *p) * 10 + (c - '0');
}

static void r_osc_end(struct ref *r)
{
	if (r->mouse_cb)	/* callbacks installed */
		osc_put(&r->osc, (char *)r->oscb, r->oscn);
}

static void r_enter(struct ref *r, unsigned int st)
{
	if (r->state == R_OSC)
		r_osc_end(r);
	r->state = st;
	if (st == R_ESC || st == R_CSI0)
		r_clear(r);
	if (st == R_OSC) {
		r->oscn = 0;
		r->osc_full = false;
	}
}

static unsigned int r_utf8(uint32_t c, uint8_t *o)
{
	if (c < 0x80) {
		o[0] = c;
		return 1;
	}
	if (c < 0x800) {
		o[0] = 0xc0 | c >> 6;
		o[1] = 0x80 | (c & 63);
		return 2;
	}
	if (c < 0x10000) {
		o[0] = 0xe0 | c >> 12;
		o[1] = 0x80 | (c >> 6 & 63);
		o[2] = 0x80 | (c & 63);
		return 3;
	}
	o[0] = 0xf0 | c >> 18;
	o[1] = 0x80 | (c >> 12 & 63);
	o[2] = 0x80 | (c >> 6 & 63);
	o[3] = 0x80 | (c & 63);
	return 4;
}

/* one character from the application */
static void ref_char(struct ref *r, uint32_t c)
{
	/* anywhere */
	if (c == 0x18 || c == 0x1a || (c >= 0x80 && c <= 0x9f)) {
		switch (c) {
		case 0x90: case 0x98: case 0x9e: case 0x9f:
			r_enter(r, R_STR);
			return;
		case 0x9d:
			r_enter(r, R_OSC);
			return;
		case 0x9b:
			r_enter(r, R_CSI0);
			return;
		}
		r_enter(r, R_GROUND);
		r_control(r, c);
		return;
	}
	if (c == 0x1b) {
		r_enter(r, R_ESC);
		return;
	}
	if (r->state == R_STR)
		return;
	if (r->state == R_OSC) {
		if (c == 0x07) {
			r_enter(r, R_GROUND);
		} else if (c >= 0x20) {
			uint8_t b[4];
			unsigned int n = r_utf8(c, b);

			if ((c & 0xfffe) == 0xfffe || (c >= 0xfdd0 && c <= 0xfdef))
				return;		/* noncharacters have no encoding */
			if (r->oscn + n > 127)
				r->osc_full = true;
			if (!r->osc_full) {
				memcpy(r->oscb + r->oscn, b, n);
				r->oscn += n;
			}
		}
		return;
	}
	if (c < 0x20) {
		r_control(r, c);
		return;
	}
	if (r->state == R_GROUND) {
		r_print(r, c);
		return;
	}
	if (c == 0x7f)
		return;
	switch (r->state) {
	case R_ESC:
		switch (c) {
		case '[':
			r_enter(r, R_CSI0);
			return;
		case ']':
			r_enter(r, R_OSC);
			return;
		case 'P': case 'X': case '^': case '_':
			r_enter(r, R_STR);
			return;
		}
		/* fallthrough */
	case R_ESCI:
		if (c >= 0x30 && c <= 0x7e) {
			r->state = R_GROUND;
			r_esc(r, c);
		} else {
			r->state = R_ESCI;
			r_collect(r, c);
		}
		return;
	case R_CSI0: case R_CSIP: case R_CSII:
		if (c >= 0x40 && c <= 0x7e) {
			r->state = R_GROUND;
			if (r->argc < 16)
				++r->argc;
			r_csi(r, c);
		} else if (c >= 0x20 && c <= 0x2f) {
			r->state = R_CSII;
			r_collect(r, c);
		} else if (r->state != R_CSII && ((c >= '0' && c <= '9') || c == ';')) {
			r->state = R_CSIP;
			r_param(r, c);
		} else if (r->state == R_CSI0 && c >= 0x3c && c <= 0x3f) {
			r->state = R_CSIP;
			r_collect(r, c);
		} else {
			r->state = R_CSIX;
		}
		return;
	case R_CSIX:
		if (c >= 0x40 && c <= 0x7e)
			r->state = R_GROUND;
		return;
	}
}

/* ---- comparison ------------------------------------------------------------------------ */

static inline bool attr_eq(const struct tsm_screen_attr *a, const struct tsm_screen_attr *b)
{
	uint64_t p, q;
	uint32_t f, g;

	memcpy(&p, a, 8);
	memcpy(&q, b, 8);
	memcpy(&f, (const char *)a + 8, 4);
	memcpy(&g, (const char *)b + 8, 4);
	return (p == q) & (((f ^ g) & 0x3f) == 0);
}

static void cmp_screens(struct tsm_screen *a, struct tsm_screen *b)
{
	unsigned int i, j, k;
	struct line *l, *m;

	vp_assert(a->size_x == b->size_x && a->size_y == b->size_y, "screen size");
	vp_assert(a->cursor_x == b->cursor_x, "cursor column");
	vp_assert(a->cursor_y == b->cursor_y, "cursor row");
	vp_assert(a->flags == b->flags, "screen modes");
	vp_assert(a->margin_top == b->margin_top && a->margin_bottom == b->margin_bottom, "margins");
	vp_assert(attr_eq(&a->def_attr, &b->def_attr), "attributes of erased cells");
	for (j = 0; j < a->size_x; ++j)
		vp_assert(!a->tab_ruler[j] == !b->tab_ruler[j], "tab stops");
	for (k = 0; k < 2; ++k)
		for (i = 0; i < a->size_y; ++i) {
			l = k ? a->alt_lines[i] : a->main_lines[i];
			m = k ? b->alt_lines[i] : b->main_lines[i];
			for (j = 0; j < a->size_x; ++j) {
				vp_assert(l->cells[j].ch == m->cells[j].ch, "characters on the screen");
				vp_assert(l->cells[j].width == m->cells[j].width, "widths on the screen");
				vp_assert(attr_eq(&l->cells[j].attr, &m->cells[j].attr), "attributes on the screen");
			}
		}
	vp_assert(a->sb_count == b->sb_count, "scrollback lines");
	for (l = a->sb_first, m = b->sb_first; l && m; l = l->next, m = m->next)
		for (j = 0; j < l->size; ++j) {
			vp_assert(l->size == m->size, "scrollback line lengths");
			vp_assert(l->cells[j].ch == m->cells[j].ch, "scrollback characters");
			vp_assert(attr_eq(&l->cells[j].attr, &m->cells[j].attr), "scrollback attributes");
		}
}

#define FLAGS_CMP (~(unsigned int)TSM_VTE_FLAG_PREPEND_ESCAPE)

static void cmp_ref(void)
{
	vp_assert(((tsm_vte_get_flags(vte) ^ R.flags) & FLAGS_CMP) == 0, "modes");
	vp_assert(tsm_vte_get_mouse_mode(vte) == R.mmode, "mouse mode");
	vp_assert(tsm_vte_get_mouse_event(vte) == R.mevent, "mouse events");
	log_cmp(&R.out, &outA, 0);
	log_cmp(&R.osc, &oscA, 1);
	log_cmp(&R.mouse, &mouseA, 2);
#ifndef NO_CB
	told_right();
#endif
	cmp_screens(scrA, scrB);
}

/* ---- setup ------------------------------------------------------------------------------ */

static struct tsm_screen *mk_small(void)
{
	struct tsm_screen *s;

#ifdef LOGGED
	if (tsm_screen_new(&s, log_cb, &nlog))
#else
	if (tsm_screen_new(&s, NULL, NULL))
#endif
		abort();
	tsm_screen_resize(s, X, Y);
	return s;
}

/* letters everywhere, some cells protected */
static void fill(struct tsm_screen *s)
{
	unsigned int i, j, k;

	for (k = 0; k < 2; ++k)
		for (i = 0; i < Y; ++i)
			for (j = 0; j < X; ++j) {
				struct cell *c = k ? &s->alt_lines[i]->cells[j] : &s->main_lines[i]->cells[j];

				c->ch = (k ? 'a' : 'A') + i * X + j;
				c->width = 1;
				c->attr.fr = 10 * i + j;
				c->attr.protect = (i + j) % 3 == 1;
			}
}

static void both(void)
{
	scrA = mk_small();
	scrB = mk_small();
#ifdef LOGGED
	if (tsm_vte_new(&vte, scrA, wr_cb, &outA, log_cb, &nlog))
#else
	if (tsm_vte_new(&vte, scrA, wr_cb, &outA, NULL, NULL))
#endif
		abort();
	r_new(&R, scrB);
#ifndef NO_CB
	tsm_vte_set_osc_cb(vte, osc_cb, &oscA);
	tsm_vte_set_mouse_cb(vte, mouse_cb, &mouseA);
	R.mouse_cb = true;
#endif
#ifdef SB
	tsm_screen_set_max_sb(scrA, SB);
	tsm_screen_set_max_sb(scrB, SB);
#endif
	fill(scrA);
	fill(scrB);
#ifdef MARG
	{
		unsigned int t = vp_pick(1, Y), b = vp_pick(1, Y);

		tsm_screen_set_margins(scrA, t, b);
		tsm_screen_set_margins(scrB, t, b);
	}
#endif
#ifdef BIGMARG
	{
		static const unsigned short v[] = { BIGMARG };
		unsigned int i = vp_pick(0, sizeof(v) / sizeof(v[0]) / 2 - 1);

		tsm_screen_set_margins(scrA, v[2 * i], v[2 * i + 1]);
		tsm_screen_set_margins(scrB, v[2 * i], v[2 * i + 1]);
	}
#endif
#ifdef TABS
	{
		unsigned int i;

		for (i = 0; i < X; ++i)
			scrA->tab_ruler[i] = scrB->tab_ruler[i] = i % 2;
	}
#endif
#ifdef BIGCUR
	{
		/* places on a screen too large to try all */
		static const unsigned short v[] = { BIGCUR };
		unsigned int i = v[vp_pick(0, sizeof(v) / sizeof(v[0]) - 1)];

		scrA->cursor_x = scrB->cursor_x = i > X ? X : i;
		scrA->cursor_y = scrB->cursor_y = i > Y - 1 ? Y - 1 : i;
	}
#elif defined CUR
	scrA->cursor_x = scrB->cursor_x = vp_pick(0, X);
	scrA->cursor_y = scrB->cursor_y = vp_pick(0, Y - 1);
#else
	tsm_screen_move_to(scrA, 1, 1);
	tsm_screen_move_to(scrB, 1, 1);
#endif
}

/* ---- input from templates: values >= 0 are characters, others are classes ---------------- */

enum {
	ANY = -1, DIG = -3, INTM = -4, FIN = -5, PAR = -6, PRT = -7, UPR = -8, C0 = -9, ESCF = -10, BODY = -11, C1 = -12,
	BYTE = -13, HIGH = -14, GLC = -15, GRC = -16, CTL = -17, WIDE = -19, SRST = -20, HRST = -21,
	RAW = -22, RSZ = -23, RAW0 = -40, RAW1, RAW2, RAW3,
	IN0 = -30, IN1, IN2, IN3, MEN0 = -20000, MEN1, MEN2, MEN3
};

/* IN<i>: any character of a string; MEN<i>: any one of a list of strings */
#ifndef S0
#define S0 ""
#endif
#ifndef S1
#define S1 ""
#endif
#ifndef S2
#define S2 ""
#endif
#ifndef S3
#define S3 ""
#endif
#ifndef M0
#define M0 0
#endif
#ifndef M1
#define M1 0
#endif
#ifndef M2
#define M2 0
#endif
static const char *const t_sets[4] = { S0, S1, S2, S3 };
static const char *const t_men0[] = { M0 }, *const t_men1[] = { M1 }, *const t_men2[] = { M2 };

static uint32_t t_char(int t)
{
	uint32_t c;

	if (t >= 0)
		return t;
	if (t >= IN0 && t <= IN3)
		return (unsigned char)t_sets[t - IN0][vp_pick(0, strlen(t_sets[t - IN0]) - 1)];
	c = vp_u32();
	switch (t) {
	case WIDE: vp_assume(c >= 0x800 && c <= 0xfffd && !(c >= 0xd800 && c <= 0xdfff)); break;
	case DIG: vp_assume(c >= '0' && c <= '9'); break;
	case INTM: vp_assume(c >= 0x20 && c <= 0x2f); break;
	case FIN: vp_assume(c >= 0x40 && c <= 0x7e); break;
	case PAR: vp_assume(c >= 0x30 && c <= 0x3f); break;
	case PRT: vp_assume(c >= 0x20 && c <= 0x7e); break;
	case GLC: vp_assume(c >= 0x21 && c <= 0x7e); break;
	case GRC: vp_assume(c >= 0xa1 && c <= 0xfe); break;
	case UPR: vp_assume(c >= 0xa0 && c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff)); break;
	case C0: vp_assume(c < 0x20 && c != 0x18 && c != 0x1a && c != 0x1b); break;
	case C1: vp_assume(c >= 0x80 && c <= 0x9f); break;
	case CTL: vp_assume(c < 0x20 || (c >= 0x7f && c <= 0x9f)); break;
	case ESCF: vp_assume(c >= 0x30 && c <= 0x7e); break;
	case BODY: vp_assume(c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff) && c != 0x18 && c != 0x1a && c != 0x1b &&
			     !(c >= 0x80 && c <= 0x9f)); break;
	case BYTE: vp_assume(c <= 0xff); break;
	case HIGH: vp_assume(c >= 0x80 && c <= 0xff); break;
	case ANY: vp_assume(c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff)); break;
	}
	return c;
}

static bool byte_mode(void)
{
	return vp_concrete(R.flags & (TSM_VTE_FLAG_7BIT_MODE | TSM_VTE_FLAG_8BIT_MODE));
}

/* the bytes of one template element */
static unsigned int t_bytes(uint32_t c, char *b)
{
	uint8_t o[4];
	unsigned int n, i;

	if (byte_mode()) {
		b[0] = c;
		return 1;
	}
	n = r_utf8(c, o);
	for (i = 0; i < n; ++i)
		b[i] = o[i];
	return n;
}

static void feed_ref(uint32_t c)
{
	if (R.flags & TSM_VTE_FLAG_7BIT_MODE)
		c &= 0x7f;
	else if (R.flags & TSM_VTE_FLAG_8BIT_MODE)
		c &= 0xff;
	ref_char(&R, c);
}

/* one byte in UTF-8 mode: what RFC 3629 decodes it to; a malformed sequence
 * counts as one replacement character */
static void ref_raw(uint8_t b)
{
	struct ref *r = &R;

	if (byte_mode()) {
		feed_ref(b);
		return;
	}
	if (r->need) {
		if (b >= r->lo && b <= r->hi) {
			r->acc = r->acc << 6 | (b & 63);
			r->lo = 0x80;
			r->hi = 0xbf;
			if (!--r->need)
				ref_char(r, r->acc);
		} else {
			r->need = 0;
			ref_char(r, 0xfffd);
		}
		return;
	}
	r->lo = 0x80;
	r->hi = 0xbf;
	if (b < 0x80) {
		ref_char(r, b);
	} else if (b < 0xc0) {
		/* stray continuation byte: ignored */
	} else if (b < 0xc2 || b >= 0xf8) {
		ref_char(r, 0xfffd);
	} else if (b < 0xe0) {
		r->acc = b & 31;
		r->need = 1;
	} else if (b < 0xf0) {
		r->acc = b & 15;
		r->need = 2;
		if (b == 0xe0)
			r->lo = 0xa0;
		if (b == 0xed)
			r->hi = 0x9f;
	} else {
		r->acc = b & 7;
		r->need = 3;
		if (b == 0xf0)
			r->lo = 0x90;
		if (b == 0xf4)
			r->hi = 0x8f;
		/* nothing can follow these */
		if (b > 0xf4) {
			r->lo = 1;
			r->hi = 0;
		}
	}
}

static void feed_raw(uint8_t b)
{
	char c = b;

	tsm_vte_input(vte, &c, 1);
	ref_raw(b);
}

static void feed_char(uint32_t c)
{
	char b[4];
	unsigned int n = t_bytes(c, b), i;

	tsm_vte_input(vte, b, n);
	if (vp_concrete(R.need)) {	/* inside an incomplete UTF-8 sequence */
		for (i = 0; i < n; ++i)
			ref_raw(b[i]);
	} else {
		feed_ref(c);
	}
}

static void feed_str(const char *s)
{
	for (; *s; ++s)
		feed_char((unsigned char)*s);
}

#define CHOOSE(m) feed_str((m)[vp_pick(0, sizeof(m) / sizeof((m)[0]) - 1)])

static void feed(const int *t, unsigned int n)
{
	unsigned int i;

	for (i = 0; i < n; ++i)
		switch (t[i]) {
		case MEN0:
			CHOOSE(t_men0);
			break;
		case MEN1:
			CHOOSE(t_men1);
			break;
		case MEN2:
			CHOOSE(t_men2);
			break;
		case SRST:
			tsm_vte_reset(vte);
			r_soft(&R);
			break;
		case RAW:
			feed_raw(vp_u8());
			break;
		case RAW0: case RAW1: case RAW2: case RAW3: {
			const char *q = t_sets[t[i] - RAW0];

			feed_raw(q[vp_pick(0, strlen(q) - 1)]);
			break;
		}
		case RSZ: {
			unsigned int x = vp_pick(1, X + 1), y = vp_pick(1, Y + 1);

			tsm_screen_resize(scrA, x, y);
			tsm_screen_resize(scrB, x, y);
			break;
		}
		case HRST:
			tsm_vte_hard_reset(vte);
			r_hard(&R);
			break;
		default:
			feed_char(t_char(t[i]));
		}
}
#endif
