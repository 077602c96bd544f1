/* Keyboard: any keysym, ascii fallback, modifiers and character, in the modes
 * selected by a menu; compared with a table of what DEC/xterm terminals send. */
#include "v_ref.h"
#include <xkbcommon/xkbcommon-keysyms.h>

struct key {
	uint32_t sym;
	const char *plain, *alt;	/* alt: cursor key / keypad application mode, or shift */
	int mode;			/* which of them alt is for */
};

enum { NONE, CURS, KPAD, SHFT, ARROW };

static const struct key keys[] = {
	{ XKB_KEY_Tab, "\t" }, { XKB_KEY_KP_Tab, "\t" }, { XKB_KEY_ISO_Left_Tab, "\033[Z" }, { XKB_KEY_Linefeed, "\n" },
	{ XKB_KEY_Clear, "\013" }, { XKB_KEY_Sys_Req, "\025" }, { XKB_KEY_Escape, "\033" }, { XKB_KEY_Find, "\033[1~" },
	{ XKB_KEY_Insert, "\033[2~" }, { XKB_KEY_Delete, "\033[3~" }, { XKB_KEY_Select, "\033[4~" },
	{ XKB_KEY_Page_Up, "\033[5~" }, { XKB_KEY_KP_Page_Up, "\033[5~" }, { XKB_KEY_Page_Down, "\033[6~" },
	{ XKB_KEY_KP_Page_Down, "\033[6~" },
	{ XKB_KEY_Up, "\033[A", "\033OA", ARROW }, { XKB_KEY_KP_Up, "\033[A", "\033OA", ARROW },
	{ XKB_KEY_Down, "\033[B", "\033OB", ARROW }, { XKB_KEY_KP_Down, "\033[B", "\033OB", ARROW },
	{ XKB_KEY_Right, "\033[C", "\033OC", ARROW }, { XKB_KEY_KP_Right, "\033[C", "\033OC", ARROW },
	{ XKB_KEY_Left, "\033[D", "\033OD", ARROW }, { XKB_KEY_KP_Left, "\033[D", "\033OD", ARROW },
	{ XKB_KEY_Home, "\033[H", "\033OH", CURS }, { XKB_KEY_KP_Home, "\033[H", "\033OH", CURS },
	{ XKB_KEY_End, "\033[F", "\033OF", CURS }, { XKB_KEY_KP_End, "\033[F", "\033OF", CURS },
	{ XKB_KEY_KP_Insert, "0", "\033Op", KPAD }, { XKB_KEY_KP_0, "0", "\033Op", KPAD },
	{ XKB_KEY_KP_1, "1", "\033Oq", KPAD }, { XKB_KEY_KP_2, "2", "\033Or", KPAD }, { XKB_KEY_KP_3, "3", "\033Os", KPAD },
	{ XKB_KEY_KP_4, "4", "\033Ot", KPAD }, { XKB_KEY_KP_5, "5", "\033Ou", KPAD }, { XKB_KEY_KP_6, "6", "\033Ov", KPAD },
	{ XKB_KEY_KP_7, "7", "\033Ow", KPAD }, { XKB_KEY_KP_8, "8", "\033Ox", KPAD }, { XKB_KEY_KP_9, "9", "\033Oy", KPAD },
	{ XKB_KEY_KP_Multiply, "*", "\033Oj", KPAD }, { XKB_KEY_KP_Add, "+", "\033Ok", KPAD },
	{ XKB_KEY_KP_Separator, ",", "\033Ol", KPAD }, { XKB_KEY_KP_Subtract, "-", "\033Om", KPAD },
	{ XKB_KEY_KP_Decimal, ".", "\033On", KPAD }, { XKB_KEY_KP_Delete, ".", "\033On", KPAD },
	{ XKB_KEY_KP_Divide, "/", "\033Oo", KPAD }, { XKB_KEY_KP_Equal, "=", "\033OX", KPAD }, { XKB_KEY_KP_Space, " " },
	{ XKB_KEY_F1, "\033OP", "\033[23~", SHFT }, { XKB_KEY_KP_F1, "\033OP", "\033[23~", SHFT },
	{ XKB_KEY_F2, "\033OQ", "\033[24~", SHFT }, { XKB_KEY_KP_F2, "\033OQ", "\033[24~", SHFT },
	{ XKB_KEY_F3, "\033OR", "\033[25~", SHFT }, { XKB_KEY_KP_F3, "\033OR", "\033[25~", SHFT },
	{ XKB_KEY_F4, "\033OS", "\033[26~", SHFT }, { XKB_KEY_KP_F4, "\033OS", "\033[26~", SHFT },
	{ XKB_KEY_F5, "\033[15~", "\033[28~", SHFT }, { XKB_KEY_F6, "\033[17~", "\033[29~", SHFT },
	{ XKB_KEY_F7, "\033[18~", "\033[31~", SHFT }, { XKB_KEY_F8, "\033[19~", "\033[32~", SHFT },
	{ XKB_KEY_F9, "\033[20~", "\033[33~", SHFT }, { XKB_KEY_F10, "\033[21~", "\033[34~", SHFT },
	{ XKB_KEY_F11, "\033[23~", "\033[23;2~", SHFT }, { XKB_KEY_F12, "\033[24~", "\033[24;2~", SHFT },
	{ XKB_KEY_F13, "\033[25~", "\033[25;2~", SHFT }, { XKB_KEY_F14, "\033[26~", "\033[26;2~", SHFT },
	{ XKB_KEY_F15, "\033[28~", "\033[28;2~", SHFT }, { XKB_KEY_F16, "\033[29~", "\033[29;2~", SHFT },
	{ XKB_KEY_F17, "\033[31~", "\033[31;2~", SHFT }, { XKB_KEY_F18, "\033[32~", "\033[32;2~", SHFT },
	{ XKB_KEY_F19, "\033[33~", "\033[33;2~", SHFT }, { XKB_KEY_F20, "\033[34~", "\033[34;2~", SHFT },
};

static char exp_b[16];
static unsigned int exp_n;

static void put(const char *s)
{
	while (*s)
		exp_b[exp_n++] = *s++;
}

/* control key of an ASCII keysym, -1 if there is none */
static int control(uint32_t s)
{
	if ((s >= 'a' && s <= 'z') || (s >= 'A' && s <= 'Z'))
		return s & 0x1f;
	switch (s) {
	case ' ': case '2': return 0;
	case '3': case '[': case '{': return 0x1b;
	case '4': case '\\': case '|': return 0x1c;
	case '5': case ']': case '}': return 0x1d;
	case '6': case '`': case '~': return 0x1e;
	case '7': case '/': case '?': return 0x1f;
	case '8': return 0x7f;
	}
	return -1;
}

/* what the key sends, without the escape prefix of alt; false: nothing */
static bool ref_key(uint32_t sym, uint32_t ascii, unsigned int mods, uint32_t uc)
{
	unsigned int i;
	int c;

	exp_n = 0;
	if (mods & TSM_CONTROL_MASK) {
		c = control(ascii ? ascii : sym);
		if (c >= 0) {
			exp_b[exp_n++] = c;
			return true;
		}
	}
	if (sym == XKB_KEY_BackSpace) {
		put(R.bsdel ? "\177" : "\010");
		return true;
	}
	if (sym == XKB_KEY_Return || sym == XKB_KEY_KP_Enter) {
		if (sym == XKB_KEY_KP_Enter && (R.flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE))
			put("\033OM");
		else
			put(R.flags & TSM_VTE_FLAG_LINE_FEED_NEW_LINE_MODE ? "\r\n" : "\r");
		return true;
	}
	for (i = 0; i < sizeof(keys) / sizeof(keys[0]); ++i) {
		const struct key *k = &keys[i];

		if (k->sym != sym)
			continue;
		switch (k->mode) {
		case ARROW:
			if (mods & TSM_CONTROL_MASK) {
				put("\033[1;5");
				put(k->plain + 2);
				return true;
			}
			/* fallthrough */
		case CURS:
			put(R.flags & TSM_VTE_FLAG_CURSOR_KEY_MODE ? k->alt : k->plain);
			return true;
		case KPAD:
			put(R.flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE ? k->alt : k->plain);
			return true;
		case SHFT:
			put(mods & TSM_SHIFT_MASK ? k->alt : k->plain);
			return true;
		}
		put(k->plain);
		return true;
	}
	if (uc == TSM_VTE_INVALID)
		return false;
	if (R.flags & TSM_VTE_FLAG_7BIT_MODE) {
		exp_b[exp_n++] = uc > 0x7f ? '?' : uc;
	} else if (R.flags & TSM_VTE_FLAG_8BIT_MODE) {
		exp_b[exp_n++] = uc > 0xff ? '?' : uc;
	} else {
		uint8_t b[4];
		unsigned int n = r_utf8(uc, b);

		for (i = 0; i < n; ++i)
			exp_b[exp_n++] = b[i];
	}
	return true;
}

static const char *const modes[] = { MODES };
#ifdef MODES2
static const char *const modes2[] = { MODES2 };
#endif

static void press(void)
{
	uint32_t sym = vp_u32(), ascii = vp_u32(), uc = vp_u32(), c;
	unsigned int mods = vp_range(0, 31), i;
	bool ret, eret, echo, bytes;

	vp_assume(uc == TSM_VTE_INVALID || (uc <= 0x10ffff && !(uc >= 0xd800 && uc <= 0xdfff) &&
		  (uc & 0xfffe) != 0xfffe && !(uc >= 0xfdd0 && uc <= 0xfdef)));
#ifdef ONLY_CHARS	/* keys that have no function of their own */
	vp_assume(sym >= 0x1000000 && ascii == 0);
#endif
#ifdef NOCTRL
	vp_assume(!(mods & TSM_CONTROL_MASK));
#endif
	echo = !(R.flags & TSM_VTE_FLAG_SEND_RECEIVE_MODE);
	ret = tsm_vte_handle_keyboard(vte, sym, ascii, mods, uc);
	eret = ref_key(sym, ascii, mods, uc);
	vp_assert(ret == eret, "whether the key was handled");
	if (eret) {
		/* local echo: as if the application had sent it, replies first */
		if (echo) {
			if (mods & TSM_ALT_MASK)
				feed_ref(0x1b);
			bytes = byte_mode();
			if (!bytes && exp_n > 1 && (exp_b[0] & 0x80)) {
				feed_ref(uc);
			} else {
				for (i = 0; i < exp_n; ++i)
					feed_ref((unsigned char)exp_b[i]);
			}
		}
		if (mods & TSM_ALT_MASK)
			r_send(&R, "\033");
		for (i = 0; i < exp_n; ++i)
			log_put(&R.out, &exp_b[i], 1);
	}
	(void)c;
}

int main(void)
{
	both();
	CHOOSE(modes);
#ifdef MODES2
	CHOOSE(modes2);
#endif
	R.bsdel = vp_concrete(vp_bool());
	tsm_vte_set_backspace_sends_delete(vte, R.bsdel);
	press();
#ifdef TWICE
	press();
#endif
#ifdef POST
	feed_str(POST);
#endif
	vp_assert(!(tsm_vte_get_flags(vte) & TSM_VTE_FLAG_PREPEND_ESCAPE), "no escape prefix is left over");
	cmp_ref();
	vp_done();
	return 0;
}
