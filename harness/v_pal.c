/* Palettes: colours shown are those of the selected palette, looked up when a
 * character is printed or the screen is erased. */
#include "v_ref.h"

static const int tpl[] = { T };

struct named {
	const char *name;
	uint8_t p[TSM_COLOR_NUM][3];
};

#define C(x) { (x) >> 16 & 255, (x) >> 8 & 255, (x) & 255 }
#define SOLAR(k, w, f, b) { C(k), C(0xdc322f), C(0x859900), C(0xb58900), C(0x268bd2), C(0xd33682), C(0x2aa198), \
	C(0xeee8d5), C(0x002b36), C(0xcb4b16), C(0x586e75), C(0x657b83), C(0x839496), C(0x6c71c4), C(0x93a1a1), C(w), C(f), C(b) }
#define BASE16(f, b) { C(0), C(0xab4642), C(0xa1b56c), C(0xf7ca88), C(0x7cafc2), C(0xba8baf), C(0x86c1b9), C(0xaaaaaa), \
	C(0x555555), C(0xab4642), C(0xa1b56c), C(0xf7ca88), C(0x7cafc2), C(0xba8baf), C(0x86c1b9), C(0xffffff), C(f), C(b) }

static const struct named named[] = {
	{ "solarized", SOLAR(0x073642, 0xfdf6e3, 0xeee8d5, 0x073642) },
	{ "solarized-black", SOLAR(0x000000, 0xfdf6e3, 0xeee8d5, 0x000000) },
	{ "solarized-white", SOLAR(0x073642, 0xfdf6e3, 0x073642, 0xeee8d5) },
	{ "soft-black", { C(0x3f3f3f), C(0x705050), C(0x60b48a), C(0xdfaf8f), C(0x9ab8d7), C(0xdc8cc3), C(0x8cd0d3), C(0xffffff),
		C(0x709080), C(0xdca3a3), C(0x72d5a3), C(0xf0dfaf), C(0x94bff3), C(0xec93d3), C(0x93e0e3), C(0xdcdccc),
		C(0xdcdccc), C(0x2c2c2c) } },
	{ "base16-dark", BASE16(0xd8d8d8, 0x181818) },
	{ "base16-light", BASE16(0x181818, 0xd8d8d8) },
	{ "vga", { C(0), C(0xaa0000), C(0x00aa00), C(0xaa5500), C(0x0000aa), C(0xaa00aa), C(0x00aaaa), C(0xaaaaaa), C(0x555555),
		C(0xff5555), C(0x55ff55), C(0xffff55), C(0x5555ff), C(0xff55ff), C(0x55ffff), C(0xffffff), C(0xaaaaaa), C(0) } },
};

static uint8_t cust[TSM_COLOR_NUM][3];
static bool have_cust;

static void update(const char *name)
{
	unsigned int i;

	memcpy(R.pal, pal_legacy, sizeof(R.pal));
	if (name && !strcmp(name, "custom") && have_cust)
		memcpy(R.pal, cust, sizeof(R.pal));
	else
		for (i = 0; name && i < sizeof(named) / sizeof(named[0]); ++i)
			if (!strcmp(name, named[i].name))
				memcpy(R.pal, named[i].p, sizeof(R.pal));
	/* starts over with the default colours on an empty screen */
	attr_default(&R, &R.at);
	r_erase_attr(&R);
	tsm_screen_erase_screen(R.con, false);
}

static const char *pick_name(void)
{
	unsigned int k = vp_pick(0, sizeof(named) / sizeof(named[0]) + 3);

	if (k < sizeof(named) / sizeof(named[0]))
		return named[k].name;
	k -= sizeof(named) / sizeof(named[0]);
	return k == 0 ? NULL : k == 1 ? "legacy" : k == 2 ? "custom" : "no such palette";
}

static void set_custom(void)
{
	uint8_t p[TSM_COLOR_NUM][3];
	unsigned int i;

	for (i = 0; i < TSM_COLOR_NUM; ++i) {
		cust[i][0] = p[i][0] = vp_u8();
		cust[i][1] = p[i][1] = vp_u8();
		cust[i][2] = p[i][2] = vp_u8();
	}
	vp_assert(tsm_vte_set_custom_palette(vte, p) == 0, "custom palette accepted");
	memset(p, 0, sizeof(p));	/* the caller may reuse it */
	have_cust = true;
}

int main(void)
{
	struct tsm_screen_attr a, e;
	const char *name = NULL, *n2;
	struct rattr d;

	both();
#ifdef PRE
	feed_str(PRE);
#endif
#if PART == 0	/* a custom palette with arbitrary colours */
	set_custom();
	update(NULL);
	name = "custom";
	vp_assert(tsm_vte_set_palette(vte, name) == 0, "palette accepted");
	update(name);
#elif PART == 1	/* any two names */
	name = pick_name();
	tsm_vte_set_palette(vte, name);
	update(name);
	n2 = pick_name();
	tsm_vte_set_palette(vte, n2);
	update(name = n2);
#else		/* custom colours set, replaced and dropped while in use */
	tsm_vte_set_palette(vte, name = "custom");
	update(name);
	set_custom();
	update(name);
	if (vp_concrete(vp_bool())) {
		set_custom();
		update(name);
	}
	if (vp_concrete(vp_bool())) {
		tsm_vte_set_custom_palette(vte, NULL);
		have_cust = false;
		update(name);
	}
#endif
	(void)n2;
	attr_default(&R, &d);
	e = attr_out(&R, &d);
	tsm_vte_get_def_attr(vte, &a);
	vp_assert(attr_eq(&a, &e), "default attributes of the palette");
	feed(tpl, sizeof(tpl) / sizeof(tpl[0]));
#ifdef POST
	feed_str(POST);
#endif
	cmp_ref();
	tsm_vte_unref(vte);
	vp_done();
	return 0;
}
