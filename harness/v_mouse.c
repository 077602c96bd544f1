/* Mouse: any event in any order of tracking modes. */
#include "v_ref.h"

#ifndef LIMY
#define LIMY LIM
#endif

static const char *const modes[] = { MODES };

static void num_report(uint32_t b, uint32_t x, uint32_t y, bool press)
{
	r_send(&R, "\033[<");
	r_num(&R, b);
	r_send(&R, ";");
	r_num(&R, x);
	r_send(&R, ";");
	r_num(&R, y);
	r_send(&R, press ? "M" : "m");
}

static bool ref_mouse(uint32_t cx, uint32_t cy, uint32_t px, uint32_t py, unsigned int btn, unsigned int ev, unsigned int mod)
{
	unsigned int b = btn == 4 ? 64 : btn == 5 ? 65 : btn;

	b |= mod;
	if (ev == TSM_MOUSE_EVENT_MOVED && (R.mmode == 9 || R.mevent != TSM_VTE_MOUSE_EVENT_ANY))
		return false;
	if (R.mmode == 9) {
		uint32_t x = cx > 222 ? 222 : cx, y = cy > 222 ? 222 : cy;
		char s[3];

		if (ev == TSM_MOUSE_EVENT_RELEASED)
			b = 3 | mod;
		s[0] = 0x20 + b;
		s[1] = 0x21 + x;
		s[2] = 0x21 + y;
		r_send(&R, "\033[M");
		log_put(&R.out, s, 3);
		return true;
	}
	if (!R.mevent)
		return false;
	if (R.mmode == TSM_VTE_MOUSE_MODE_SGR) {
		if (ev == TSM_MOUSE_EVENT_MOVED) {
			if (cx + 1 == R.mlx && cy + 1 == R.mly)
				return false;
			R.mlx = cx + 1;
			R.mly = cy + 1;
			b = 35;
		}
		num_report(b, cx + 1, cy + 1, ev != TSM_MOUSE_EVENT_RELEASED);
		return true;
	}
	if (R.mmode == TSM_VTE_MOUSE_MODE_PIXEL) {
		num_report(ev == TSM_MOUSE_EVENT_MOVED ? 35 : b, px, py, ev != TSM_MOUSE_EVENT_RELEASED);
		return true;
	}
	return false;
}

static void event(void)
{
	uint32_t cx = vp_u32(), cy = vp_u32(), px = vp_u32(), py = vp_u32();
	unsigned int btn = vp_pick(0, 5), ev = 1u << vp_pick(0, 2), mod = vp_u8() & 0x1c;
	bool r, e;

	vp_assume(btn != 3 && cx < LIM && cy < LIMY && px < LIM && py < LIMY);
#ifdef MOVE
	vp_assume(btn == 0 && mod == 0 && ev != TSM_MOUSE_EVENT_RELEASED);
#endif
#ifdef EASY
	vp_assume(btn == 0 && mod == 0 && px == cx && py == cy);
#endif
#ifdef CONC_MOD
	mod = vp_concrete(mod);
#endif
	r = tsm_vte_handle_mouse(vte, cx, cy, px, py, btn, ev, mod);
	e = ref_mouse(cx, cy, px, py, btn, ev, mod);
	vp_assert(r == e, "whether the mouse event was reported");
}

int main(void)
{
	unsigned int i;

	both();
	for (i = 0; i < NMODES; ++i)
		CHOOSE(modes);
	for (i = 0; i < NEV; ++i) {
#ifdef BETWEEN
		if (i)
			CHOOSE(modes);
#endif
		event();
	}
	cmp_ref();
	vp_assert(!tsm_vte_handle_mouse(NULL, 1, 1, 1, 1, 0, TSM_MOUSE_EVENT_PRESSED, 0), "no emulator, no report");
	vp_done();
	return 0;
}
