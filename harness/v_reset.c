/* A full reset after any history: from then on the emulator behaves like a new
 * one (the reference, on a new screen of the same size). */
#include "v_ref.h"

static const int dirt[] = { D }, tpl[] = { T };

int main(void)
{
	both();
#ifdef PRE
	feed_str(PRE);
#endif
	feed(dirt, sizeof(dirt) / sizeof(dirt[0]));
#if HOW == 0
	tsm_vte_hard_reset(vte);
#elif HOW == 1
	tsm_vte_input(vte, "\030\033c", 3);	/* CAN: end of whatever was pending */
#elif HOW == 2
	tsm_vte_input(vte, "\033c", 2);
#else
	tsm_vte_reset(vte);
	tsm_screen_erase_screen(scrA, false);
	tsm_screen_move_to(scrA, 0, 0);
	tsm_screen_clear_sb(scrA);
#endif
	tsm_screen_set_max_sb(scrA, 0);
	tsm_screen_set_flags(scrA, TSM_SCREEN_ALTERNATE);
	tsm_screen_erase_screen(scrA, false);
	tsm_screen_reset_flags(scrA, TSM_SCREEN_ALTERNATE);

	scrB = mk_small();
	r_new(&R, scrB);
	tsm_screen_set_flags(scrB, TSM_SCREEN_ALTERNATE);
	tsm_screen_erase_screen(scrB, false);
	tsm_screen_reset_flags(scrB, TSM_SCREEN_ALTERNATE);
	memset(&outA, 0, sizeof(outA));
	memset(&oscA, 0, sizeof(oscA));
	memset(&mouseA, 0, sizeof(mouseA));
	R.mouse_cb = true;
	cmp_ref();
	feed(tpl, sizeof(tpl) / sizeof(tpl[0]));
#ifdef POST
	feed_str(POST);
#endif
	cmp_ref();
	vp_done();
	return 0;
}
