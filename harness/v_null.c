/* Every public function called without an object: nothing is touched, the
 * result is the documented neutral one.  Only the public interface is used, so
 * this also links against the library as it is exported. */
#include "vp.h"
#include "libtsm.h"

static int draw(struct tsm_screen *c, uint64_t id, const uint32_t *ch, size_t len, unsigned int w, unsigned int x,
		unsigned int y, const struct tsm_screen_attr *a, tsm_age_t age, void *d)
{
	vp_assert(0, "nothing to draw without a screen");
	return 0;
}

static void wr(struct tsm_vte *v, const char *s, size_t n, void *d)
{
	vp_assert(0, "nothing to write without an emulator");
}

static void osc(struct tsm_vte *v, const char *s, size_t n, void *d)
{
}

static void mouse(struct tsm_vte *v, enum tsm_mouse_track_mode m, bool px, void *d)
{
}

int main(void)
{
	uint32_t a = vp_u32(), b = vp_u32(), c = vp_u32(), d = vp_u32(), e = vp_u32();
	bool p = vp_bool();
	char buf[4], *out = buf;
	struct tsm_screen_attr at = { 0 };
	uint8_t pal[TSM_COLOR_NUM][3] = { { 0 } };

	vp_assert(tsm_screen_new(NULL, NULL, NULL) == -EINVAL, "nowhere to put the screen");
	tsm_screen_ref(NULL);
	tsm_screen_unref(NULL);
	vp_assert(tsm_screen_get_width(NULL) == 0 && tsm_screen_get_height(NULL) == 0, "no screen has no size");
	vp_assert(tsm_screen_resize(NULL, a, b) == -EINVAL, "no screen to resize");
	vp_assert(tsm_screen_set_margins(NULL, a, b) == -EINVAL, "no screen to set margins of");
	tsm_screen_set_max_sb(NULL, a);
	tsm_screen_clear_sb(NULL);
	tsm_screen_sb_up(NULL, a);
	tsm_screen_sb_down(NULL, a);
	tsm_screen_sb_page_up(NULL, a);
	tsm_screen_sb_page_down(NULL, a);
	tsm_screen_sb_reset(NULL);
	vp_assert(tsm_screen_sb_get_line_count(NULL) == 0 && tsm_screen_sb_get_line_pos(NULL) == 0, "no scrollback");
	tsm_screen_set_def_attr(NULL, &at);
	tsm_screen_reset(NULL);
	tsm_screen_set_flags(NULL, a);
	tsm_screen_reset_flags(NULL, a);
	vp_assert(tsm_screen_get_flags(NULL) == 0, "no flags");
	vp_assert(tsm_screen_get_cursor_x(NULL) == 0 && tsm_screen_get_cursor_y(NULL) == 0, "no cursor");
	tsm_screen_set_tabstop(NULL);
	tsm_screen_reset_tabstop(NULL);
	tsm_screen_reset_all_tabstops(NULL);
	tsm_screen_write(NULL, a, &at);
	tsm_screen_newline(NULL);
	tsm_screen_scroll_up(NULL, a);
	tsm_screen_scroll_down(NULL, a);
	tsm_screen_move_to(NULL, a, b);
	tsm_screen_move_up(NULL, a, p);
	tsm_screen_move_down(NULL, a, p);
	tsm_screen_move_left(NULL, a);
	tsm_screen_move_right(NULL, a);
	tsm_screen_move_line_end(NULL);
	tsm_screen_move_line_home(NULL);
	tsm_screen_tab_right(NULL, a);
	tsm_screen_tab_left(NULL, a);
	tsm_screen_insert_lines(NULL, a);
	tsm_screen_delete_lines(NULL, a);
	tsm_screen_insert_chars(NULL, a);
	tsm_screen_delete_chars(NULL, a);
	tsm_screen_erase_cursor(NULL);
	tsm_screen_erase_chars(NULL, a);
	tsm_screen_erase_cursor_to_end(NULL, p);
	tsm_screen_erase_home_to_cursor(NULL, p);
	tsm_screen_erase_current_line(NULL, p);
	tsm_screen_erase_screen_to_cursor(NULL, p);
	tsm_screen_erase_cursor_to_screen(NULL, p);
	tsm_screen_erase_screen(NULL, p);
	tsm_screen_selection_reset(NULL);
	tsm_screen_selection_start(NULL, a, b);
	tsm_screen_selection_target(NULL, a, b);
	vp_assert(tsm_screen_selection_copy(NULL, &out) == -EINVAL && out == buf, "nothing to copy");
	vp_assert(tsm_screen_draw(NULL, draw, NULL) == 0, "nothing drawn");

	vp_assert(tsm_vte_new(NULL, NULL, wr, NULL, NULL, NULL) == -EINVAL, "nowhere to put the emulator");
	tsm_vte_ref(NULL);
	tsm_vte_unref(NULL);
	tsm_vte_set_osc_cb(NULL, osc, NULL);
	tsm_vte_set_mouse_cb(NULL, mouse, NULL);
	vp_assert(tsm_vte_set_palette(NULL, "vga") == -EINVAL && tsm_vte_set_palette(NULL, NULL) == -EINVAL, "no emulator to colour");
	vp_assert(tsm_vte_set_custom_palette(NULL, pal) == -EINVAL && tsm_vte_set_custom_palette(NULL, NULL) == -EINVAL,
		  "no emulator to colour");
	tsm_vte_get_def_attr(NULL, &at);
	vp_assert(tsm_vte_get_flags(NULL) == 0 && tsm_vte_get_mouse_mode(NULL) == 0 && tsm_vte_get_mouse_event(NULL) == 0,
		  "no modes");
	tsm_vte_reset(NULL);
	tsm_vte_hard_reset(NULL);
	buf[0] = (char)a;
	tsm_vte_input(NULL, buf, 1);
	tsm_vte_set_backspace_sends_delete(NULL, p);
	vp_assert(!tsm_vte_handle_keyboard(NULL, a, b, c, d), "no emulator takes keys");
	vp_assert(!tsm_vte_handle_mouse(NULL, a, b, c, d, e, a, (unsigned char)b), "no emulator takes mouse events");
	/* the stateless part of the interface */
	out = tsm_ucs4_to_utf8_alloc(&a, 1, NULL);
	vp_assert(tsm_ucs4_to_utf8(a, buf) <= 4 && tsm_ucs4_get_width('a') == 1, "an encoder is there");
	free(out);
	vp_done();
	return 0;
}
