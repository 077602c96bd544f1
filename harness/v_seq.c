/* The real emulator and the reference get the same input, built from a
 * template of fixed characters and symbolic character classes (T); afterwards
 * screens, replies, callbacks and modes agree. */
#include "v_ref.h"

static const int tpl[] = { T };

int main(void)
{
	both();
#ifdef PRE
	feed_str(PRE);
#endif
	feed(tpl, sizeof(tpl) / sizeof(tpl[0]));
#ifdef POST
	feed_str(POST);
#endif
	cmp_ref();
	vp_done();
	return 0;
}
