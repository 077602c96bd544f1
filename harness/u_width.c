/* U04: display width of every 32-bit code against interval lists */
#include "vp.h"
#include "libtsm.h"
#include "libtsm-int.h"
#include "width_ref.h"

int main(void)
{
	uint32_t c = vp_u32();
	unsigned int w = tsm_ucs4_get_width(c), r;
	bool zero = false, wide = false;

#define Z(a, b) if (c >= a && c <= b) zero = true;
	REF_ZERO
#undef Z
#define W(a, b) if (c >= a && c <= b) wide = true;
	REF_WIDE
#undef W
	if (c == 0 || c < 32 || (c >= 0x7f && c < 0xa0) || c >= 0x80000000u)
		r = 0;
	else if (zero)
		r = 0;
	else
		r = wide ? 2 : 1;
	vp_assert(w <= 2, "width is 0, 1 or 2");
	vp_assert(w == r, "width class of the code point");
	if (c >= 0x20 && c < 0x7f)
		vp_assert(w == 1, "printable ASCII is one column");
	vp_done();
	return 0;
}
