/* U02: the UTF-8 state machine against an RFC 3629 reference over every byte
 * string of length N, through the internal public functions only */
#include "vp.h"
#include "libtsm.h"
#include "libtsm-int.h"

#ifdef PART_ROUNDTRIP
/* every code point the encoder accepts comes back, from any decoder history */
int main(void)
{
	struct tsm_utf8_mach *m;
	char buf[4];
	uint32_t g = vp_u32();
	size_t n, i;
	int st = TSM_UTF8_START;

	if (tsm_utf8_mach_new(&m))
		return 0;
	for (i = 0; i < 5; ++i)
		tsm_utf8_mach_feed(m, vp_u8());
	/* two ASCII bytes: the first may complete a broken sequence */
	tsm_utf8_mach_feed(m, vp_u8() & 0x7f);
	n = tsm_ucs4_to_utf8(g, buf);
	vp_assume(n > 0);
	for (i = 0; i < n; ++i) {
		st = tsm_utf8_mach_feed(m, buf[i]);
		if (i + 1 < n) {
			vp_assert(st != TSM_UTF8_ACCEPT && st != TSM_UTF8_REJECT,
				  "no report inside a well-formed sequence");
			vp_assert(tsm_utf8_mach_get(m) == TSM_UCS4_REPLACEMENT, "no character while incomplete");
		}
	}
	vp_assert(st == TSM_UTF8_ACCEPT, "well-formed sequence accepted");
	vp_assert(tsm_utf8_mach_get(m) == g, "decoded code point");
	vp_assert(tsm_utf8_mach_get(m) == g, "get has no side effect");
	tsm_utf8_mach_reset(m);
	vp_assert(tsm_utf8_mach_get(m) == TSM_UCS4_REPLACEMENT, "reset forgets the character");
	st = tsm_utf8_mach_feed(m, 'x');
	vp_assert(st == TSM_UTF8_ACCEPT && tsm_utf8_mach_get(m) == 'x', "usable after reset");
	tsm_utf8_mach_free(m);
	vp_done();
	return 0;
}
#else
int main(void)
{
	struct tsm_utf8_mach *m;
	unsigned int need = 0, i;
	uint32_t acc = 0;
	uint8_t lo = 0x80, hi = 0xbf;

	if (tsm_utf8_mach_new(&m))
		return 0;
	vp_assert(tsm_utf8_mach_get(m) == TSM_UCS4_REPLACEMENT, "nothing decoded initially");
	for (i = 0; i < N; ++i) {
		uint8_t b = vp_u8();
		int st = tsm_utf8_mach_feed(m, (char)b);
		int ev; /* 0 pending, 1 accept, 2 reject, 3 ignored */

		if (need) {
			if (b >= lo && b <= hi) {
				acc = acc * 64 + (b - 0x80u);
				--need;
				lo = 0x80;
				hi = 0xbf;
				ev = need ? 0 : 1;
			} else {
				need = 0;
				ev = 2;
			}
		} else {
			lo = 0x80;
			hi = 0xbf;
			if (b < 0x80) {
				acc = b;
				ev = 1;
			} else if (b < 0xc0) {
				ev = 3;
			} else if (b < 0xc2) {
				ev = 2;
			} else if (b < 0xe0) {
				acc = b - 0xc0u;
				need = 1;
				ev = 0;
			} else if (b < 0xf0) {
				acc = b - 0xe0u;
				need = 2;
				if (b == 0xe0)
					lo = 0xa0;
				if (b == 0xed)
					hi = 0x9f;
				ev = 0;
			} else if (b < 0xf5) {
				acc = b - 0xf0u;
				need = 3;
				if (b == 0xf0)
					lo = 0x90;
				if (b == 0xf4)
					hi = 0x8f;
				ev = 0;
			} else if (b < 0xf8) {
				/* can only be rejected, now or at the next byte */
				acc = 0;
				need = 3;
				lo = 1;
				hi = 0;
				ev = 4;
			} else {
				ev = 2;
			}
		}
		if (ev == 4 && st == TSM_UTF8_REJECT) {
			need = 0;
			ev = 2;
		}
		vp_assert((st == TSM_UTF8_ACCEPT) == (ev == 1), "accept exactly the well-formed sequences");
		vp_assert((st == TSM_UTF8_REJECT) == (ev == 2), "malformed input is reported");
		if (ev == 1)
			vp_assert(tsm_utf8_mach_get(m) == acc, "decoded code point");
		else
			vp_assert(tsm_utf8_mach_get(m) == TSM_UCS4_REPLACEMENT, "replacement character otherwise");
	}
	tsm_utf8_mach_free(m);
	vp_done();
	return 0;
}
#endif
