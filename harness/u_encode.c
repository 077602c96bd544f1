/* U01: UCS-4 to UTF-8 encoder over every 32-bit value */
#include "vp.h"
#include "libtsm.h"
#include "libtsm-int.h"

static unsigned int ref_enc(uint32_t g, uint8_t out[4])
{
	if (g >= 0xd800 && g < 0xe000)
		return 0;
	if (g >= 0x110000)
		return 0;
	if ((g & 0xfffe) == 0xfffe)
		return 0;
	if (g >= 0xfdd0 && g < 0xfdf0)
		return 0;
	if (g < 0x80) {
		out[0] = g;
		return 1;
	}
	if (g < 0x800) {
		out[0] = 0xc0 + g / 64;
		out[1] = 0x80 + g % 64;
		return 2;
	}
	if (g < 0x10000) {
		out[0] = 0xe0 + g / 4096;
		out[1] = 0x80 + g / 64 % 64;
		out[2] = 0x80 + g % 64;
		return 3;
	}
	out[0] = 0xf0 + g / 262144;
	out[1] = 0x80 + g / 4096 % 64;
	out[2] = 0x80 + g / 64 % 64;
	out[3] = 0x80 + g % 64;
	return 4;
}

int main(void)
{
#if PART == 1
	uint32_t g = vp_u32();
	uint8_t ref[4] = { 0 };
	char buf[8];
	size_t n, i;
	unsigned int rn;
	uint8_t fill = vp_u8();

	for (i = 0; i < 8; ++i)
		buf[i] = fill;
	n = tsm_ucs4_to_utf8(g, &buf[2]);
	rn = ref_enc(g, ref);
	vp_assert(n == rn, "length of the encoding");
	for (i = 0; i < 4; ++i)
		if (i < rn)
			vp_assert((uint8_t)buf[2 + i] == ref[i], "byte of the encoding");
		else
			vp_assert((uint8_t)buf[2 + i] == fill, "nothing written beyond the encoding");
	vp_assert((uint8_t)buf[0] == fill && (uint8_t)buf[1] == fill && (uint8_t)buf[6] == fill &&
		  (uint8_t)buf[7] == fill, "no stray write");
#else
	uint32_t in[N];
	uint8_t ref[4 * N], one[4];
	size_t len = 12345, rl = 0, i, j;
	unsigned int k;
	char *p;

	for (i = 0; i < N; ++i) {
		in[i] = vp_u32();
		k = ref_enc(in[i], one);
		for (j = 0; j < k; ++j)
			ref[rl++] = one[j];
	}
	bool want_len = vp_bool();
	p = tsm_ucs4_to_utf8_alloc(in, N, want_len ? &len : NULL);
	if (!rl)
		vp_assert(!p, "nothing encodable gives NULL");
	else {
		vp_assert(p != NULL, "encodable text gives a buffer");
		if (!p) return 0;
		if (want_len)
			vp_assert(len == rl, "reported length");
		for (i = 0; i < 4 * N; ++i)
			if (i < rl)
				vp_assert((uint8_t)p[i] == ref[i], "concatenated encodings");
		free(p);
	}
#endif
	vp_done();
	return 0;
}
