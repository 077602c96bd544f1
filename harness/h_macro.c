/* The shared arithmetic helpers and cleanup macros of shl-macro.h. */
#include "vp.h"
#include <errno.h>
#include <limits.h>
#include <stdio.h>
#include <unistd.h>
#include <inttypes.h>

static int closed, nclosed, nfreed;
static void *freed;

static int vp_close(int fd)
{
	closed = fd;
	++nclosed;
	errno = EBADF;
	return -1;
}

static void vp_free(void *p)
{
	freed = p;
	++nfreed;
}

#define close vp_close
#define free vp_free
#include "shl-macro.h"
#undef close
#undef free

#define MULT(type, fn, max, wide) do { \
	type v = (type)vp_u64(), f = (type)vp_u64(), o = v; \
	wide w = (wide)v * (wide)f; \
	int r = fn(&v, f); \
	vp_assert(r == (w <= (wide)(max) ? 0 : -ERANGE), #fn ": overflow is noticed, nothing else is"); \
	vp_assert(v == (r ? o : (type)w), #fn ": the product, or the value as it was"); \
} while (0)

/* 64 bit: a product of factors below 2^B is exact; the others by their quotient */
#define MULT64(type, fn) do { \
	static const uint64_t fs[] = { 0, 1, 2, 3, 5, 7, 10, 16, 255, 256, 1000, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, \
		0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0xffffffffffffffffull }; \
	type v = vp_u64(), o = v, f = fs[vp_pick(0, sizeof(fs) / sizeof(*fs) - 1)]; \
	bool fits = f == 0 || v <= 0xffffffffffffffffull / f; \
	int r = fn(&v, f); \
	vp_assert(r == (fits ? 0 : -ERANGE), #fn ": overflow is noticed, nothing else is"); \
	vp_assert(v == (r ? o : o * f), #fn ": the product, or the value as it was"); \
} while (0)

#define CMP(type, suffix) do { \
	type a = (type)vp_u64(), b = (type)vp_u64(), c = (type)vp_u64(); \
	type i = a, j = b; \
	vp_assert(shl_max(a, b) == (a > b ? a : b), "the larger of two " #type); \
	vp_assert(shl_min(a, b) == (a < b ? a : b), "the smaller of two " #type); \
	vp_assert(shl_max_t(type, a, b) == (a > b ? a : b) && shl_min_t(type, a, b) == (a < b ? a : b), "the same, converted, " #type); \
	if (b <= c) \
		vp_assert(shl_clamp(a, b, c) == (a < b ? b : a > c ? c : a), "a " #type " within its limits"); \
	if (i < (type)100 && j < (type)100 && i > 0 && j > 0) { \
		(void)shl_max(i++, j++); \
		(void)shl_min(i++, j++); \
		vp_assert(i == a + 2 && j == b + 2, "arguments are evaluated once"); \
	} \
} while (0)

static int protect(int inner)
{
	SHL_PROTECT_ERRNO;

	errno = inner;
	return 0;
}

struct box { int a; char b; long c; };

int main(void)
{
#if PART == 0
	MULT(uint8_t, shl_mult_u8, UINT8_MAX, uint32_t);
	MULT(uint16_t, shl_mult_u16, UINT16_MAX, uint64_t);
#elif PART == 1
	MULT(uint32_t, shl_mult_u32, UINT32_MAX, uint64_t);
	MULT(unsigned int, shl_mult_u, UINT_MAX, uint64_t);
#elif PART == 2
	MULT64(uint64_t, shl_mult_u64);
#elif PART == 3
	MULT64(unsigned long, shl_mult_ul);
	MULT64(unsigned long long, shl_mult_ull);
#elif PART == 4
	CMP(int, );
	CMP(unsigned int, );
	CMP(uint8_t, );
	CMP(int64_t, );
	CMP(uint64_t, );
#else
	int e = (int)vp_u32(), in = (int)vp_u32(), fd = (int)vp_u32();
	char x;
	struct box b;
	uint64_t v = vp_u64();
	uint64_t z[2] = { v, v };

	errno = e;
	protect(in);
	vp_assert(errno == e, "errno as it was before");
	{
		_shl_free_ void *p = &x;
		(void)p;
	}
	vp_assert(freed == &x && nfreed == 1, "freed at the end of the block");
	{
		_shl_close_ int c = fd;
		(void)c;
	}
	vp_assert(nclosed == (fd >= 0) && (fd < 0 || closed == fd), "an open descriptor is closed at the end of the block");
	vp_assert(shl_container_of(&b.c, struct box, c) == &b && shl_container_of(&b.b, struct box, b) == &b, "the object around a member");
	vp_assert(SHL_ARRAY_LENGTH(z) == 2, "elements of an array");
	vp_assert(SHL_PTR_TO_U64(SHL_U64_TO_PTR(v)) == v && SHL_PTR_TO_U32(SHL_U32_TO_PTR((uint32_t)v)) == (uint32_t)v &&
		  SHL_PTR_TO_INT(SHL_INT_TO_PTR((int)v)) == (int)v && SHL_PTR_TO_UINT(SHL_UINT_TO_PTR((unsigned int)v)) == (unsigned int)v &&
		  SHL_PTR_TO_LONG(SHL_LONG_TO_PTR((long)v)) == (long)v && SHL_PTR_TO_ULONG(SHL_ULONG_TO_PTR((unsigned long)v)) == v &&
		  SHL_PTR_TO_S32(SHL_S32_TO_PTR((int32_t)v)) == (int32_t)v && SHL_PTR_TO_S64(SHL_S64_TO_PTR((int64_t)v)) == (int64_t)v,
		  "an integer survives the way through a pointer");
	shl_zero(z);
	vp_assert(z[0] == 0 && z[1] == 0, "zeroed");
	shl_memzero(&v, 4);
	vp_assert((uint32_t)v == 0, "zeroed");
#endif
	vp_done();
	return 0;
}
