/* Harness support, three modes.
 *
 * Under sx (-DVP_SX) every vp_* input is a symbolic variable of the executor.
 * Under CBMC (-DVP_CBMC) every vp_* input is a symbolic variable.  Natively
 * (gcc with ASan/UBSan, for replay) the same calls pop, in program order, the
 * values the solver chose.
 */
#ifndef VP_H
#define VP_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>

#ifdef VP_CBMC

uint64_t nondet_vp_u64(void);
uint32_t nondet_vp_u32(void);
uint8_t nondet_vp_u8(void);
_Bool nondet_vp_bool(void);

static inline uint64_t vp_u64(void) { uint64_t v = nondet_vp_u64(); __CPROVER_input("vp", v); return v; }
static inline uint32_t vp_u32(void) { uint32_t v = nondet_vp_u32(); __CPROVER_input("vp", v); return v; }
static inline uint8_t vp_u8(void) { uint8_t v = nondet_vp_u8(); __CPROVER_input("vp", v); return v; }
static inline bool vp_bool(void) { _Bool v = nondet_vp_bool(); __CPROVER_input("vp", v); return v; }

#define vp_assume(c) __CPROVER_assume(c)
/* the property itself */
#define vp_assert(c, msg) __CPROVER_assert(c, "VP " msg)
/* vacuity witness: must come back violated, i.e. reachable */
#define vp_done() __CPROVER_assert(0, "VPWITNESS end of harness reached")
#define vp_reach(msg) __CPROVER_assert(0, "VPWITNESS " msg)
/* harness capacity limits: never a property violation */
#define vp_bound(c, msg) do { __CPROVER_assert(c, "VPBOUND " msg); __CPROVER_assume(c); } while (0)

#elif defined(VP_SX)

extern uint64_t vp_sx_input(unsigned int bits);
extern void vp_sx_assume(int c);
extern void vp_sx_assert(int c, const char *msg) __attribute__((nomerge));
extern void vp_sx_bound(int c, const char *msg) __attribute__((nomerge));
extern void vp_sx_done(void) __attribute__((noreturn));
extern void vp_sx_reach(const char *msg) __attribute__((nomerge));
extern uint64_t vp_sx_concrete(uint64_t v);

static inline uint64_t vp_u64(void) { return vp_sx_input(64); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_sx_input(32); }
static inline uint8_t vp_u8(void) { return (uint8_t)vp_sx_input(8); }
static inline bool vp_bool(void) { return vp_sx_input(8) & 1; }

#define vp_assume(c) vp_sx_assume(!!(c))
#define vp_assert(c, msg) vp_sx_assert(!!(c), msg)
#define vp_done() vp_sx_done()
#define vp_reach(msg) vp_sx_reach(msg)
#define vp_bound(c, msg) vp_sx_bound(!!(c), msg)
#define vp_concrete(v) vp_sx_concrete(v)

#else /* native replay */

extern uint64_t vp_pop(void);
extern void vp_fail(const char *msg, const char *file, int line);
extern void vp_assume_failed(const char *file, int line);
extern void vp_bound_failed(const char *msg);
extern void vp_done(void);

static inline uint64_t vp_u64(void) { return vp_pop(); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_pop(); }
static inline uint8_t vp_u8(void) { return (uint8_t)vp_pop(); }
static inline bool vp_bool(void) { return vp_pop() & 1; }

#define vp_assume(c) ((c) ? (void)0 : vp_assume_failed(__FILE__, __LINE__))
#define vp_assert(c, msg) ((c) ? (void)0 : vp_fail(msg, __FILE__, __LINE__))
#define vp_bound(c, msg) ((c) ? (void)0 : vp_bound_failed(msg))
#define vp_reach(msg) ((void)0)

#endif

/* explore the values of v one by one (sx); no effect elsewhere */
#ifndef vp_concrete
#define vp_concrete(v) (v)
#endif

/* symbolic value in [lo, hi]; a constant when lo == hi */
static inline uint32_t vp_range(uint32_t lo, uint32_t hi)
{
	uint32_t v;

	if (lo == hi)
		return lo;
	v = vp_u32();
	vp_assume(v >= lo && v <= hi);
	return v;
}

/* value in [lo, hi], explored one by one */
static inline uint32_t vp_pick(uint32_t lo, uint32_t hi)
{
	return vp_concrete(vp_range(lo, hi));
}

#endif
