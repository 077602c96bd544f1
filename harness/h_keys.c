/* The ready-made hash tables for numbers and strings: any few insertions,
 * removals and lookups against a multiset of keys. */
#include "vp.h"
#include "shl-htable.h"

#ifndef NE
#define NE 2
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef SL
#define SL 1
#endif
#ifndef MASK
#define MASK 0xffffffffffffffff
#endif

int main(void)
{
	unsigned int cnt[NE] = { 0 }, i, s, k, n;
	struct shl_htable ht;
#ifdef STR
	static char str[NE + 1][SL + 1];
	char *ps[NE + 1], **out;
	size_t h[NE + 1];
	bool keep = vp_bool();

	for (i = 0; i <= NE; ++i) {
		for (k = 0; k < SL; ++k)
			str[i][k] = (char)vp_u8();
		ps[i] = str[i];
		h[i] = 0;
	}
	shl_htable_init_str(&ht);
#define EQ(a, b) (!strcmp(str[a], str[b]))
#define VAL(o) (o)
#define LOOKUP(a) shl_htable_lookup_str(&ht, str[a], keep ? &h[a] : NULL, &out)
#define INSERT(a) shl_htable_insert_str(&ht, &ps[a], keep ? &h[a] : NULL)
#define REMOVE(a) shl_htable_remove_str(&ht, str[a], keep ? &h[a] : NULL, &out)
#define ELEM(a) &ps[a]
#else
	unsigned long v[NE + 1], *out;

	for (i = 0; i <= NE; ++i)
		v[i] = vp_u64() & MASK;
	shl_htable_init_ulong(&ht);
#define EQ(a, b) (v[a] == v[b])
#define LOOKUP(a) shl_htable_lookup_ulong(&ht, v[a], &out)
#define INSERT(a) shl_htable_insert_ulong(&ht, &v[a])
#define REMOVE(a) shl_htable_remove_ulong(&ht, v[a], &out)
#define ELEM(a) &v[a]
#endif
	for (s = 0; s < OPS; ++s) {
		bool r;

		k = vp_pick(0, NE);
		if (k == NE) {
			k = vp_pick(0, NE);
			out = NULL;
			r = REMOVE(k);
			for (i = n = 0; i < NE; ++i)
				n += cnt[i] && EQ(i, k);
			vp_assert(r == (n > 0), "a key is removed when it was inserted");
			if (r) {
				for (i = n = 0; i < NE; ++i)
					if (out == ELEM(i)) {
						vp_assert(cnt[i] && EQ(i, k), "the element removed has the key");
						--cnt[i];
						++n;
					}
				vp_assert(n == 1, "one element is removed");
			}
		} else {
			vp_assert(INSERT(k) == 0, "insertion succeeds");
			++cnt[k];
		}
		for (k = 0; k <= NE; ++k) {
			out = NULL;
			r = LOOKUP(k);
			for (i = n = 0; i < NE; ++i)
				n += cnt[i] && EQ(i, k);
			vp_assert(r == (n > 0), "a key is found when it was inserted");
			for (i = n = 0; i < NE; ++i)
				if (out == ELEM(i)) {
					vp_assert(cnt[i] && EQ(i, k), "the element found has the key");
					++n;
				}
			vp_assert(n == r, "an inserted element is found");
		}
	}
	shl_htable_clear(&ht, NULL, NULL);
	vp_done();
	return 0;
}
