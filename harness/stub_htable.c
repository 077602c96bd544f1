/* Abstract model of shl-htable for clients of it: an unordered set of object
 * pointers searched with the client's compare callback.  The real hash table
 * is decided against this same model by H02. */
#include "vp.h"
#include "shl-htable.h"

#ifndef HT_MAX
#define HT_MAX 16
#endif
static const void *objs[HT_MAX];
static unsigned int num;
extern unsigned int vp_fail_budget;
extern unsigned int vp_failed;
static struct shl_htable *self;

void shl_htable_init(struct shl_htable *htable, bool (*compare)(const void *a, const void *b),
		     size_t (*rehash)(const void *elem, void *priv), void *priv)
{
	htable->compare = compare;
	htable->htable.rehash = rehash;
	self = htable;
	num = 0;
}

void shl_htable_clear(struct shl_htable *htable, void (*free_cb)(void *elem, void *ctx), void *ctx)
{
	unsigned int i;

	for (i = 0; i < num; ++i)
		if (free_cb)
			free_cb((void *)objs[i], ctx);
	num = 0;
}

bool shl_htable_lookup(struct shl_htable *htable, const void *obj, size_t hash, void **out)
{
	unsigned int i;

	for (i = 0; i < num; ++i)
		if (htable->compare(obj, objs[i])) {
#ifdef HT_CHECK_HASH
			vp_assert(htable->htable.rehash(objs[i], NULL) == hash, "equal keys have equal hashes");
#endif
			if (out)
				*out = (void *)objs[i];
			return true;
		}
	return false;
}

int shl_htable_insert(struct shl_htable *htable, const void *obj, size_t hash)
{
	if (vp_fail_budget && vp_bool()) {
		--vp_fail_budget;
		++vp_failed;
		return -ENOMEM;
	}
	vp_bound(num < HT_MAX, "model hash table capacity");
#ifdef HT_CHECK_HASH
	vp_assert(htable->htable.rehash(obj, NULL) == hash, "inserted under its own hash");
#endif
	objs[num++] = obj;
	return 0;
}

bool shl_htable_remove(struct shl_htable *htable, const void *obj, size_t hash, void **out)
{
	unsigned int i;

	for (i = 0; i < num; ++i)
		if (htable->compare(obj, objs[i])) {
			if (out)
				*out = (void *)objs[i];
			objs[i] = objs[num - 1];
			--num;
			return true;
		}
	return false;
}
