/* C05/C06: real src/hash.c against a reference map, with allocation faults. */
#include "vp.h"
#include "futils/hash.h"

#ifndef PRE
#define PRE 2
#endif
#define MAXE (PRE + 1)
#ifndef KEYMASK
#define KEYMASK 0xffffffffu
#endif
static uint32_t any_key(void) { return vp_u32() & KEYMASK; }

/* allocation model: any call may fail when VP_FAULTS is set; live blocks are counted */
static int vp_live, vp_failed;
static int vp_faults_on;
static size_t vp_last_n;
static void *vp_calloc(size_t n, size_t sz)
{
	vp_last_n = n;
	if (vp_faults_on && vp_bool()) {
		vp_failed++;
		return NULL;
	}
	void *p = calloc(n, sz);
	if (p)
		vp_live++;
	return p;
}
static void *vp_malloc(size_t sz)
{
	if (vp_faults_on && vp_bool()) {
		vp_failed++;
		return NULL;
	}
	void *p = malloc(sz);
	if (p)
		vp_live++;
	return p;
}
static void vp_free(void *p)
{
	if (p)
		vp_live--;
	free(p);
}
#define calloc vp_calloc
#define malloc vp_malloc
#define free vp_free
#include "src/hash.c"
#undef calloc
#undef malloc
#undef free

static unsigned d0, d1, d2, d3, d4;   /* user data; the value counts calls of the free callback */
static unsigned *const dat[5] = { &d0, &d1, &d2, &d3, &d4 };
static void user_free(void *p) { (*(unsigned *)p)++; }

struct ref { uint32_t key; unsigned d; int cst; int live; };
static struct ref m[MAXE];
static unsigned mn;

static int m_find(uint32_t key)
{
	int r = -1;
	for (unsigned i = 0; i < MAXE; i++)
		if (i < mn && m[i].live && m[i].key == key)
			r = (int)i;
	return r;
}

static void check(struct hash *h, uint32_t probe)
{
	void *d = (void *)&mn;
	const void *cd = (const void *)&mn;
	int f = m_find(probe);
	int r = futils_hash_lookup(h, probe, &d);
	int rc = futils_hash_lookup_const(h, probe, &cd);
	if (f < 0) {
		VP_ASSERT(r == -ENOENT && rc == -ENOENT, "absent key not found");
		VP_ASSERT(futils_hash_lookup(h, probe, NULL) == -ENOENT, "absent key not found (existence test)");
	} else {
		if (m[f].cst)
			VP_ASSERT(r == -EPERM, "const entry refused by the non-const lookup");
		else
			VP_ASSERT(r == 0 && d == dat[m[f].d], "lookup returns the inserted data");
		VP_ASSERT(rc == 0 && cd == dat[m[f].d], "const lookup returns the inserted data");
		VP_ASSERT(futils_hash_lookup(h, probe, NULL) == (m[f].cst ? -EPERM : 0), "existence test");
		VP_ASSERT(futils_hash_lookup_const(h, probe, NULL) == 0, "const existence test");
	}
	/* the entries list: exactly the live entries, in insertion order */
	struct list_node *n = h->entries.next;
	for (unsigned i = 0; i < MAXE; i++)
		if (i < mn && m[i].live) {
			VP_ASSERT(n != &h->entries, "live entry listed");
			struct hash_entry *e = list_entry(n, struct hash_entry, node);
			VP_ASSERT(e->key == m[i].key && e->data == dat[m[i].d], "entries listed in insertion order");
			n = n->next;
		}
	VP_ASSERT(n == &h->entries, "no other entry listed");
}

static void do_insert(struct hash *h, uint32_t key, int cst)
{
	int before = vp_live, fb = vp_failed;
	int f = m_find(key);
	int r = cst ? futils_hash_insert_const(h, key, dat[mn]) : futils_hash_insert(h, key, dat[mn]);
	if (vp_failed != fb) {
		VP_ASSERT(r == -ENOMEM || (r == -EEXIST && f >= 0), "allocation failure reported");
		VP_ASSERT(vp_live == before, "failed insertion keeps no memory");
		return;
	}
	if (f >= 0) {
		VP_ASSERT(r == -EEXIST, "existing key refused");
		VP_ASSERT(vp_live == before, "refused insertion keeps no memory");
	} else {
		VP_ASSERT(r == 0, "new key inserted");
		m[mn].key = key;
		m[mn].d = mn;
		m[mn].cst = cst;
		m[mn].live = 1;
		mn++;
	}
}

#ifndef VP_INIT
void vp_main(void)
{
	struct hash *h = malloc(sizeof(*h));
	void (*cb)(void *) = vp_bool() ? user_free : NULL;
	uint32_t probe = any_key();
	int r;

#ifdef VP_FAULTS
	vp_faults_on = 1;
#endif
	r = futils_hash_init(h, SIZE, cb);
	if (r != 0) {
		VP_ASSERT(r == -ENOMEM && vp_failed && vp_live == 0, "initialisation fails only for lack of memory");
		return;
	}
	for (unsigned i = 0; i < PRE; i++) {
		uint32_t key = any_key();
		do_insert(h, key, vp_bool());
		VP_ASSERT(d0 == 0 && d1 == 0 && d2 == 0 && d3 == 0, "nothing freed by insertions");
	}
	unsigned op = OP;
	uint32_t key = any_key();
	int f = m_find(key);
	switch (op) {
	case 0:
		break;
	case 1:
		do_insert(h, key, vp_bool());
		break;
	case 2:
		r = futils_hash_remove(h, key);
		if (f < 0) {
			VP_ASSERT(r == -ENOENT, "removing an absent key fails");
		} else {
			VP_ASSERT(r == 0, "removing a present key succeeds");
			m[f].live = 0;
			if (!m[f].cst)
				VP_ASSERT(*dat[m[f].d] == (cb != NULL), "removed datum freed once by the callback");
		}
		break;
	case 3:
		/* remove then insert the same key again */
		r = futils_hash_remove(h, key);
		VP_ASSERT(r == (f < 0 ? -ENOENT : 0), "remove result");
		if (f >= 0)
			m[f].live = 0;
		do_insert(h, key, vp_bool());
		break;
	case 4:
		r = futils_hash_remove_all(h);
		VP_ASSERT(r == 0, "remove all succeeds");
		for (unsigned i = 0; i < MAXE; i++)
			if (i < mn) {
				m[i].live = 0;
				if (!m[i].cst)
					VP_ASSERT(*dat[m[i].d] == (cb != NULL), "each datum freed once by remove all");
			}
		VP_ASSERT(vp_live == 1, "only the bucket table remains");
		do_insert(h, key, vp_bool());
		break;
	}
	check(h, probe);
	for (unsigned i = 0; i < MAXE; i++)
		if (i < mn && m[i].live)
			VP_ASSERT(*dat[m[i].d] == 0, "live datum not freed");
	r = futils_hash_destroy(h);
	VP_ASSERT(r == 0, "destroy succeeds");
	VP_ASSERT(vp_live == 0, "destroy releases all table memory");
	for (unsigned i = 0; i < MAXE; i++)
		if (i < mn && !m[i].cst)
			VP_ASSERT(*dat[m[i].d] == (cb != NULL), "every non-const datum freed exactly once");
	VP_REACH_IF(mn == PRE && (op != 2 || f == 0), "all inserted, first entry addressed");
	VP_REACH_IF(cb == user_free && mn >= 1 && !m[0].cst, "callback used");
#ifdef VP_FAULTS
	VP_REACH_IF(vp_failed == 1 && mn == 1, "allocation failure");
#endif
	VP_ASSERT(futils_hash_insert(NULL, 0, NULL) == -EINVAL && futils_hash_insert_const(NULL, 0, NULL) == -EINVAL &&
		  futils_hash_remove(NULL, 0) == -EINVAL && futils_hash_remove_all(NULL) == -EINVAL &&
		  futils_hash_destroy(NULL) == -EINVAL && futils_hash_lookup(NULL, 0, NULL) == -EINVAL &&
		  futils_hash_lookup_const(NULL, 0, NULL) == -EINVAL && futils_hash_init(NULL, 1, NULL) == -EINVAL,
		  "NULL table refused");
}
#endif

#ifdef VP_INIT
/* any requested size: initialisation terminates, asks for a non-empty bucket
 * array and reports lack of memory */
void vp_main(void)
{
	struct hash h;
	size_t size = vp_u64();
	vp_faults_on = 1;
	int r = futils_hash_init(&h, size, NULL);
	if (size > 1)
		VP_ASSUME(vp_failed);
	if (vp_failed) {
		VP_ASSERT(r == -ENOMEM, "lack of memory reported");
		VP_ASSERT(vp_last_n >= 1, "bucket array never empty");
		VP_REACH_IF(size == (size_t)-1, "largest size");
	} else {
		VP_ASSERT(r == 0, "initialised");
		VP_ASSERT(list_is_empty(&h.entries), "empty at start");
		VP_ASSERT(futils_hash_lookup(&h, 5, NULL) == -ENOENT, "nothing found at start");
		VP_ASSERT(futils_hash_destroy(&h) == 0 && vp_live == 0, "destroy releases all");
		VP_REACH_IF(size == 0, "smallest size");
		VP_REACH_IF(size == 1, "larger size");
	}
}
#endif
