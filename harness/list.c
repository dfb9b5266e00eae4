/* C03/C04: real include/futils/list.h against an array model of two lists. */
#include "vp.h"
#include "futils/list.h"

#ifndef POOL
#define POOL 6
#endif
#ifndef START
#define START 3
#endif
#ifndef OPSEL
#define OPSEL (k == 0 ? OP0 : OP1)
#endif
#ifndef OPS
#define OPS 2
#endif

struct item {
	uint16_t pad;
	struct list_node node;
	uint32_t v;
};

#ifdef VP_MUT
/* one object per node: pointers resolve to whole objects, not to offsets */
static struct item it0, it1, it2, it3, it4, it5, it6;
static struct item *const it[7] = { &it0, &it1, &it2, &it3, &it4, &it5, &it6 };
static struct list_node head0, head1;
static struct list_node *const headp[2] = { &head0, &head1 };
static struct item *seq[2][POOL + 1];
static unsigned len[2];
static unsigned freen;              /* it[freen..POOL-1] never used yet */

static struct list_node *anchor(unsigned l, unsigned p)
{
	return p == len[l] ? headp[l] : &seq[l][p]->node;
}
static void m_insert(unsigned l, unsigned p, struct item *e)
{
	for (unsigned i = POOL; i > 0; i--)
		if (i > p && i <= len[l])
			seq[l][i] = seq[l][i - 1];
	seq[l][p] = e;
	len[l]++;
}
static void m_remove(unsigned l, unsigned p)
{
	for (unsigned i = 0; i + 1 < POOL + 1; i++)
		if (i >= p && i + 1 < len[l])
			seq[l][i] = seq[l][i + 1];
	len[l]--;
}
static void check(void)
{
	for (unsigned l = 0; l < 2; l++) {
		struct list_node *n = headp[l];
		for (unsigned i = 0; i < POOL; i++) {
			if (i < len[l]) {
				VP_ASSERT(n->next == &seq[l][i]->node, "forward order");
				VP_ASSERT(n->next->prev == n, "backward link mirrors forward link");
				n = n->next;
			}
		}
		VP_ASSERT(n->next == headp[l] && headp[l]->prev == n, "ring closed after the last element");
	}
}

void vp_main(void)
{
	list_init(headp[0]);
	list_init(headp[1]);
	VP_ASSERT(list_is_empty(headp[0]), "initialised list is empty");
	unsigned n0 = vp_range(0, START), n1 = vp_range(0, START - 1);
	for (unsigned i = 0; i < START; i++)
		if (i < n0) {
			list_push(headp[0], &it[freen]->node);
			m_insert(0, len[0], it[freen]);
			freen++;
		}
	for (unsigned i = 0; i < START - 1; i++)
		if (i < n1) {
			list_add_after(headp[1], &it[freen]->node);
			m_insert(1, 0, it[freen]);
			freen++;
		}
	check();
	for (unsigned k = 0; k < OPS; k++) {
		unsigned op = OPSEL, l = vp_bool(), p = vp_range(0, POOL), l2 = vp_bool(), p2 = vp_range(0, POOL);
		VP_ASSUME(p <= len[l] && p2 <= len[l2]);
		struct item *e = p < len[l] ? seq[l][p] : NULL;
		struct item *nov = freen < POOL ? it[freen] : NULL;
		struct list_node *old;
		switch (op) {
		case 0:
			VP_ASSUME(nov);
			list_add_after(anchor(l, p), &nov->node);
			m_insert(l, p == len[l] ? 0 : p + 1, nov);
			freen++;
			break;
		case 1:
			VP_ASSUME(nov);
			list_add_before(anchor(l, p), &nov->node);
			m_insert(l, p, nov);
			freen++;
			break;
		case 2:
			VP_ASSUME(e);
			old = &e->node;
			list_del(old);
			m_remove(l, p);
			VP_ASSERT(list_node_is_unref(old) && !list_node_is_ref(old), "deleted node is unreferenced");
			break;
		case 3:
			VP_ASSUME(e);
			old = &e->node;
			list_del_init(old);
			m_remove(l, p);
			VP_ASSERT(old->next == old && old->prev == old, "deleted node re-initialised");
			VP_ASSERT(list_is_empty(old), "re-initialised node is an empty list");
			break;
		case 4:
			VP_ASSUME(e && nov);
			list_replace(&e->node, &nov->node);
			seq[l][p] = nov;
			freen++;
			break;
		case 5:
			VP_ASSUME(e && nov);
			list_replace_init(&e->node, &nov->node);
			VP_ASSERT(e->node.next == &e->node && e->node.prev == &e->node, "replaced node re-initialised");
			seq[l][p] = nov;
			freen++;
			break;
		case 6: case 7: {
			/* move element (l,p) after/before anchor (l2,p2), the anchor being another node */
			VP_ASSUME(e && !(l == l2 && p == p2));
			struct list_node *a = anchor(l2, p2);
			if (op == 6)
				list_move_after(a, &e->node);
			else
				list_move_before(a, &e->node);
			int to_head = p2 == len[l2];
			m_remove(l, p);
			unsigned q = p2;
			if (!to_head && l == l2 && p < p2)
				q--;
			if (op == 6)
				q = to_head ? 0 : q + 1;
			else
				q = to_head ? len[l2] : q;
			m_insert(l2, q, e);
			break;
		}
		case 8:
			VP_ASSUME(nov);
			list_push(headp[l], &nov->node);
			m_insert(l, len[l], nov);
			freen++;
			break;
		case 9: {
			struct item *r = list_pop(headp[l], struct item, node);
			if (len[l] == 0) {
				VP_ASSERT(r == NULL, "pop of an empty list is NULL");
			} else {
				VP_ASSERT(r == seq[l][0], "pop returns the oldest element");
				VP_ASSERT(list_node_is_unref(&r->node), "popped node is unreferenced");
				m_remove(l, 0);
			}
			break;
		}
		}
		check();
		VP_ASSERT(list_length(headp[0]) == len[0], "length after the operation");
		VP_REACH_IF(k == OPS - 1 && len[0] >= 2, "operation leaving two elements");
		VP_REACH_IF(k == OPS - 1 && len[1] >= 1, "operation leaving an element in the second list");
	}
}
#endif

#ifdef VP_WALK
#ifndef N
#define N 5
#endif
/* the head lives in an item so that the entry of the head stays inside an object */
static struct item hd = { .node = list_head_init(hd.node) };
#define head hd.node
#ifndef NSEL
#define NSEL vp_range(0, N)
#endif
#ifndef MODE
#define MODE vp_range(0, 8)
#endif

void vp_main(void)
{
	struct item *e[N];
	unsigned n = NSEL, i, c;
	uint32_t mask = vp_range(0, (1u << N) - 1);
	unsigned mode = MODE;
	struct list_node *pos, *tmp;
	struct item *ep, *et;

	VP_ASSERT(list_is_empty(&head) && list_length(&head) == 0, "static initialiser is an empty list");
	for (i = 0; i < N; i++)
		if (i < n) {
			e[i] = malloc(sizeof(struct item));
			e[i]->v = i;
			list_add_before(&head, &e[i]->node);
		}
	c = 0;
	switch (mode) {
	case 0:
		list_walk_forward(&head, pos) {
			VP_ASSERT(c < n, "walk ends");
			VP_ASSERT(pos == &e[c]->node && list_entry(pos, struct item, node) == e[c], "forward walk order");
			c++;
		}
		VP_ASSERT(c == n, "forward walk complete");
		break;
	case 1:
		list_walk_backward(&head, pos) {
			VP_ASSERT(c < n, "walk ends");
			VP_ASSERT(pos == &e[n - 1 - c]->node, "backward walk order");
			c++;
		}
		VP_ASSERT(c == n, "backward walk complete");
		break;
	case 2:
		list_walk_entry_forward(&head, ep, node) {
			VP_ASSERT(c < n, "walk ends");
			VP_ASSERT(ep == e[c] && ep->v == c, "forward entry walk order");
			c++;
		}
		VP_ASSERT(c == n, "forward entry walk complete");
		break;
	case 3:
		list_walk_entry_backward(&head, ep, node) {
			VP_ASSERT(c < n, "walk ends");
			VP_ASSERT(ep == e[n - 1 - c], "backward entry walk order");
			c++;
		}
		VP_ASSERT(c == n, "backward entry walk complete");
		break;
	case 4:
		list_walk_forward_safe(&head, pos, tmp) {
			VP_ASSERT(c < n, "walk ends");
			VP_ASSERT(pos == &e[c]->node, "safe forward walk order");
			if (mask & (1u << c)) {
				list_del(pos);
				free(e[c]);
			}
			c++;
		}
		VP_ASSERT(c == n, "safe forward walk complete");
		break;
	case 5:
		list_walk_backward_safe(&head, pos, tmp) {
			VP_ASSERT(c < n, "walk ends");
			VP_ASSERT(pos == &e[n - 1 - c]->node, "safe backward walk order");
			if (mask & (1u << (n - 1 - c))) {
				list_del(pos);
				free(e[n - 1 - c]);
			}
			c++;
		}
		VP_ASSERT(c == n, "safe backward walk complete");
		break;
	case 6:
		list_walk_entry_forward_safe(&head, ep, et, node) {
			VP_ASSERT(c < n, "walk ends");
			VP_ASSERT(ep == e[c], "safe forward entry walk order");
			if (mask & (1u << c)) {
				list_del(&ep->node);
				free(ep);
			}
			c++;
		}
		VP_ASSERT(c == n, "safe forward entry walk complete");
		break;
	case 7:
		list_walk_entry_backward_safe(&head, ep, et, node) {
			VP_ASSERT(c < n, "walk ends");
			VP_ASSERT(ep == e[n - 1 - c], "safe backward entry walk order");
			if (mask & (1u << (n - 1 - c))) {
				list_del(&ep->node);
				free(ep);
			}
			c++;
		}
		VP_ASSERT(c == n, "safe backward entry walk complete");
		break;
	case 8:
		VP_ASSERT(list_length(&head) == n, "length");
		VP_ASSERT(!!list_is_empty(&head) == (n == 0), "emptiness");
		VP_ASSERT(list_first(&head) == (n ? &e[0]->node : &head), "first");
		VP_ASSERT(list_last(&head) == (n ? &e[n - 1]->node : &head), "last");
		VP_ASSERT(list_next(&head, &head) == (n ? &e[0]->node : NULL), "next of the head");
		VP_ASSERT(list_prev(&head, &head) == (n ? &e[n - 1]->node : NULL), "prev of the head");
		for (i = 0; i < N; i++)
			if (i < n) {
				VP_ASSERT(list_next(&head, &e[i]->node) == (i + 1 < n ? &e[i + 1]->node : NULL), "next");
				VP_ASSERT(list_prev(&head, &e[i]->node) == (i ? &e[i - 1]->node : NULL), "prev");
				VP_ASSERT(!!list_is_last(&head, &e[i]->node) == (i == n - 1), "is_last");
				VP_ASSERT(list_node_is_ref(&e[i]->node), "element is referenced");
			}
		return;
	}
	/* whatever was removed, the survivors are still all there in order */
	if (mode < 4)
		mask = 0;
	struct list_node *w = &head;
	for (i = 0; i < N; i++)
		if (i < n && !(mask & (1u << i))) {
			VP_ASSERT(w->next == &e[i]->node && e[i]->node.prev == w, "survivors in order");
			w = w->next;
		}
	VP_ASSERT(w->next == &head && head.prev == w, "ring closed");
	VP_REACH_IF(mode == 6 && mask == (1u << N) - 1, "remove all forward");
	VP_REACH_IF(mode == 7 && mask == 1, "remove one backward");
	VP_REACH_IF(mode == 0, "plain walk");
}
#endif
