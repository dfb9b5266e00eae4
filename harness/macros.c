/* C42: the public helper macros, operands of type T and U. */
#include "vp.h"
#include "futils/list.h"
#include "futils/futils.h"
static int evals;
static T once(T v) { evals++; return v; }
void vp_main(void)
{
	T a, b, lo, hi;
	uint64_t ra = vp_u64(), rb = vp_u64(), rl = vp_u64(), rh = vp_u64();
	a = (T)ra; b = (T)rb; lo = (T)rl; hi = (T)rh;
#ifdef VP_FLOAT
	/* any bit pattern except NaN */
	memcpy(&a, &ra, sizeof(a)); memcpy(&b, &rb, sizeof(b));
	memcpy(&lo, &rl, sizeof(lo)); memcpy(&hi, &rh, sizeof(hi));
	VP_ASSUME(a == a && b == b && lo == lo && hi == hi);
#endif
	T mn = FUTILS_MIN(a, b), mx = FUTILS_MAX(a, b);
	VP_ASSERT((mn == a || mn == b) && mn <= a && mn <= b, "minimum");
	VP_ASSERT((mx == a || mx == b) && mx >= a && mx >= b, "maximum");
	VP_ASSERT(MIN(a, b) == mn && MAX(a, b) == mx, "short names agree");
	VP_ASSUME(lo <= hi);
	T c = FUTILS_BOUND(a, lo, hi);
	VP_ASSERT(c >= lo && c <= hi, "clamped inside");
	VP_ASSERT(a < lo ? c == lo : a > hi ? c == hi : c == a, "clamped to the nearest");
	VP_ASSERT(BOUND(a, lo, hi) == c, "short name agrees");
	evals = 0;
	(void)FUTILS_MIN(once(a), once(b));
	(void)FUTILS_MAX(once(a), once(b));
	(void)FUTILS_BOUND(once(a), once(lo), once(hi));
	VP_ASSERT(evals == 7, "each argument evaluated exactly once");
	T n3 = FUTILS_MAX(FUTILS_MIN(a, b), FUTILS_MIN(lo, hi));
	VP_ASSERT(n3 == (mn > lo ? mn : lo), "nesting");
	VP_REACH_IF(a < lo, "below");
	VP_REACH_IF(a > hi, "above");
	VP_REACH_IF(a > lo && a < hi, "inside");
	/* mixed operand types that the usual conversions compare exactly */
	int64_t w = vp_i64();
	int32_t h = vp_i32();
	VP_ASSERT(FUTILS_MIN(w, h) == (w < (int64_t)h ? w : (int64_t)h), "mixed width minimum");
	VP_ASSERT(FUTILS_MAX(h, w) == (w > (int64_t)h ? w : (int64_t)h), "mixed width maximum");
	/* array length, member type and container */
	T arr[7];
	struct { char c; T t[3]; short s; } arr2[5];
	VP_ASSERT(FUTILS_SIZEOF_ARRAY(arr) == 7 && SIZEOF_ARRAY(arr2) == 5 && SIZEOF_ARRAY(arr2[0].t) == 3, "array length");
	struct elem { char pad; T before; struct list_node node; T after; } e;
	TYPEOF_STRUCT_MEMBER(struct elem, before) copy = a;
	e.before = a;
	e.after = b;
	struct elem *p = list_entry(&e.node, struct elem, node);
	VP_ASSERT(p == &e && p->before == a && p->after == b && copy == a && sizeof(copy) == sizeof(T), "container of a member");
}
