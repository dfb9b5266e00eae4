SEEDS = [
dict(id="hash-remove-third", property="C05", file="src/hash.c", src=["src/hash.c"],
 edits=[("\tprev = NULL;\n\twhile (entry && entry->key != key) {\n\t\tprev = entry;\n", "\tprev = NULL;\n\twhile (entry && entry->key != key) {\n\t\tif (prev == NULL)\n\t\t\tprev = entry;\n")],
 needs="three keys of one bucket, then removing the one at the tail of the chain",
 breaks="removing the third entry of a chain unlinks the one in the middle too: its key is no longer found",
 demo=r'''
#include <stdio.h>
#include <stdlib.h>
#include "futils/hash.h"
int main(void)
{
	struct hash h;
	int v[5] = { 1, 2, 3, 4, 5 };
	futils_hash_init(&h, 0, NULL);	/* one bucket: everything collides */
	for (int i = 0; i < 5; i++)
		futils_hash_insert(&h, 10 + i, &v[i]);
	if (futils_hash_remove(&h, 11) != 0)
		return 1;
	for (int i = 0; i < 5; i++) {
		void *p = NULL;
		int r = futils_hash_lookup(&h, 10 + i, &p);
		if (i == 1 ? r != -ENOENT : (r != 0 || p != &v[i])) {
			printf("key %d lost\n", 10 + i);
			return 2;
		}
	}
	futils_hash_destroy(&h);
	return 0;
}
'''),
dict(id="hash-dup-frees-data", property="C06", file="src/hash.c", src=["src/hash.c"],
 edits=[("\tret = futils_hash_insert_entry(hash, key, entry);\n\tif (ret < 0)\n\t\tfree(entry);\n", "\tret = futils_hash_insert_entry(hash, key, entry);\n\tif (ret < 0 && hash->hfree)\n\t\thash->hfree(data);\n\tif (ret < 0)\n\t\tfree(entry);\n")],
 needs="inserting the same datum twice under one key (or any refused insertion) with a free callback",
 breaks="a refused insertion hands the datum to the free callback although it is still in the table; it is freed again later",
 demo=r'''
#include <stdio.h>
#include <stdlib.h>
#include "futils/hash.h"
static int freed;
static void fr(void *p) { (void)p; freed++; }
int main(void)
{
	struct hash h;
	int v = 1;
	futils_hash_init(&h, 10, &fr);
	if (futils_hash_insert(&h, 5, &v) != 0 || futils_hash_insert(&h, 5, &v) != -EEXIST)
		return 1;
	if (freed != 0) {
		printf("freed while still in the table\n");
		return 2;
	}
	futils_hash_destroy(&h);
	return freed == 1 ? 0 : 3;
}
'''),
dict(id="hash-removeall-list", property="C05", file="src/hash.c", src=["src/hash.c"],
 edits=[("\t\t\tnext = entry->next;\n\t\t\tlist_del(&entry->node);\n", "\t\t\tnext = entry->next;\n"), ("\t\thash->buckets[i] = NULL;\n\t}\n\n\treturn 0;\n", "\t\thash->buckets[i] = NULL;\n\t}\n\tif (hash->size > 1)\n\t\tlist_init(&hash->entries);\n\n\treturn 0;\n")],
 needs="remove-all on a table of the smallest size (one bucket), then walking the entries or inserting again",
 breaks="the entries list of a one-bucket table still links released entries after remove-all",
 demo=r'''
#include <stdio.h>
#include <stdlib.h>
#include "futils/hash.h"
int main(void)
{
	struct hash h;
	int v[3] = { 1, 2, 3 };
	futils_hash_init(&h, 0, NULL);
	futils_hash_insert(&h, 1, &v[0]);
	futils_hash_insert(&h, 2, &v[1]);
	futils_hash_remove_all(&h);
	if (!list_is_empty(&h.entries)) {
		printf("entries left in the list\n");
		return 1;
	}
	futils_hash_insert(&h, 3, &v[2]);
	if (list_length(&h.entries) != 1)
		return 2;
	return 0;
}
'''),
dict(id="varint-i64-nine", property="C01", file="src/varint.c", src=["src/varint.c"], last=True, san="-fsanitize=address",
 edits=[("val64, val_len, sizeof(val) + 2);", "val64, val_len, sizeof(val) + 1);")],
 needs="writing a 64-bit signed value whose encoding takes ten bytes into a nine byte buffer",
 breaks="a nine byte destination is accepted for 64-bit signed values and written past its end",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <errno.h>
#include "futils/varint.h"
int main(void)
{
	uint8_t *b = malloc(9);
	size_t n = 0;
	int r = futils_varint_write_i64(b, 9, INT64_MIN, &n);
	if (r != -EINVAL) {
		printf("nine bytes accepted: %d\n", r);
		return 1;
	}
	return 0;
}
'''),
dict(id="varint-i16-sign", property="C02", file="src/varint.c", src=["src/varint.c"],
 edits=[("*val = ((int16_t)(val64 >> 1)) ^ -((int16_t)(val64 & 0x1));\n\treturn res;", "*val = (int16_t)((uint8_t)(val64 >> 1) | (val64 >> 1 & 0xff00)) ^\n\t\t-((int16_t)(val64 & 0x1));\n\tif (res == 0 && *val_len == 3 && !(val64 >> 14))\n\t\tres = -EPROTO;\n\treturn res;")],
 needs="a 16-bit signed value written in three bytes with a leading zero group (a non-minimal but complete encoding)",
 breaks="a complete encoding that fits the type is refused with -EPROTO",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include <errno.h>
#include "futils/varint.h"
int main(void)
{
	const uint8_t b[3] = { 0x84, 0x80, 0x00 };
	int16_t v = 0;
	size_t n = 0;
	int r = futils_varint_read_i16(b, 3, &v, &n);
	if (r != 0 || v != 2 || n != 3) {
		printf("r=%d v=%d n=%zu\n", r, v, n);
		return 1;
	}
	return 0;
}
'''),
dict(id="list-move-adjacent", property="C03", file="include/futils/list.h",
 edits=[("\tlist_detach(from->prev, from->next);\n\tlist_add_before(to, from);", "\tstruct list_node *prev = to->prev;\n\tlist_detach(from->prev, from->next);\n\tlist_add(from, prev, to);")],
 needs="moving an element before the one it already precedes",
 breaks="moving a node before its own successor makes the node point to itself and corrupts the ring",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include "futils/list.h"
int main(void)
{
	struct list_node l, n[3], *p;
	list_init(&l);
	for (int i = 0; i < 3; i++)
		list_add_before(&l, &n[i]);
	list_move_before(&n[1], &n[0]);	/* already there */
	p = &l;
	for (int i = 0; i < 3; i++) {
		p = p->next;
		if (p != &n[i] || p->next->prev != p || p->prev->next != p) {
			printf("broken at %d\n", i);
			return 1;
		}
	}
	return p->next == &l ? 0 : 2;
}
'''),
dict(id="list-last-single", property="C04", file="include/futils/list.h",
 edits=[("\treturn list->prev == node;", "\t/* the head itself is no element */\n\treturn node->next == list && node->prev != list;")],
 needs="a list of exactly one element",
 breaks="the only element of a list is not reported as the last one",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include "futils/list.h"
int main(void)
{
	struct list_node l, n[2];
	list_init(&l);
	list_add_before(&l, &n[0]);
	if (!list_is_last(&l, &n[0]))
		return 1;
	list_add_before(&l, &n[1]);
	return !list_is_last(&l, &n[0]) && list_is_last(&l, &n[1]) ? 0 : 2;
}
'''),
dict(id="time-cmp-wide", property="C07", file="src/timetools.c", src=["src/timetools.c"],
 edits=[("\tif (t1->tv_sec > t2->tv_sec) {\n\t\tret = 1;\n\t} else if (t1->tv_sec < t2->tv_sec) {\n\t\tret = -1;\n\t} else {", "\tint sec = (int)(t1->tv_sec - t2->tv_sec);\n\n\tif (sec > 0) {\n\t\tret = 1;\n\t} else if (sec < 0) {\n\t\tret = -1;\n\t} else {")],
 needs="two instants at least 2^31 seconds apart (one before 1970, one after 2038)",
 breaks="comparison truncates the second difference to 32 bits: far apart instants compare the wrong way",
 demo=r'''
#include <stdio.h>
#include "futils/timetools.h"
int main(void)
{
	struct timespec a = { 3000000000LL, 0 }, b = { 100, 5 }, c = { 4294967396LL, 5 };
	if (time_timespec_cmp(&a, &b) != 1 || time_timespec_cmp(&b, &a) != -1 || time_timespec_cmp(&c, &b) != 1) {
		printf("wrong order\n");
		return 1;
	}
	return 0;
}
'''),
dict(id="time-addns-exact-second", property="C07", file="src/timetools.c", src=["src/timetools.c"],
 edits=[("\tif (res->tv_nsec >= 1000000000) {", "\tif (res->tv_nsec > 1000000000) {")],
 needs="a sum whose nanoseconds make exactly one second",
 breaks="the produced timestamp has a nanosecond field of 1000000000",
 demo=r'''
#include <stdio.h>
#include "futils/timetools.h"
int main(void)
{
	struct timespec a = { 7, 400000000 }, r;
	time_timespec_add_ns(&a, 600000000, &r);
	if (r.tv_sec != 8 || r.tv_nsec != 0) {
		printf("%lld.%ld\n", (long long)r.tv_sec, r.tv_nsec);
		return 1;
	}
	return 0;
}
'''),
dict(id="time-sec-32bit", property="C08", file="src/timetools.c", src=["src/timetools.c"],
 edits=[("*us = (uint64_t)value->tv_sec * 1000000UL + (value->tv_nsec / 1000UL);", "*us = (uint32_t)value->tv_sec * 1000000ULL + (value->tv_nsec / 1000UL);")],
 needs="an instant after 2106 (seconds beyond 32 bits)",
 breaks="conversion to microseconds loses the upper half of the seconds",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include "futils/timetools.h"
int main(void)
{
	struct timespec a = { 5000000000LL, 1999 };
	uint64_t us = 0;
	time_timespec_to_us(&a, &us);
	return us == 5000000000ULL * 1000000ULL + 1 ? 0 : 1;
}
'''),
dict(id="time-diffus-sign", property="C09", file="src/timetools.c", src=["src/timetools.c"],
 edits=[("\tif (time_timespec_cmp(t1, t2) == 1) {\n\t\tret = time_timespec_diff(t2, t1, &duration_diff_ts);", "\tif (t1->tv_sec > t2->tv_sec ||\n\t    (t1->tv_sec == t2->tv_sec &&\n\t     t1->tv_nsec / 1000 > t2->tv_nsec / 1000)) {\n\t\tret = time_timespec_diff(t2, t1, &duration_diff_ts);")],
 needs="two instants within the same microsecond, the first one later",
 breaks="the distance of instants less than a microsecond apart is refused when the first is later",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include "futils/timetools.h"
int main(void)
{
	struct timespec a = { 5, 1999 }, b = { 5, 1000 };
	uint64_t us = 77;
	int sign = 0;
	int r = time_timespec_diff_us(&a, &b, &us, &sign);
	return r == 0 && us == 0 && sign == 1 ? 0 : 1;
}
'''),
dict(id="time-mono-failure", property="C10", file="src/timetools.c", src=["src/timetools.c"], ld="-Wl,--wrap=clock_gettime",
 edits=[("\tret = time_get_monotonic(&mt_now2_ts);\n\tif (ret < 0)\n\t\treturn ret;\n", "\tif (time_get_monotonic(&mt_now2_ts) < 0)\n\t\tmt_now2_ts = mt_now1_ts;\n"), ("*rt_us = rt_now_us - duration_us;", "*rt_us = mt_us > mt_now_us ? rt_now_us + (uint32_t)(mt_us - mt_now_us) :\n\t\t\trt_now_us - duration_us;")],
 needs="a monotonic instant more than 2^32 microseconds (71 minutes) in the future, or the second clock sample failing",
 breaks="far future instants are converted with a truncated offset; a failing second sample is hidden",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include <errno.h>
#include "futils/timetools.h"
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	ts->tv_sec = c == CLOCK_MONOTONIC ? 1000 : 1600000000;
	ts->tv_nsec = 0;
	return 0;
}
int main(void)
{
	uint64_t rt = 0, off = 5000000000ULL;
	if (time_monotonic_to_realtime_us(1000000000ULL + off, &rt) != 0 || rt != 1600000000000000ULL + off) {
		printf("%llu\n", (unsigned long long)rt);
		return 1;
	}
	return 0;
}
'''),
]
