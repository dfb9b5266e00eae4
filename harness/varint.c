/* C01/C02: variable-length integers, real src/varint.c.
 * VP_T selects the type: 16u 16i 32u 32i 64u 64i; VP_RT round-trip, VP_DEC decoding. */
#include "vp.h"
#include "src/varint.c"

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#if VP_SIGNED
#define RD CAT(futils_varint_read_i, VP_BITS)
#define WR CAT(futils_varint_write_i, VP_BITS)
typedef CAT(CAT(int, VP_BITS), _t) val_t;
#else
#define RD CAT(futils_varint_read_u, VP_BITS)
#define WR CAT(futils_varint_write_u, VP_BITS)
typedef CAT(CAT(uint, VP_BITS), _t) val_t;
#endif
typedef CAT(CAT(uint, VP_BITS), _t) uval_t;
#define MAXLEN ((VP_BITS + 6) / 7)

/* independent reference: zigzag as defined by protocol buffers / Wikipedia */
static uint64_t ref_unsigned(val_t v)
{
#if VP_SIGNED
	/* 0,-1,1,-2,... -> 0,1,2,3,... */
	if (v >= 0)
		return (uint64_t)v * 2;
	return ((uint64_t)(-(v + 1))) * 2 + 1;
#else
	return v;
#endif
}
static size_t ref_encode(uint64_t u, uint8_t *out)
{
	size_t n = 0;
	for (size_t i = 0; i < 10; i++) {
		uint8_t group = (uint8_t)((u >> (7 * i)) & 0x7f);
		uint64_t rest = i < 9 ? u >> (7 * (i + 1)) : 0;
		out[n++] = rest ? (uint8_t)(group | 0x80) : group;
		if (!rest)
			break;
	}
	return n;
}

#ifdef VP_RT
void vp_main(void)
{
	uint8_t ref[10], backup[MAXLEN];
	size_t cap = vp_range(0, MAXLEN + 2);
	uint8_t *buf = malloc(cap ? cap : 1);
	val_t v = (val_t)vp_u64(), back = (val_t)vp_u64();
	size_t len = 99, rlen = 98, n, i;
	uint8_t pat = vp_u8();
	int ret;

	n = ref_encode(ref_unsigned(v), ref);
	for (i = 0; i < cap; i++)
		buf[i] = pat;
	ret = WR(buf, cap, v, &len);
	if (cap < MAXLEN) {
		VP_ASSERT(ret == -EINVAL, "short destination refused with -EINVAL");
		for (i = 0; i < cap; i++)
			VP_ASSERT(buf[i] == pat, "short destination untouched");
		VP_REACH("short destination");
		return;
	}
	VP_ASSERT(ret == 0, "write succeeds");
	VP_ASSERT(len == n, "minimal encoded length");
	for (i = 0; i < n; i++)
		VP_ASSERT(buf[i] == ref[i], "canonical encoding bytes");
	for (i = n; i < cap; i++)
		VP_ASSERT(buf[i] == pat, "bytes after the encoding untouched");
	/* read back from exactly the bytes written, then from the whole buffer */
	uint8_t *exact = malloc(n);
	for (i = 0; i < n; i++)
		exact[i] = buf[i];
	ret = RD(exact, n, &back, &rlen);
	VP_ASSERT(ret == 0, "read back succeeds");
	VP_ASSERT(back == v, "round-trip value");
	VP_ASSERT(rlen == n, "round-trip length");
	back = (val_t)~v;
	ret = RD(buf, cap, &back, &rlen);
	VP_ASSERT(ret == 0 && back == v && rlen == n, "round-trip with trailing bytes");
	VP_REACH_IF(n == 1, "one byte encoding");
	VP_REACH_IF(n == MAXLEN, "longest encoding");
	VP_ASSERT(WR(NULL, cap, v, &len) == -EINVAL, "NULL destination refused");
	VP_ASSERT(WR(buf, cap, v, NULL) == -EINVAL, "NULL length refused");
}
#endif

#ifdef VP_DEC
void vp_main(void)
{
	size_t n = vp_range(0, MAXLEN + 2), i;
	uint8_t *src = malloc(n ? n : 1);
	val_t v = (val_t)vp_u64();
	size_t len = 99;
	int ret;

	for (i = 0; i < n; i++)
		src[i] = vp_u8();
	/* reference decoder */
	size_t used = 0;
	int complete = 0, fits = 1;
	uint64_t acc = 0;
	for (i = 0; i < MAXLEN; i++) {
		if (i < n && !complete) {
			uint8_t g = src[i] & 0x7f;
			unsigned sh = 7 * (unsigned)i;
			/* bits of this group that would land at or above VP_BITS */
			if (sh + 7 > VP_BITS && (g >> (VP_BITS - sh)) != 0)
				fits = 0;
			acc |= (uint64_t)g << sh;
			used = i + 1;
			if (!(src[i] & 0x80))
				complete = 1;
		}
	}
	ret = RD(src, n, &v, &len);
	if (n == 0) {
		VP_ASSERT(ret == -EINVAL, "empty source refused");
		VP_REACH("empty source");
		return;
	}
	if (complete && fits) {
		uval_t u = (uval_t)acc;
		VP_ASSERT(ret == 0, "complete fitting encoding accepted whatever follows");
		VP_ASSERT(len == used, "reported length is the encoding's");
#if VP_SIGNED
		val_t e = (u & 1) ? (val_t)(-(val_t)(u / 2) - 1) : (val_t)(u / 2);
		VP_ASSERT(v == e, "decoded value exact");
#else
		VP_ASSERT(v == u, "decoded value exact");
#endif
		VP_REACH_IF(used == MAXLEN && n == MAXLEN + 2, "longest encoding with trailing bytes");
		VP_REACH_IF(used == 1, "single byte");
	} else {
		VP_ASSERT(ret == -EPROTO, "truncated, overlong or overflowing encoding refused with -EPROTO");
		VP_REACH_IF(!complete && n < MAXLEN, "truncated");
		VP_REACH_IF(!complete && n >= MAXLEN, "overlong");
		VP_REACH_IF(complete && !fits, "overflowing");
	}
	VP_ASSERT(RD(NULL, n, &v, &len) == -EINVAL, "NULL source refused");
	VP_ASSERT(RD(src, n, NULL, &len) == -EINVAL, "NULL value refused");
	VP_ASSERT(RD(src, n, &v, NULL) == -EINVAL, "NULL length refused");
}
#endif
