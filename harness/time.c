/* C07-C10: real src/timetools.c; the clocks are symbolic. */
#include "vp.h"
#include <time.h>
#include <sys/time.h>
#include "futils/timetools.h"

/* clock model: arbitrary readings, possibly failing; monotonic never goes back */
static struct timespec vp_mono, vp_real;
static uint64_t vp_us_last_mono[4], vp_us_real;
static int vp_clk_fail, vp_clk_calls_mono, vp_clk_calls_real, vp_clk_symbolic;
static struct timespec vp_mono_log[4];
#ifdef VP_M2R
/* a reading chosen by its microsecond count: no division in the oracle */
static uint64_t vp_us_last;
static unsigned vp_reading;
static struct timespec vp_any_ts(uint64_t maxsec)
{
	struct timespec t;
#ifdef VP_M2R_MS
	/* the readings are fixed: the arithmetic on them is the other jobs' */
	static const uint64_t tab_s[] = TAB_S;
	static const uint32_t tab_u[] = TAB_U;
	uint64_t s = tab_s[vp_reading % 3];
	uint32_t u = tab_u[vp_reading % 3], r = SUB;
	vp_reading++;
#else
	uint64_t s = SEC0 + (vp_u16() & SECMASK);
	uint32_t u = USEC0 + (vp_u32() & USECMASK), r = SUB;
#endif
	VP_ASSUME(s <= maxsec && u <= 999999);
	t.tv_sec = (time_t)s;
	t.tv_nsec = (long)(u * 1000 + r);
	vp_us_last = s * 1000000 + u;
	return t;
}
#else
static struct timespec vp_any_ts(uint64_t maxsec)
{
	struct timespec t;
	t.tv_sec = (time_t)vp_u64();
	t.tv_nsec = (long)vp_u32();
	VP_ASSUME(t.tv_sec >= 0 && (uint64_t)t.tv_sec <= maxsec && t.tv_nsec >= 0 && t.tv_nsec <= 999999999);
	return t;
}
#endif
#ifndef MAXSEC
#define MAXSEC ((UINT64_C(1) << 62) - 1)
#endif
static int vp_clock_gettime(clockid_t id, struct timespec *ts)
{
#ifdef VP_M2R_MS
	int f = 0; /* failures: the other jobs' */
#else
	int f = vp_u8();
#endif
	if (f & 1) {
		errno = (f & 2) ? EINVAL : EFAULT;
		vp_clk_fail = errno;
		return -1;
	}
	if (id == CLOCK_MONOTONIC) {
		struct timespec n = vp_any_ts(MAXSEC);
		VP_ASSUME(n.tv_sec > vp_mono.tv_sec || (n.tv_sec == vp_mono.tv_sec && n.tv_nsec >= vp_mono.tv_nsec));
		vp_mono = n;
		if (vp_clk_calls_mono < 4)
#ifdef VP_M2R
		{
			vp_us_last_mono[vp_clk_calls_mono] = vp_us_last;
			vp_mono_log[vp_clk_calls_mono] = n;
		}
#else
			vp_mono_log[vp_clk_calls_mono] = n;
#endif
		vp_clk_calls_mono++;
		*ts = n;
	} else {
		VP_ASSERT(id == CLOCK_REALTIME, "known clock");
		struct timespec n = vp_any_ts(MAXSEC);
#ifdef VP_M2R
		vp_us_real = vp_us_last;
#endif
		vp_real = n;
		vp_clk_calls_real++;
		*ts = vp_real;
	}
	return 0;
}
static struct timespec vp_slept;
static int vp_sleep_ret, vp_sleep_calls;
static int vp_nanosleep(const struct timespec *req, struct timespec *rem)
{
	vp_sleep_calls++;
	vp_slept = *req;
	if (vp_bool()) {
		errno = EINTR;
		vp_sleep_ret = -1;
		if (rem)
			*rem = *req;
		return -1;
	}
	vp_sleep_ret = 0;
	return 0;
}
#define clock_gettime vp_clock_gettime
#define nanosleep vp_nanosleep
#ifdef VP_SRC
#include VP_SRC
#else
#include "src/timetools.c"
#endif
#undef clock_gettime
#undef nanosleep

#define NSEC INT64_C(1000000000)
/* any valid timespec, seconds of either sign */
static struct timespec any_signed(void)
{
	struct timespec t;
	t.tv_sec = (time_t)vp_u64();
	t.tv_nsec = (long)vp_u32();
	VP_ASSUME(t.tv_sec <= (INT64_C(1) << 61) && t.tv_sec >= -(INT64_C(1) << 61));
	VP_ASSUME(t.tv_nsec >= 0 && t.tv_nsec < NSEC);
	return t;
}
static int ref_cmp(struct timespec a, struct timespec b)
{
	if (a.tv_sec != b.tv_sec)
		return a.tv_sec > b.tv_sec ? 1 : -1;
	return a.tv_nsec == b.tv_nsec ? 0 : a.tv_nsec > b.tv_nsec ? 1 : -1;
}
/* b - a for a <= b, by borrow */
static struct timespec ref_sub(struct timespec b, struct timespec a)
{
	struct timespec d;
	d.tv_sec = b.tv_sec - a.tv_sec;
	d.tv_nsec = b.tv_nsec - a.tv_nsec;
	if (d.tv_nsec < 0) {
		d.tv_nsec += NSEC;
		d.tv_sec--;
	}
	return d;
}

#ifdef VP_DIFF
void vp_main(void)
{
	struct timespec a = any_signed(), b = any_signed(), d = { 77, 77 };
	int c = time_timespec_cmp(&a, &b);
	VP_ASSERT(c == ref_cmp(a, b), "comparison");
	VP_ASSERT(time_timespec_cmp(&b, &a) == -c, "comparison antisymmetric");
	VP_ASSERT(time_timespec_cmp(NULL, &a) == 0 && time_timespec_cmp(&a, NULL) == 0, "NULL compares equal");
	int r = time_timespec_diff(&a, &b, &d);
	if (c == 1) {
		VP_ASSERT(r == -EINVAL, "end before start refused");
		VP_REACH("end before start");
	} else {
		struct timespec e = ref_sub(b, a);
		VP_ASSERT(r == 0, "difference accepted");
		VP_ASSERT(d.tv_nsec >= 0 && d.tv_nsec < NSEC, "difference normalised");
		VP_ASSERT(d.tv_sec == e.tv_sec && d.tv_nsec == e.tv_nsec, "difference exact");
		VP_REACH_IF(c == 0, "equal");
		VP_REACH_IF(c == -1 && b.tv_nsec < a.tv_nsec, "borrow");
	}
	VP_ASSERT(time_timespec_diff(NULL, &b, &d) == -EINVAL && time_timespec_diff(&a, NULL, &d) == -EINVAL &&
		  time_timespec_diff(&a, &b, NULL) == -EINVAL, "NULL refused");
}
#endif

#ifdef VP_ADD
void vp_main(void)
{
	struct timespec a = any_signed(), d = { 77, 77 };
	int64_t delta = vp_i64();
#ifdef VP_ADD_US
#define UNIT 1000000
	int r = time_timespec_add_us(&a, delta, &d);
#else
#define UNIT 1000000000
	int r = time_timespec_add_ns(&a, delta, &d);
#endif
	VP_ASSERT(r == 0, "addition succeeds");
	VP_ASSERT(d.tv_nsec >= 0 && d.tv_nsec < NSEC, "sum normalised");
	/* d - a == delta, computed by floor division of delta */
	int64_t q = delta / UNIT, m = delta % UNIT;
	if (m < 0) {
		m += UNIT;
		q--;
	}
	int64_t n = a.tv_nsec + m * (NSEC / UNIT);
	int64_t carry = n >= NSEC;
	VP_ASSERT(d.tv_sec == a.tv_sec + q + carry, "sum exact (seconds)");
	VP_ASSERT(d.tv_nsec == n - carry * NSEC, "sum exact (nanoseconds)");
	VP_REACH_IF(delta < 0 && d.tv_nsec > a.tv_nsec, "borrow");
	VP_REACH_IF(delta > 0 && d.tv_nsec < a.tv_nsec, "carry");
	VP_ASSERT(time_timespec_add_us(NULL, delta, &d) == -EINVAL && time_timespec_add_ns(NULL, delta, &d) == -EINVAL &&
		  time_timespec_add_us(&a, 0, NULL) == -EINVAL && time_timespec_add_ns(&a, delta, NULL) == -EINVAL, "NULL refused");
}
#endif

#ifdef VP_CONV
/* CONV: 1 ns, 1000 us, 1000000 ms (nanoseconds per unit) */
#if VP_CONV == 1
#define TO time_timespec_to_ns
#define FROM time_ns_to_timespec
#elif VP_CONV == 1000
#define TO time_timespec_to_us
#define FROM time_us_to_timespec
#else
#define TO time_timespec_to_ms
#define FROM time_ms_to_timespec
#endif
#define PERSEC (NSEC / VP_CONV)
void vp_main(void)
{
#ifndef VP_BACK
	struct timespec t = vp_any_ts(UINT64_MAX / PERSEC - 1);
	uint64_t u = vp_u64();
	int r = TO(&t, &u);
	VP_ASSERT(r == 0, "conversion succeeds");
	uint64_t base = (uint64_t)t.tv_sec * (uint64_t)PERSEC;
	VP_ASSERT(u >= base && u - base < PERSEC, "right second");
	uint64_t frac = u - base;
	VP_ASSERT(frac * VP_CONV <= (uint64_t)t.tv_nsec && (uint64_t)t.tv_nsec < frac * VP_CONV + VP_CONV, "truncated to the unit");
	VP_REACH_IF(t.tv_nsec == 999999999, "last nanosecond");
	VP_REACH_IF((uint64_t)t.tv_sec == UINT64_MAX / PERSEC - 1, "largest second");
	VP_ASSERT(TO(NULL, &u) == -EINVAL && TO(&t, NULL) == -EINVAL, "NULL refused");
#else
	uint64_t u = vp_u64();
	struct timespec t = { 7, 7 };
	int r = FROM(&u, &t);
	VP_ASSERT(r == 0, "conversion succeeds");
	VP_ASSERT(t.tv_nsec >= 0 && t.tv_nsec < NSEC && t.tv_sec >= 0, "normalised");
	uint64_t q = u / PERSEC, m = u % PERSEC;
	VP_ASSERT((uint64_t)t.tv_sec == q, "seconds");
	VP_ASSERT((uint64_t)t.tv_nsec == m * VP_CONV, "nanoseconds");
	VP_REACH_IF(u == UINT64_MAX, "largest count");
	VP_ASSERT(FROM(NULL, &t) == -EINVAL && FROM(&u, NULL) == -EINVAL, "NULL refused");
#endif
}
#endif

#ifdef VP_TV
void vp_main(void)
{
	struct timeval tv;
	struct timespec ts = { 7, 7 };
	uint32_t ms = 7;
	tv.tv_sec = (time_t)vp_u64();
	tv.tv_usec = vp_u32();
	VP_ASSUME(tv.tv_usec >= 0 && tv.tv_usec <= 999999);
	VP_ASSERT(time_timeval_to_timespec(&tv, &ts) == 0, "conversion succeeds");
	VP_ASSERT(ts.tv_sec == tv.tv_sec, "seconds kept");
	VP_ASSERT(ts.tv_nsec >= 0 && ts.tv_nsec < NSEC && ts.tv_nsec == (long)tv.tv_usec * 1000, "microseconds kept");
	/* milliseconds, when they fit the 32-bit result */
	VP_ASSUME(tv.tv_sec >= 0 && tv.tv_sec <= 4294966);
	VP_ASSERT(time_timeval_to_ms(&tv, &ms) == 0, "conversion succeeds");
	uint32_t s = (uint32_t)tv.tv_sec;
	VP_ASSERT(ms >= s * 1000u && ms - s * 1000u < 1000u, "right second");
	uint32_t f = ms - s * 1000u;
	VP_ASSERT(f * 1000u <= (uint32_t)tv.tv_usec && (uint32_t)tv.tv_usec < f * 1000u + 1000u, "truncated milliseconds");
	VP_REACH_IF(tv.tv_sec == 4294966 && tv.tv_usec == 999999, "largest");
	VP_ASSERT(time_timeval_to_ms(NULL, &ms) == -EINVAL && time_timeval_to_ms(&tv, NULL) == -EINVAL &&
		  time_timeval_to_timespec(NULL, &ts) == -EINVAL && time_timeval_to_timespec(&tv, NULL) == -EINVAL, "NULL refused");
}
#endif

#ifdef VP_DIST
void vp_main(void)
{
	struct timespec a = vp_any_ts(MAXSEC), b = vp_any_ts(MAXSEC);
	uint64_t us = 77, rus = 77, range = vp_u64();
	int sign = 77, c = ref_cmp(a, b);
	/* the documented result is a 64-bit microsecond count: it has to fit */
	struct timespec d = c > 0 ? ref_sub(a, b) : ref_sub(b, a);
	VP_ASSUME(d.tv_sec < 9000000000000);
	int r = time_timespec_diff_us(&a, &b, &us, vp_bool() ? &sign : NULL);
	VP_ASSERT(r == 0, "distance computed");
	uint64_t e = (uint64_t)d.tv_sec * 1000000u + (uint64_t)d.tv_nsec / 1000u;
	VP_ASSERT(us == e, "distance exact");
	if (sign != 77)
		VP_ASSERT(sign == (c > 0 ? 1 : -1), "sign tells whether the first is later");
	r = time_timespec_diff_in_range(&a, &b, range, &rus);
	VP_ASSERT(rus == e, "range test reports the distance");
	VP_ASSERT(r == (c == 0 || e < range), "in range iff the distance is below the range");
	VP_ASSERT(time_timespec_diff_in_range(&a, &b, range, NULL) == r, "distance output optional");
	VP_ASSERT(time_timespec_diff_in_range(&b, &a, range, NULL) == r, "range test symmetric");
	VP_ASSERT(time_timespec_diff_in_range(NULL, &b, range, &rus) == 0 &&
		  time_timespec_diff_in_range(&a, NULL, range, &rus) == 0, "NULL is never in range");
	VP_REACH_IF(c > 0 && a.tv_nsec < b.tv_nsec, "borrow");
	VP_REACH_IF(c == 0, "equal");
	VP_REACH_IF(e == range, "exactly the range");
}
#endif

#ifdef VP_NOW
void vp_main(void)
{
	struct timespec v = vp_any_ts(MAXSEC), d = { 77, 77 };
	int r = time_timespec_diff_now(&v, &d);
	if (vp_clk_fail) {
		VP_ASSERT(r == -vp_clk_fail, "clock failure reported");
		return;
	}
	VP_ASSERT(vp_clk_calls_mono == 1 && vp_clk_calls_real == 0, "monotonic clock used");
	if (ref_cmp(v, vp_mono) > 0) {
		VP_ASSERT(r == -EINVAL, "future refused");
	} else {
		struct timespec e = ref_sub(vp_mono, v);
		VP_ASSERT(r == 0 && d.tv_sec == e.tv_sec && d.tv_nsec == e.tv_nsec, "elapsed time exact");
		VP_REACH("elapsed");
	}
	VP_ASSERT(time_timespec_diff_now(NULL, &d) == -EINVAL && time_timespec_diff_now(&v, NULL) == -EINVAL, "NULL refused");
	/* sleeping: at least the requested time, failures reported */
	uint32_t ms = vp_u32();
	r = time_msleep(ms);
	VP_ASSERT(vp_sleep_calls >= 1, "sleeps");
	VP_ASSERT(vp_slept.tv_nsec >= 0 && vp_slept.tv_nsec < NSEC, "sleep request valid");
	VP_ASSERT((uint64_t)vp_slept.tv_sec * 1000u + (uint64_t)vp_slept.tv_nsec / 1000000u == ms && vp_slept.tv_nsec % 1000000 == 0, "sleep request exact");
	VP_ASSERT(r == (vp_sleep_ret < 0 ? -EINTR : 0), "sleep result");
	VP_REACH_IF(ms == UINT32_MAX, "longest sleep");
	/* plain readings */
	int fb = vp_clk_fail;
	vp_clk_fail = 0;
	r = time_get_realtime(&d);
	VP_ASSERT(vp_clk_fail ? r == -vp_clk_fail : (r == 0 && d.tv_sec == vp_real.tv_sec && d.tv_nsec == vp_real.tv_nsec), "realtime reading");
	(void)fb;
}
#endif

#ifdef VP_M2R
void vp_main(void)
{
	uint64_t mt = vp_i64() >> (64 - MTBITS), rt = 77, rt_ms = 77;
#ifdef VP_M2R_MS
	VP_ASSUME(mt <= UINT64_MAX / 1000);
	int r = time_monotonic_to_realtime_ms(mt, &rt_ms);
	mt *= 1000;
#else
	int r = time_monotonic_to_realtime_us(mt, &rt);
#endif
	if (vp_clk_fail) {
		VP_ASSERT(r == -vp_clk_fail, "clock failure reported");
#ifndef VP_M2R_MS
		VP_REACH("clock failure");
#endif
		return;
	}
	VP_ASSERT(r == 0, "conversion succeeds");
	VP_ASSERT(vp_clk_calls_mono >= 1 && vp_clk_calls_real >= 1, "both clocks read");
	unsigned last = vp_clk_calls_mono > 4 ? 3 : (unsigned)vp_clk_calls_mono - 1;
	uint64_t m1 = vp_us_last_mono[0], m2 = vp_us_last_mono[last], rn = vp_us_real;
	/* the instant is offset by realtime reading - middle of the two monotonic readings
	 * (mod 2^64); one microsecond of rounding is allowed */
	uint64_t mid = (m1 + m2 + 1) / 2, exp = rn - (mid - mt);
#ifdef VP_M2R_MS
	/* instants whose realtime does not wrap */
	VP_ASSUME(exp < (UINT64_C(1) << 62));
	VP_ASSERT(rt_ms == (exp + 500) / 1000 || rt_ms < (UINT64_C(1) << 53) && rt_ms * 1000 + 501 >= exp && rt_ms * 1000 <= exp + 501, "middle of the readings, rounded to the nearest millisecond");
	VP_REACH_IF(mt > m2, "future instant");
	VP_REACH_IF(mt < m1, "past instant");
#else
	VP_ASSERT(rt == exp || rt == exp + 1 || rt == exp - 1, "offset by the middle of the readings");
	VP_REACH_IF(mt > m2 && m1 == m2, "future instant");
	VP_REACH_IF(mt < m1 && m2 - m1 > 5, "past instant");
#endif
	VP_ASSERT(time_monotonic_to_realtime_us(mt, NULL) == -EINVAL && time_monotonic_to_realtime_ms(mt, NULL) == -EINVAL, "NULL refused");
}
#endif
