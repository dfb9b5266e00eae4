/* C11-C15: real src/systimetools.c; the C library's calendar, clock and number
 * conversions are stubs with their documented behaviour. */
#include "vp.h"
#include <ctype.h>
#include <stdarg.h>
#include <stdbool.h>
#include <limits.h>
#include <time.h>
#include <sys/time.h>
#include "futils/systimetools.h"
#ifndef YLO
#define YLO 1970
#define YHI 9999
#endif

/* ---- civil calendar, from its definition */
static int leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static const uint16_t vp_cum[13] = { 0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
static const uint8_t vp_mlen[13] = { 0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
/* days since 1970-01-01, year >= 1, month 1..12 */
static int32_t days(int y, int m, int d)
{
	uint32_t p = (uint32_t)(y - 1) & 0x3fff;
	return (int32_t)(p * 365 + p / 4 - p / 100 + p / 400) - 719162 + vp_cum[m] + (m > 2 && leap(y)) + d - 1;
}
struct civil { int y, mo, d, h, mi, s, off; };
static uint64_t instant(const struct civil *c)
{
	return (uint64_t)((int64_t)days(c->y, c->mo, c->d) * 86400 + c->h * 3600 + c->mi * 60 + c->s - c->off);
}
/* any valid local date and time, any offset within a day */
static struct civil any_civil(void)
{
	struct civil c;
	c.y = (int)(vp_u16() & 0x3fff);
	VP_ASSUME(c.y >= YLO && c.y <= YHI);
	c.mo = vp_u8() & 15;
	VP_ASSUME(c.mo >= 1 && c.mo <= 12);
	c.d = vp_u8() & 31;
	VP_ASSUME(c.d >= 1 && c.d <= vp_mlen[c.mo] + (c.mo == 2 && leap(c.y)));
	c.h = vp_u8() & 31;
	c.mi = vp_u8() & 63;
	c.s = vp_u8() & 63;
	VP_ASSUME(c.h < 24 && c.mi < 60 && c.s < 60);
	return c;
}

/* ---- stubs */
static struct civil vp_now;	/* what gmtime_r answers for the instant of interest */
static int64_t vp_t;
static int vp_wday, vp_gm_fail, vp_gm_calls;
static struct tm *vp_gmtime_r(const time_t *t, struct tm *tm)
{
	vp_gm_calls++;
	if (vp_gm_fail) {
		errno = vp_gm_fail;
		return NULL;
	}
	VP_ASSERT(*t == vp_t, "the calendar is asked for instant plus offset");
	tm->tm_year = vp_now.y - 1900;
	tm->tm_mon = vp_now.mo - 1;
	tm->tm_mday = vp_now.d;
	tm->tm_hour = vp_now.h;
	tm->tm_min = vp_now.mi;
	tm->tm_sec = vp_now.s;
	tm->tm_wday = vp_wday;
	tm->tm_yday = vp_cum[vp_now.mo] + (vp_now.mo > 2 && leap(vp_now.y)) + vp_now.d - 1;
	tm->tm_isdst = 0;
	tm->tm_gmtoff = 0;
	tm->tm_zone = "GMT";
	return tm;
}
static long vp_strtol(const char *s, char **end, int base)
{
	long v = 0;
	int i = 0, neg = 0, any = 0;
	VP_ASSERT(base == 10, "model: base");
	/* fields have at most four characters */
	for (int k = 0; k < 4 && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13)); k++)
		i++;
	if (s[i] == '-' || s[i] == '+')
		neg = s[i++] == '-';
	for (int k = 0; k < 5 && s[i] >= '0' && s[i] <= '9'; k++) {
		v = v * 10 + (s[i++] - '0');
		any = 1;
	}
	VP_ASSERT(v < 100000, "model: field size");
	if (end)
		*end = (char *)s + (any ? i : 0);
	return neg ? -v : v;
}
#ifndef DAYDIGITS
#define DAYDIGITS 2
#endif
static int vp_plain;		/* conversions without width so far: day then year */
static size_t vp_written;
static int vp_snprintf(char *buf, size_t size, const char *fmt, ...)
{
	va_list ap;
	size_t o = 0;
	va_start(ap, fmt);
#define PUT(c) do { char c_ = (c); if (size > 0 && o < size - 1) buf[o] = c_; o++; } while (0)
	for (size_t i = 0; fmt[i]; i++) {
		if (fmt[i] != '%') {
			PUT(fmt[i]);
			continue;
		}
		i++;
		int width = 0, zero = 0;
		if (fmt[i] == '0') {
			zero = 1;
			i++;
		}
		for (; fmt[i] >= '1' && fmt[i] <= '9'; i++)
			width = width * 10 + (fmt[i] - '0');
		if (fmt[i] == 's') {
			const char *s = va_arg(ap, const char *);
			VP_ASSERT(s[0] && s[1] && s[2] && !s[3], "model: names of three letters");
			for (int k = 0; k < 3; k++)
				PUT(s[k]);
		} else if (fmt[i] == 'c') {
			PUT((char)va_arg(ap, int));
		} else if (fmt[i] == 'u' || fmt[i] == 'd' || fmt[i] == 'i') {
			unsigned v = va_arg(ap, unsigned);
			int n = width ? width : ++vp_plain == 1 ? DAYDIGITS : 4;
			static const unsigned p10[] = { 0, 10, 100, 1000, 10000, 100000 };
			VP_ASSERT(n <= 5 && v < p10[n] && (zero || n == 1 || v >= p10[n - 1]), "model: digits of a number");
			VP_ASSUME(n <= 5 && v < p10[n]);
			uint16_t q = (uint16_t)v;
			char t[5];
			for (int k = n - 1; k >= 0; k--) {
				t[k] = (char)('0' + q % 10);
				q /= 10;
			}
			for (int k = 0; k < n; k++)
				PUT(t[k]);
		} else
			VP_ASSERT(0, "model: unsupported conversion");
	}
	va_end(ap);
	if (size > 0)
		buf[o < size - 1 ? o : size - 1] = '\0';
	vp_written = o;
	return (int)o;
}
/* texts have a known length */
static const char *vp_text[4];
static size_t vp_len[4];
static int vp_ntext;
static size_t vp_strlen(const char *s)
{
	for (int i = 0; i < vp_ntext; i++)
		if (s == vp_text[i])
			return vp_len[i];
	return strlen(s);
}
static int64_t vp_clock_s;
static uint32_t vp_clock_us;
static int vp_clock_err, vp_set_calls, vp_set_ok;
static int64_t vp_set_sec;
static int vp_gettimeofday(struct timeval *tv, void *tz)
{
	if (vp_clock_err) {
		errno = vp_clock_err;
		return -1;
	}
	tv->tv_sec = vp_clock_s;
	tv->tv_usec = vp_clock_us;
	(void)tz;
	return 0;
}
static int vp_settimeofday(const struct timeval *tv, const void *tz)
{
	vp_set_calls++;
	vp_set_sec = tv->tv_sec;
	vp_set_ok = tv->tv_usec == 0 && !tz;
	if (vp_clock_err) {
		errno = vp_clock_err;
		return -1;
	}
	return 0;
}
static time_t vp_time(time_t *t)
{
	if (t)
		*t = vp_clock_s;
	return vp_clock_s;
}
static int32_t vp_zone;
static struct tm *vp_localtime_r(const time_t *t, struct tm *tm)
{
	(void)t;
	memset(tm, 0, sizeof(*tm));
	tm->tm_gmtoff = vp_zone;
	return tm;
}
static int vp_isdigit(int c) { return c >= '0' && c <= '9'; }
#undef isdigit
#undef snprintf
#define isdigit vp_isdigit
#define gmtime_r vp_gmtime_r
#define strtol vp_strtol
#define snprintf vp_snprintf
#define strlen vp_strlen
#define gettimeofday vp_gettimeofday
#define settimeofday vp_settimeofday
#define time(x) vp_time(x)
#define localtime_r vp_localtime_r
#include "src/systimetools.c"
#undef strlen
#undef time

/* ---- reference reading of a text, by position */
static int num(const char *t, int p, int n)
{
	int v = 0;
	for (int i = 0; i < n; i++) {
		if (t[p + i] < '0' || t[p + i] > '9')
			return -1;
		v = v * 10 + (t[p + i] - '0');
	}
	return v;
}
static int ref_date(const char *t, int n, struct civil *c)
{
	if (n == 10) {
		if (t[4] != '-' || t[7] != '-')
			return 0;
		c->y = num(t, 0, 4);
		c->mo = num(t, 5, 2);
		c->d = num(t, 8, 2);
	} else if (n == 8) {
		c->y = num(t, 0, 4);
		c->mo = num(t, 4, 2);
		c->d = num(t, 6, 2);
	} else
		return 0;
	return c->y >= 0 && c->mo >= 1 && c->mo <= 12 && c->d >= 0;
}
/* p: position; n: number of characters in all */
static int ref_time(const char *t, int p, int n, struct civil *c)
{
	if (p < n && t[p] == 'T')
		p++;
	if (n - p >= 8 && t[p + 2] == ':' && t[p + 5] == ':') {
		c->h = num(t, p, 2);
		c->mi = num(t, p + 3, 2);
		c->s = num(t, p + 6, 2);
		p += 8;
	} else if (n - p >= 6) {
		c->h = num(t, p, 2);
		c->mi = num(t, p + 2, 2);
		c->s = num(t, p + 4, 2);
		p += 6;
	} else
		return 0;
	if (c->h < 0 || c->mi < 0 || c->s < 0)
		return 0;
	if (p < n && t[p] == ' ')
		p++;
	int k = n - p, zh, zm;
	if (k >= 5 && k <= 6 && (t[p] == '+' || t[p] == '-')) {
		if (k == 6 && t[p + 3] != ':')
			return 0;
		zh = num(t, p + 1, 2);
		zm = num(t, p + (k == 6 ? 4 : 3), 2);
		if (zh < 0 || zm < 0)
			return 0;
		c->off = (zh * 60 + zm) * (t[p] == '-' ? -60 : 60);
		return 1;
	}
	c->off = 0;
	return (k == 1 && t[p] == 'Z') || (k == 2 && t[p] == 'U' && t[p + 1] == 'T') ||
		(k == 3 && ((t[p] == 'G' && t[p + 1] == 'M' && t[p + 2] == 'T') || (t[p] == 'U' && t[p + 1] == 'T' && t[p + 2] == 'C')));
}
static const char vp_days[] = "SunMonTueWedThuFriSat", vp_months[] = "JanFebMarAprMayJunJulAugSepOctNovDec";
static int name3(const char *t, int p, const char *names, int count)
{
	int r = -1;
	for (int i = 0; i < count; i++)
		r = t[p] == names[3 * i] && t[p + 1] == names[3 * i + 1] && t[p + 2] == names[3 * i + 2] ? i : r;
	return r;
}
static int ref(const char *t, int n, struct civil *c)
{
	int p;
	if (n >= 16 && name3(t, 0, vp_days, 7) >= 0) {
		if (t[3] != ',')
			return 0;
		/* day and month in either order; characters between are not looked at */
		int inv = t[5] < '0' || t[5] > '9', d = inv ? 9 : 5, two = t[d + 1] != ' ';
		c->d = num(t, d, 1 + two);
		c->mo = 1 + name3(t, inv ? 5 : 7 + two, vp_months, 12);
		p = 11 + two;
		c->y = num(t, p, 4);
		p += 4;
		if (c->d < 0 || c->mo < 1 || c->y < 0)
			return 0;
	} else if (n >= 10 && (t[10] == 'T' || t[10] == ' ' || !t[10])) {
		if (!ref_date(t, 10, c))
			return 0;
		p = 10;
	} else if (n >= 8 && (t[8] == 'T' || t[8] == ' ' || !t[8])) {
		if (!ref_date(t, 8, c))
			return 0;
		p = 8;
	} else
		return 0;
	if (p < n && t[p] == ' ')
		p++;
	return ref_time(t, p, n, c);
}

#if defined(VP_ROUND)
/* C11: FMT 0 short, 1 long, 2 RFC 1123 */
void vp_main(void)
{
	struct civil c = any_civil();
	uint64_t e2;
	int32_t o2;
	int neg = vp_bool(), om = vp_u16() & 2047;
	VP_ASSUME(om < 1440);
#if FMT == 2
	om = 0;
	VP_ASSUME((c.d >= 10) == (DAYDIGITS == 2));
	const int len = 27 + DAYDIGITS - 1 + 1 - 0 - 0 - 0;
#else
	const int len = FMT ? 25 : 20;
#endif
	c.off = (neg ? -60 : 60) * om;
	uint64_t e = instant(&c);
	VP_ASSUME((int64_t)e >= 0);
	vp_now = c;
	vp_t = (int64_t)e + c.off;
	vp_wday = vp_u8() & 7;
	VP_ASSUME(vp_wday < 7);
	char *s = malloc(40);
	VP_ASSUME(s);
	VP_ASSERT(time_local_format(e, c.off, FMT == 0 ? TIME_FMT_ISO8601_SHORT : FMT == 1 ? TIME_FMT_ISO8601_LONG : TIME_FMT_RFC1123, s, 40) == 0, "formatted");
	size_t n = vp_written;
	/* the documented shape */
	struct civil r;
#if FMT == 2
	VP_ASSERT(n == 28 + (DAYDIGITS == 2) && s[n] == 0, "length");
	VP_ASSERT(s[3] == ',' && s[4] == ' ' && name3(s, 0, vp_days, 7) == vp_wday && s[n - 4] == ' ' && s[n - 7] == ':' && s[n - 10] == ':' && s[n - 13] == ' ', "shape");
#else
	VP_ASSERT(n == (size_t)len && s[n] == 0 && s[FMT ? 10 : 8] == 'T', "length");
#if FMT == 1
	VP_ASSERT(s[4] == '-' && s[7] == '-' && s[13] == ':' && s[16] == ':' && s[22] == ':', "shape");
#endif
#endif
	VP_ASSERT(ref(s, (int)n, &r), "readable");
	VP_ASSERT(r.y == c.y && r.mo == c.mo && r.d == c.d && r.h == c.h && r.mi == c.mi && r.s == c.s && r.off == c.off, "the text names the local date, time and offset");
	vp_text[0] = s;
	vp_len[0] = n;
	vp_ntext = 1;
	VP_ASSERT(time_local_parse(s, &e2, &o2) == 0, "parsed");
	VP_ASSERT(o2 == c.off, "same offset");
	VP_ASSERT(e2 == e, "same instant");
	free(s);
	VP_REACH("end");
	VP_REACH_IF(c.d == 29 && c.mo == 2, "leap day");
}
#elif defined(VP_PARSE)
/* C12: any text of N characters; KIND restricts the text to one format */
void vp_main(void)
{
	char *s = malloc(N + 1), t[N + 20];
	VP_ASSUME(s);
	memset(t, 0, sizeof(t));
	for (int i = 0; i < N; i++) {
		t[i] = s[i] = (char)vp_u8();
		VP_ASSUME(s[i] != 0);
	}
	s[N] = 0;
	vp_text[0] = s;
	vp_len[0] = N;
	vp_ntext = 1;
	uint64_t e = 12345;
	int32_t o = 77;
	struct civil c;
	int ok = ref(t, N, &c);
	int r = time_local_parse(s, &e, &o);
	VP_ASSERT(r == 0 || (r < 0 && r > -4096), "success or a negative errno");
	VP_ASSERT(ok == (r == 0), "accepted if and only if written in an accepted format");
	if (r == 0 && ok) {
		VP_ASSERT(o == c.off, "the offset written");
#ifndef FIELDS
		if (c.y >= 1)
			VP_ASSERT(e == instant(&c), "the instant written");
#endif
	} else
		VP_ASSERT(e == 12345 && o == 77, "nothing stored on failure");
#ifdef GOOD
	VP_REACH_IF(r == 0, "accepted");
#endif
	VP_REACH_IF(r < 0, "refused");
	VP_ASSERT(time_local_parse(NULL, &e, &o) == -EINVAL && time_local_parse(s, NULL, &o) == -EINVAL && time_local_parse(s, &e, NULL) == -EINVAL, "NULL refused");
	free(s);
}
#elif defined(VP_TM)
/* C13 */
void vp_main(void)
{
	struct civil c = any_civil();
	struct tm tm;
	uint64_t e2 = 0;
	int32_t o2 = 0;
	c.off = (int32_t)vp_u32();
	VP_ASSUME(c.off >= -86400 && c.off <= 86400);
	uint64_t e = instant(&c);
	VP_ASSUME((int64_t)e >= 0);
	vp_now = c;
	vp_t = (int64_t)e + c.off;
	vp_wday = (int)((uint32_t)(days(c.y, c.mo, c.d) + 4 + 7) % 7);
	VP_ASSERT(time_local_to_tm(e, c.off, NULL) == -EINVAL, "NULL refused");
	VP_ASSERT(time_local_to_tm(e, c.off, &tm) == 0, "converted");
	VP_ASSERT(tm.tm_year == c.y - 1900 && tm.tm_mon == c.mo - 1 && tm.tm_mday == c.d && tm.tm_hour == c.h && tm.tm_min == c.mi && tm.tm_sec == c.s &&
		  tm.tm_wday == vp_wday && tm.tm_yday == vp_cum[c.mo] + (c.mo > 2 && leap(c.y)) + c.d - 1 && tm.tm_gmtoff == c.off, "civil date of instant plus offset");
	VP_ASSERT(time_local_from_tm(NULL, &e2, &o2) == -EINVAL && time_local_from_tm(&tm, NULL, NULL) == -EINVAL, "NULL refused");
	VP_ASSERT(time_local_from_tm(&tm, &e2, &o2) == 0, "converted back");
	VP_ASSERT(o2 == c.off, "same offset");
	VP_ASSERT(e2 == e, "same instant");
	e2 = 5;
	o2 = 6;
	VP_ASSERT(time_local_from_tm(&tm, &e2, NULL) == 0 && e2 == e && time_local_from_tm(&tm, NULL, &o2) == 0 && o2 == c.off, "either result alone");
	vp_gm_fail = 1 + (vp_u8() & 127);
	VP_ASSERT(time_local_to_tm(e, c.off, &tm) == -vp_gm_fail, "failure reported");
	VP_REACH_IF(c.mo == 2 && c.d == 29, "leap day");
	VP_REACH_IF(c.y % 100 == 0, "century");
}
#elif defined(VP_CTX)
/* C14: OPS: d date (LENS characters), h hour, t both, each of any characters */
static const char ops[] = OPS;
static const int lens[] = LENS;
#define NOPS ((int)sizeof(ops) - 1)
#define MAXL 30
static char vp_buf[NOPS][MAXL];
void vp_main(void)
{
	struct time_ctx ctx;
	struct civil have;
	int fields = 0;
	uint64_t e;
	int32_t o;
	memset(&have, 0, sizeof(have));
	VP_ASSERT(time_ctx_init(NULL) == -EINVAL && time_ctx_init(&ctx) == 0, "initialised");
	for (int k = 0; k < NOPS; k++) {
		char *s = vp_buf[k];
		int n = lens[k], r, ok;
		for (int i = 0; i < n; i++) {
			s[i] = (char)vp_u8();
			VP_ASSUME(s[i] != 0);
		}
		vp_text[0] = s;
		vp_len[0] = (size_t)n;
		vp_ntext = 1;
		struct civil c;
		memset(&c, 0, sizeof(c));
		if (ops[k] == 'd') {
			ok = ref_date(s, n, &c);
			r = time_ctx_set_date(&ctx, s);
			if (fields & 1)
				VP_ASSERT(r == -EEXIST, "a second date is refused");
			else if (!ok)
				VP_ASSERT(r == -EINVAL, "a malformed date is refused");
			else {
				have.y = c.y;
				have.mo = c.mo;
				have.d = c.d;
				fields |= 1;
				VP_ASSERT(r == (fields == 3 ? 0 : -EINPROGRESS), "date received");
			}
		} else if (ops[k] == 'h') {
			ok = ref_time(s, 0, n, &c);
			r = time_ctx_set_hour(&ctx, s);
			if (fields & 2)
				VP_ASSERT(r == -EEXIST, "a second hour is refused");
			else if (!ok)
				VP_ASSERT(r == -EINVAL, "a malformed hour is refused");
			else {
				have.h = c.h;
				have.mi = c.mi;
				have.s = c.s;
				have.off = c.off;
				fields |= 2;
				VP_ASSERT(r == (fields == 3 ? 0 : -EINPROGRESS), "hour received");
			}
		} else {
			ok = ref(s, n, &c);
			r = time_ctx_set_time(&ctx, s);
			if (fields)
				VP_ASSERT(r == -EEXIST, "a second time is refused");
			else if (!ok)
				VP_ASSERT(r < 0 && r != -EEXIST && r != -EINPROGRESS, "a malformed time is refused");
			else {
				have = c;
				fields = 3;
				VP_ASSERT(r == 0, "time received");
			}
		}
		e = 1;
		o = 2;
		r = time_ctx_get_local(&ctx, &e, &o);
		if (fields == 3) {
			VP_ASSERT(r == 0 && o == have.off, "complete");
			/* the field arithmetic is that of C12 and C13 */
			if (have.y >= 1)
				VP_ASSERT(e == instant(&have), "the instant of the two texts");
		} else
			VP_ASSERT(r == -EINPROGRESS && e == 1 && o == 2, "incomplete");
	}
	VP_ASSERT(time_ctx_set_date(NULL, vp_buf[0]) == -EINVAL && time_ctx_set_hour(NULL, vp_buf[0]) == -EINVAL && time_ctx_set_time(NULL, vp_buf[0]) == -EINVAL &&
		  time_ctx_get_local(NULL, &e, &o) == -EINVAL && time_ctx_set_date(&ctx, NULL) == -EINVAL && time_ctx_set_hour(&ctx, NULL) == -EINVAL &&
		  time_ctx_set_time(&ctx, NULL) == -EINVAL && time_ctx_get_local(&ctx, NULL, &o) == -EINVAL && time_ctx_get_local(&ctx, &e, NULL) == -EINVAL, "NULL refused");
#ifdef DONE
	VP_REACH_IF(fields == 3, "complete");
#endif
	VP_REACH_IF(fields == 0, "nothing received");
}
#elif defined(VP_FORMAT)
/* C15: buffer of SIZE bytes */
void vp_main(void)
{
	struct civil c = any_civil();
	c.off = (int32_t)vp_u32();
	VP_ASSUME(c.off > -86400 && c.off < 86400 && (FMT != 2 || (c.d >= 10) == (DAYDIGITS == 2)));
	uint64_t e = instant(&c);
	vp_now = c;
	vp_t = (int64_t)e + c.off;
	vp_wday = vp_u8() & 7;
	VP_ASSUME(vp_wday < 7);
	char b[SIZE + 2], full[40];
	memset(b, '#', sizeof(b));
	enum time_fmt f = FMT == 0 ? TIME_FMT_ISO8601_SHORT : FMT == 1 ? TIME_FMT_ISO8601_LONG : TIME_FMT_RFC1123;
	VP_ASSERT(time_local_format(e, c.off, f, NULL, SIZE) == -EINVAL, "NULL refused");
	VP_ASSERT(time_local_format(e, c.off, f, full, 40) == 0, "formatted");
	vp_plain = 0;
	int r = time_local_format(e, c.off, f, b, SIZE);
	VP_ASSERT(b[SIZE] == '#' && b[SIZE + 1] == '#', "nothing written beyond the size");
	VP_ASSERT(SIZE || r == -EINVAL, "empty buffer refused");
	VP_ASSERT(r == 0 || (r < 0 && r > -4096), "success or a negative errno");
	if (r == 0) {
		int nul = 0, same = 1;
		for (int i = 0; i < SIZE; i++) {
			nul |= b[i] == 0;
			same &= nul | (b[i] == full[i]);
		}
		VP_ASSERT(nul && same, "terminated beginning of the text");
	}
	VP_ASSERT(SIZE < 40 || r == 0, "a sufficient buffer is enough");
	int w = (int)vp_u32();
	if (w < 0 || w > 2)
		VP_ASSERT(time_local_format(e, c.off, (enum time_fmt)w, full, 40) == -EINVAL, "unknown format refused");
	vp_gm_fail = 1 + (vp_u8() & 127);
	VP_ASSERT(time_local_format(e, c.off, f, full, 40) == -vp_gm_fail, "failure reported");
	VP_REACH("end");
}
#elif defined(VP_CLOCK)
void vp_main(void)
{
	uint64_t e = 7;
	uint16_t ms = 7;
	int32_t o = 7;
	vp_clock_s = (int64_t)(vp_u64() >> 1);
	vp_clock_us = vp_u32() & 0xfffff;
	VP_ASSUME(vp_clock_us < 1000000);
	vp_clock_err = vp_u8() & 127;
	vp_zone = (int32_t)vp_u32();
	VP_ASSUME(vp_zone > -86400 && vp_zone < 86400);
	int a = vp_bool(), b = vp_bool(), c = vp_bool(), with_ms = vp_bool(), r;
	if (with_ms)
		r = time_local_ms_get(a ? &e : NULL, b ? &ms : NULL, c ? &o : NULL);
	else
		r = time_local_get(a ? &e : NULL, c ? &o : NULL);
	if (!a && !c)
		VP_ASSERT(r == -EINVAL, "nothing asked");
	else if (vp_clock_err)
		VP_ASSERT(r == -vp_clock_err, "failure reported");
	else {
		VP_ASSERT(r == 0, "success");
		VP_ASSERT(!a || e == (uint64_t)vp_clock_s, "seconds of the clock");
		VP_ASSERT(!(b && with_ms) || (ms == vp_clock_us / 1000 && ms <= 999), "milliseconds of the clock");
		VP_ASSERT(!c || o == vp_zone, "offset of the time zone");
	}
	VP_ASSERT(a || e == 7, "not asked, not written");
	VP_ASSERT((b && with_ms) || ms == 7, "not asked, not written");
	uint64_t s = vp_u64();
	r = time_local_set(s, vp_i32());
	VP_ASSERT(vp_set_calls == 1 && vp_set_ok && (uint64_t)vp_set_sec == s, "exactly the requested seconds are set");
	VP_ASSERT(r == -vp_clock_err, "result");
	VP_REACH_IF(r == 0, "set");
	VP_REACH_IF(r < 0, "refused");
}
#endif
