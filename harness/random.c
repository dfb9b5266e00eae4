/* C32-C39: real src/random.c. Depending on the job the operating system, the
 * block function or the bounded generator is replaced by a contract (VP_CUT). */
#include "vp.h"
#include <assert.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <threads.h>
#include "futils/random.h"

/* ------------------------------------------------------- operating system */
#ifndef OSMAX
#define OSMAX 512
#endif
static uint8_t vp_os[OSMAX];	/* bytes delivered by the system, in order */
static unsigned vp_osn;
static int vp_fd_open, vp_badfd, vp_aborted, vp_oscalls, vp_wrongsrc, vp_opens;
static int vp_want_strong = -1;
#ifndef VP_OSFAULTS
static ssize_t vp_getrandom(void *p, size_t n, unsigned flags)
{
	(void)flags;
	vp_oscalls++;
	for (size_t i = 0; i < n; i++) {
#ifdef VP_STREAM
		/* any bytes will do: the block function below is a contract */
		uint8_t v = (uint8_t)(vp_osn % 240);
#else
		uint8_t v = vp_u8();
#endif
		((uint8_t *)p)[i] = v;
		if (vp_osn < OSMAX)
			vp_os[vp_osn++] = v;
	}
	return (ssize_t)n;
}
static int vp_open(const char *path, int flags, ...) { (void)path; (void)flags; VP_ASSERT(0, "model: open"); return -1; }
static ssize_t vp_read(int fd, void *p, size_t n) { (void)fd; (void)p; (void)n; VP_ASSERT(0, "model: read"); return -1; }
static int vp_close(int fd) { (void)fd; return 0; }
#else
static int vp_budget = VP_OSFAULTS;
static uint8_t *vp_dst0;
static size_t vp_len0;
static int vp_given[16];
/* one delivery of 1..n bytes, each path with a concrete count */
static ssize_t vp_deliver(void *p, size_t n)
{
	size_t m = n;
	if (vp_budget > 0)
		/* long requests: one byte, half or all but one */
		for (size_t k = 1; k < n; k += n < 8 || k == n / 2 ? n < 8 ? 1 : n - 1 - n / 2 : n / 2 - 1)
			if (vp_bool()) {
				m = k;
				vp_budget--;
				break;
			}
	for (size_t i = 0; i < m; i++) {
		uint8_t *d = (uint8_t *)p + i;
		*d = vp_u8();
		vp_os[vp_osn++] = *d;
	}
	return (ssize_t)m;
}
static int vp_errno_pick(void)
{
	if (vp_bool())
		return EIO;
	return EBADF;
}
static ssize_t vp_getrandom(void *p, size_t n, unsigned flags)
{
	vp_oscalls++;
	if (vp_want_strong == 1 && !(flags & GRND_RANDOM))
		vp_wrongsrc = 1;
	if (vp_budget > 0) {
		if (vp_bool()) { vp_budget--; errno = EINTR; return -1; }
		if (vp_bool()) { vp_budget--; errno = ENOSYS; return -1; }
		if (vp_bool()) { vp_budget--; errno = EAGAIN; return -1; }
		if (vp_bool()) { vp_budget--; errno = vp_errno_pick(); return -1; }
		if (vp_bool()) { vp_budget--; return 0; }
	}
	return vp_deliver(p, n);
}
static int vp_opened_strong;
static int vp_open(const char *path, int flags, ...)
{
	(void)flags;
	vp_opens++;
	vp_opened_strong = path[5] == 'r';
	if (vp_want_strong == 1 && strcmp(path, "/dev/random") != 0)
		vp_wrongsrc = 1;
	if (vp_want_strong == 0 && strcmp(path, "/dev/urandom") != 0 && strcmp(path, "/dev/random") != 0)
		vp_wrongsrc = 1;
	if (vp_budget > 0 && vp_bool()) { vp_budget--; errno = vp_bool() ? ENOENT : EMFILE; return -1; }
	vp_fd_open++;
	return 5;
}
static ssize_t vp_read(int fd, void *p, size_t n)
{
	if (fd != 5 || vp_fd_open != 1)
		vp_badfd = 1;
	vp_oscalls++;
	if (vp_budget > 0) {
		if (vp_bool()) { vp_budget--; errno = EINTR; return -1; }
		if (vp_bool()) { vp_budget--; errno = vp_errno_pick(); return -1; }
		if (vp_bool()) { vp_budget--; return 0; }
	}
	return vp_deliver(p, n);
}
static int vp_close(int fd)
{
	if (fd != 5 || vp_fd_open != 1)
		vp_badfd = 1;
	vp_fd_open--;
	errno = EBADF;
	return 0;
}
#endif
static void vp_abort(void)
{
	vp_aborted = 1;
#ifdef VP_CBMC
	VP_ASSUME(0);
#else
	exit(0);
#endif
}
#ifdef VP_STRING
static char alphabet[ALEN + 1];
/* strlen of the alphabet is known; anything else is walked */
static size_t vp_strlen(const char *t)
{
	size_t n = 0;
	if (t == alphabet)
		return ALEN;
	while (t[n])
		n++;
	return n;
}
#define strlen vp_strlen
#endif
#define getrandom vp_getrandom
#define open vp_open
#define read vp_read
#define close vp_close
#define abort vp_abort
#ifndef VP_SRC
#define VP_SRC "src/random.c"
#endif
#include VP_SRC
#undef abort
#undef read
#undef open
#undef close

/* ---------------------------------------------- contract: source of bytes */
#if defined(VP_SRCBYTES)
/* every request takes the next bytes of one stream; zeros when it is exhausted */
#ifndef NSRC
#define NSRC 16
#endif
static uint8_t vp_stream[NSRC];
static size_t vp_pos, vp_draws;
static void pool_rand(struct pool *pool, void *buffer, size_t len)
{
	(void)pool;
	vp_draws++;
	for (size_t i = 0; i < len; i++) {
		((uint8_t *)buffer)[i] = vp_pos < NSRC ? vp_stream[vp_pos] : 0;
		vp_pos++;
	}
}
static void vp_rewind(void)
{
	vp_pos = vp_draws = 0;
}
#endif

/* --------------------------------------------- contract: bounded generator */
#if defined(VP_BOUNDED)
/* any value in [0, maximum] (C32); all draws and their ranges are recorded */
#define MAXD 16
static uint64_t vp_d[MAXD], vp_m[MAXD];
static int vp_nd;
static uint64_t vp_draw(uint64_t maximum)
{
	uint64_t v = vp_u64();
	if (maximum == 0)
		return 0;
	VP_ASSUME(v <= maximum);
	VP_ASSERT(vp_nd < MAXD, "number of draws");
	vp_d[vp_nd] = v;
	vp_m[vp_nd++] = maximum;
	return v;
}
static uint8_t pool_rand8_maximum(struct pool *p, uint8_t m) { (void)p; return (uint8_t)vp_draw(m); }
static uint16_t pool_rand16_maximum(struct pool *p, uint16_t m) { (void)p; return (uint16_t)vp_draw(m); }
static uint32_t pool_rand32_maximum(struct pool *p, uint32_t m) { (void)p; return (uint32_t)vp_draw(m); }
static uint64_t pool_rand64_maximum(struct pool *p, uint64_t m) { (void)p; return vp_draw(m); }
static size_t pool_rand_size_maximum(struct pool *p, size_t m) { (void)p; return (size_t)vp_draw(m); }
#endif

#if defined(VP_MAX)
/* C32: BITS, W = width in bytes of the maxima of this job */
#if BITS == 8
typedef uint8_t T;
#define GEN futils_randomr8_maximum
#define GEN2 futils_random8_maximum
#elif BITS == 16
typedef uint16_t T;
#define GEN futils_randomr16_maximum
#define GEN2 futils_random16_maximum
#elif BITS == 32
typedef uint32_t T;
#define GEN futils_randomr32_maximum
#define GEN2 futils_random32_maximum
#else
typedef uint64_t T;
#define GEN futils_randomr64_maximum
#define GEN2 futils_random64_maximum
#endif
void vp_main(void)
{
#ifdef REJECT
	/* REJECT draws of all ones, then free ones */
	for (size_t i = 0; i < REJECT * W; i++)
		vp_stream[i] = 0xff;
	for (size_t i = REJECT * W; i < NSRC; i++)
		vp_stream[i] = vp_u8();
#else
	vp_fill(vp_stream, NSRC);	/* two or more draws free, then zeros */
#endif
	uint64_t max = vp_u64(), lo = W == 1 ? 0 : UINT64_C(1) << (8 * (W - 1)), hi = W == 8 ? UINT64_MAX : (UINT64_C(1) << (8 * (W % 8))) - 1;
	if (max < lo || max > hi)
		max = hi;
#ifdef REJECT
	/* all ones is refused unless it is allowed: find the draw which ends that (the first
	 * one after them, unless some of them is accepted) */
	T r0 = GEN((T)max);
	size_t d = vp_draws - 1, p = d * W;
	VP_ASSERT(r0 <= max, "value within [0, maximum]");
	VP_ASSERT(d <= NSRC, "model: draws");
	VP_REACH_IF(d > 1, "rejections");
	/* at that draw every value has the same weight, as at the first one */
	uint8_t x[W];
	for (size_t i = 0; i < W; i++)
		x[i] = vp_u8();
	for (size_t i = 0; i < NSRC; i++)
		vp_stream[i] = i >= p && i < p + W ? x[i - p] : vp_stream[i];
	vp_rewind();
	T r = GEN((T)max), t = (T)vp_u64();
	VP_ASSERT(r <= max, "value within [0, maximum]");
	if (vp_draws == d + 1 && p + W <= NSRC && t <= max) {
		T y = r ^ t;
		for (size_t i = 0; i < NSRC; i++)
			vp_stream[i] ^= i >= p && i < p + W ? (uint8_t)(y >> (8 * (i - p))) : 0;
		vp_rewind();
		T r2 = GEN((T)max);
		VP_ASSERT(r2 == t && vp_draws == d + 1, "every value has the same weight after rejections");
	}
#else
	T r = GEN((T)max);
	size_t draws = vp_draws, used = vp_pos;
	VP_ASSERT(r <= max, "value within [0, maximum]");
	VP_REACH_IF(r == max && draws == 1, "maximum");
	VP_REACH_IF(r == 0 && draws == 1, "zero");
#ifndef NOREJ
	VP_REACH_IF(draws == 2, "retried");
#endif
	/* even weights: among the draws accepted at once, changing the bits of the
	 * draw turns any result into any other */
	T t = (T)vp_u64();
	if (draws == 1 && t <= max) {
		uint64_t x = (uint64_t)(T)(r ^ t);
		for (size_t i = 0; i < 8; i++)
			if (i < used && i < NSRC)
				vp_stream[i] ^= (uint8_t)(x >> (8 * i));
		vp_rewind();
		T r2 = GEN((T)max);
		VP_ASSERT(r2 == t && vp_draws == 1, "every value has the same weight");
	}
	/* a rejected draw is forgotten: the result is that of the next draws */
	if (draws >= 2 && used % draws == 0) {
		size_t w = used / draws;
		vp_rewind();
		vp_pos = w;
		T r3 = GEN((T)max);
		VP_ASSERT(r3 == r, "a rejected draw has no influence");
	}
	vp_rewind();
	T out;
	VP_ASSERT(GEN2(NULL, (T)max) == -EINVAL, "NULL refused");
	VP_ASSERT(GEN2(&out, (T)max) == 0 && out <= max, "checked variant");
	if (max == 0)
		VP_ASSERT(r == 0, "zero maximum");
#if W == 1
	VP_REACH_IF(max == 0, "zero maximum");
#endif
#endif
}
#elif defined(VP_FLOAT)
/* C35 */
static uint64_t grid(void)
{
#if VP_FLOAT == 53
	double d = futils_randomrd();
	VP_ASSERT(d >= 0.0 && d < 1.0, "in [0,1)");
	uint64_t v = (uint64_t)(d * 0x1.0p53);
	VP_ASSERT((double)v * 0x1.0p-53 == d, "multiple of 2^-53");
#else
	float d = futils_randomrf();
	VP_ASSERT(d >= 0.0f && d < 1.0f, "in [0,1)");
	uint64_t v = (uint64_t)(d * 0x1.0p24f);
	VP_ASSERT((float)v * 0x1.0p-24f == d, "multiple of 2^-24");
#endif
	return v;
}
void vp_main(void)
{
	vp_fill(vp_stream, NSRC);
	uint64_t v = grid();
	VP_ASSERT(v < UINT64_C(1) << VP_FLOAT, "grid value");
	size_t used = vp_pos;
	VP_REACH_IF(v == 0, "zero");
	VP_REACH_IF(v == (UINT64_C(1) << VP_FLOAT) - 1, "largest");
#ifdef BIT
	/* bit BIT of the source changes at most one bit of the result, whatever the others;
	 * and it is always the same one */
	vp_stream[BIT / 8] ^= (uint8_t)(1u << (BIT % 8));
	vp_rewind();
	uint64_t x = v ^ grid();
	VP_ASSERT((x & (x - 1)) == 0, "a source bit drives at most one bit");
	/* exactly VP_FLOAT of the source bits matter, in order: LSBs may be dropped */
	VP_ASSERT(x == 0 || x == UINT64_C(1) << ((BIT) - (used * 8 - VP_FLOAT)), "source bits in order");
	VP_ASSERT(BIT >= used * 8 || (x == 0) == (BIT < used * 8 - VP_FLOAT), "each grid bit is driven");
#endif
}
#elif defined(VP_BASE)
/* C36: VP_BASE 16, 32 or 64; COUNT bytes, LEN buffer bytes */
#if VP_BASE == 16
#define GEN futils_random_base16
#define BPC 4
#define FULL (2 * (size_t)(COUNT))
static const char alpha[] = "0123456789abcdef";
#elif VP_BASE == 32
#define GEN futils_random_base32
#define BPC 5
#define FULL (((size_t)(COUNT) + 4) / 5 * 8)
static const char alpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
#else
#define GEN futils_random_base64
#define BPC 6
#define FULL (((size_t)(COUNT) + 2) / 3 * 4)
static const char alpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
#endif
#ifdef VP_HUGE
/* only the argument checks: nothing is written with len 0 */
void vp_main(void)
{
	size_t count = (size_t)vp_u64();
	char c = 'x';
	int r = GEN(&c, 0, count);
	unsigned __int128 full = VP_BASE == 16 ? (unsigned __int128)count * 2 : VP_BASE == 32 ? ((unsigned __int128)count + 4) / 5 * 8 : ((unsigned __int128)count + 2) / 3 * 4;
	VP_ASSERT(c == 'x' && vp_draws == 0, "nothing written");
	if (full <= INT_MAX)
		VP_ASSERT(r == (int)full, "full length returned");
	else
		VP_ASSERT(r == -EINVAL, "unrepresentable length refused");
	VP_REACH_IF(r > 1000, "long");
	VP_REACH_IF(r == -EINVAL, "refused");
}
#else
static int idx(char c)
{
	int k = -1;
	for (int i = 0; i < (1 << BPC); i++)
		k = alpha[i] == c ? i : k;
	return k;
}
static char out[LEN + 2];
static int ix[FULL + 1];
static void gen(void)
{
	for (size_t i = 0; i < LEN + 2; i++)
		out[i] = '#';
	vp_rewind();
	int r = GEN(out, LEN, COUNT);
	VP_ASSERT(r == (int)FULL, "full length returned");
	size_t n = LEN ? (FULL < LEN - 1 ? FULL : LEN - 1) : 0;
	if (LEN)
		VP_ASSERT(out[n] == 0, "NUL-terminated");
	for (size_t i = LEN ? n + 1 : 0; i < LEN + 2; i++)
		VP_ASSERT(out[i] == '#', "nothing written after the text");
	size_t bits = 8 * (size_t)(COUNT), data = (bits + BPC - 1) / BPC;
	for (size_t i = 0; i < n; i++) {
		if (i >= data) {
			VP_ASSERT(out[i] == '=', "padding");
			ix[i] = 0;
			continue;
		}
		int k = idx(out[i]);
		VP_ASSERT(k >= 0, "character of the alphabet");
		ix[i] = k;
		if (i == data - 1 && bits % BPC)
			VP_ASSERT((k & ((1 << (BPC - bits % BPC)) - 1)) == 0, "unused bits of the last character are zero");
	}
}
void vp_main(void)
{
	vp_fill(vp_stream, NSRC);
	gen();
#if LEN > 1 && COUNT > 0
	int ix0[FULL + 1];
	size_t n = FULL < LEN - 1 ? FULL : LEN - 1, last = (8 * (size_t)(COUNT) + BPC - 1) / BPC;
	if (last > n)
		last = n;
	for (size_t i = 0; i < n; i++)
		ix0[i] = ix[i];
	/* one source bit drives at most one bit of one character, and always the same */
	size_t used = vp_pos;
	VP_ASSERT(used <= NSRC, "model: source size");
	unsigned bit = vp_range(0, 8 * NSRC - 1);
	for (size_t i = 0; i < NSRC; i++)
		vp_stream[i] ^= bit / 8 == i ? (uint8_t)(1u << (bit % 8)) : 0;
	gen();
	int chars = 0, d0[FULL + 1], ok = 1;
	for (size_t i = 0; i < n; i++) {
		d0[i] = ix0[i] ^ ix[i];
		chars += d0[i] != 0;
		ok &= (d0[i] & (d0[i] - 1)) == 0;
	}
	VP_ASSERT(ok && chars <= 1, "a source bit drives at most one bit of one character");
	/* same flip from another source: same effect */
	vp_fill(vp_stream, NSRC);
	gen();
	for (size_t i = 0; i < n; i++)
		ix0[i] = ix[i];
	for (size_t i = 0; i < NSRC; i++)
		vp_stream[i] ^= bit / 8 == i ? (uint8_t)(1u << (bit % 8)) : 0;
	gen();
	int same = 1;
	for (size_t i = 0; i < n; i++)
		same &= (ix0[i] ^ ix[i]) == d0[i];
	VP_ASSERT(same, "its effect does not depend on the other bits");
	/* every bit of every character takes both values */
	VP_REACH_IF(ix[0] == (COUNT == 1 && BPC > 8 ? 0 : (1 << BPC) - 1) && ix0[0] != ix[0], "first character all ones");
	size_t lb = last < (8 * (size_t)(COUNT) + BPC - 1) / BPC ? BPC : (8 * (size_t)(COUNT) - 1) % BPC + 1;
	VP_REACH_IF(ix[last - 1] == (((1 << lb) - 1) << (BPC - lb)), "last character all ones");
	VP_REACH_IF(ix[last - 1] == 0, "last character zero");
	int all = 1;
	for (size_t i = 0; i + 1 < last; i++)
		all &= ix[i] == ((1 << BPC) - 1);
	VP_REACH_IF(all && last > 0 && ix[last - 1] != 0, "all ones");
	int none = 1;
	for (size_t i = 0; i < last; i++)
		none &= ix[i] == 0;
	VP_REACH_IF(none, "all zeros");
#else
	VP_REACH("end");
#endif
}
#endif
#elif defined(VP_STRING)
/* C37: ALEN alphabet letters, COUNT characters, LEN buffer bytes */
static char out[LEN + 2];
static void gen(void)
{
	for (size_t i = 0; i < LEN + 2; i++)
		out[i] = '#';
	vp_nd = 0;
	int r = futils_random_string(out, LEN, COUNT, alphabet);
	VP_ASSERT(r == (ALEN ? COUNT : 0), "count returned");
	size_t n = !ALEN ? 0 : LEN ? (COUNT < LEN - 1 ? COUNT : LEN - 1) : 0;
	if (LEN)
		VP_ASSERT(out[n] == 0, "NUL-terminated");
	for (size_t i = LEN ? n + 1 : 0; i < LEN + 2; i++)
		VP_ASSERT(out[i] == '#', "nothing written after the text");
	for (size_t i = 0; i < n; i++) {
		int in = 0;
		for (size_t k = 0; k < ALEN; k++)
			in |= out[i] == alphabet[k];
		VP_ASSERT(in, "character of the alphabet");
	}
	/* as many outcomes as texts */
	if (n && ALEN) {
		uint64_t outcomes = 1, texts = 1;
		for (int i = 0; i < vp_nd; i++)
			outcomes *= vp_m[i] + 1;
		for (size_t i = 0; i < n; i++)
			texts *= ALEN;
		VP_ASSERT(outcomes == texts, "as many outcomes as texts");
	}
}
void vp_main(void)
{
#ifdef LONGALPHA
	/* more letters than a byte can number: repeated ones, 'b' only at the end */
	for (size_t i = 0; i < ALEN; i++)
		alphabet[i] = i == ALEN - 1 ? 'b' : 'a';
	gen();
	int allb = 1;
	for (size_t i = 0; i < (COUNT < LEN - 1 ? COUNT : LEN - 1); i++)
		allb &= out[i] == 'b';
	VP_REACH_IF(allb, "only the last letter");
#else
	for (size_t i = 0; i < ALEN; i++)
		alphabet[i] = (char)vp_u8();
	for (size_t i = 0; i < ALEN; i++) {
		VP_ASSUME(alphabet[i] != 0);
		for (size_t j = 0; j < i; j++)
			VP_ASSUME(alphabet[i] != alphabet[j]);
	}
	gen();
	char out0[LEN + 2];
	uint64_t d0[MAXD];
	int nd0 = vp_nd;
	for (int i = 0; i < nd0; i++)
		d0[i] = vp_d[i];
	memcpy(out0, out, LEN + 2);
	gen();
	/* different outcomes of the generator give different texts */
	int eq = 1, eqd = nd0 == vp_nd;
	for (size_t i = 0; i < LEN + 2; i++)
		eq &= out[i] == out0[i];
	for (int i = 0; i < MAXD; i++)
		if (i < nd0 && i < vp_nd)
			eqd &= vp_d[i] == d0[i];
	VP_ASSERT(!eq || eqd, "each text has the same weight");
	VP_REACH("end");
	size_t huge = (size_t)INT_MAX + 1 + (size_t)vp_u32();
	VP_ASSERT(futils_random_string(out, LEN, huge, "a") == -EINVAL, "unrepresentable length refused");
#endif
}
#elif defined(VP_SHUFFLE)
/* C38: N items of SIZE bytes */
static uint8_t vp_fact_ok;
struct item { uint8_t b[SIZE ? SIZE : 1]; };
static uint8_t arr[(N + 2) * (SIZE ? SIZE : 1)];
static uint8_t tab[N + 1][SIZE ? SIZE : 1];
static int perm[N + 1];
static void shuffle(void)
{
	for (size_t i = 0; i < sizeof(arr); i++)
		arr[i] = 0xee;
	for (size_t i = 0; i < N; i++)
		for (size_t k = 0; k < SIZE; k++)
			arr[SIZE + i * SIZE + k] = tab[i][k];
	vp_nd = 0;
	int r = futils_random_shuffle(arr + SIZE, N, SIZE);
	VP_ASSERT(r == 0, "success");
	for (size_t k = 0; k < SIZE; k++)
		VP_ASSERT(arr[k] == 0xee && arr[SIZE * (N + 1) + k] == 0xee, "nothing outside the array changed");
	int seen = 0;
	for (size_t i = 0; i < N; i++) {
		perm[i] = -1;
		for (size_t j = 0; j < N; j++) {
			int same = 1;
			for (size_t k = 0; k < SIZE; k++)
				same &= arr[SIZE + i * SIZE + k] == tab[j][k];
			if (same)
				perm[i] = (int)j;
		}
		VP_ASSERT(perm[i] >= 0, "every item intact");
		seen |= perm[i] >= 0 ? 1 << perm[i] : 0;
	}
	VP_ASSERT(seen == (1 << N) - 1, "same items");
	uint64_t outcomes = 1, perms = 1;
	for (int i = 0; i < vp_nd; i++)
		outcomes *= vp_m[i] + 1;
	for (size_t i = 2; i <= N; i++)
		perms *= i;
	VP_ASSERT(outcomes == perms, "as many outcomes as permutations");
}
void vp_main(void)
{
	/* arbitrary contents, distinct so that items can be told apart */
	for (size_t i = 0; i < N; i++)
		for (size_t k = 0; k < SIZE; k++)
			tab[i][k] = vp_u8();
	for (size_t i = 0; i < N; i++)
		for (size_t j = 0; j < i; j++)
			VP_ASSUME(tab[i][DIFF] != tab[j][DIFF]);
	shuffle();
	int perm0[N + 1], nd0 = vp_nd;
	uint64_t d0[MAXD];
	for (int i = 0; i < nd0; i++)
		d0[i] = vp_d[i];
	for (size_t i = 0; i < N; i++)
		perm0[i] = perm[i];
	shuffle();
	int eq = 1, eqd = nd0 == vp_nd;
	for (size_t i = 0; i < N; i++)
		eq &= perm[i] == perm0[i];
	for (int i = 0; i < MAXD; i++)
		if (i < nd0 && i < vp_nd)
			eqd &= vp_d[i] == d0[i];
	VP_ASSERT(!eq || eqd, "each permutation has the same weight");
#if N > 0
	VP_REACH_IF(perm[0] == N - 1 && perm[N - 1] == 0, "reversed ends");
	VP_REACH_IF(perm[0] == 0 && perm[N - 1] == N - 1, "ends kept");
#else
	VP_REACH("end");
#endif
	VP_ASSERT(futils_random_shuffle(NULL, N, SIZE) == -EINVAL, "NULL refused");
}
#elif defined(VP_STREAM)
/* C33: contract of the block function: every block is fresh; one arbitrary byte
 * of the whole output, the marked one, is 0xff, all others tell their block */
static unsigned vp_blocks;
static unsigned vp_mark_block, vp_mark_byte;
static uint32_t vp_in[MAXBLOCKS][16];
static int vp_mark_key;		/* block functions keyed with the marked byte */
static void chacha_block(const uint32_t in[16], uint8_t out_[CHACHA_BLOCK_SIZE])
{
	VP_ASSERT(vp_blocks < MAXBLOCKS, "model: number of blocks");
	int k = 0;
	for (int i = 0; i < 16; i++) {
		vp_in[vp_blocks][i] = in[i];
		k |= i != 12 && i > 3 && ((in[i] & 0xff) == 0xff || (in[i] >> 8 & 0xff) == 0xff || (in[i] >> 16 & 0xff) == 0xff || in[i] >> 24 == 0xff);
	}
	vp_mark_key |= k;
	for (unsigned b = 0; b < vp_blocks; b++) {
		int same = 1;
		for (int i = 0; i < 16; i++)
			same &= vp_in[b][i] == in[i];
		VP_ASSERT(!same, "no keystream block is generated twice");
	}
	for (unsigned i = 0; i < CHACHA_BLOCK_SIZE; i++)
		out_[i] = vp_mark_block == vp_blocks && vp_mark_byte == i ? 0xff : (uint8_t)(1 + vp_blocks % 250);
	vp_blocks++;
}
static uint8_t buf[MAXREQ + 2];
static int vp_marked;	/* times the marked byte was delivered */
static void check_req(size_t n)
{
	int cnt = 0, fresh = 1;
	for (size_t i = 0; i < n; i++) {
		cnt += buf[i + 1] == 0xff;
		fresh &= buf[i + 1] != 0;
	}
	VP_ASSERT(fresh, "every byte comes from the generator");
	VP_ASSERT(buf[0] == 0 && buf[n + 1] == 0, "nothing outside the buffer written");
	vp_marked += cnt;
	VP_ASSERT(vp_marked <= 1, "no generator byte is delivered twice");
	VP_ASSERT(!vp_marked || !vp_mark_key, "no generator byte is both delivered and used as key");
	/* forward secrecy: what was delivered or used as key is gone from the state */
	const uint8_t *s = pool_get()->buffer;
	int left = 0;
	for (size_t i = 0; i < sizeof(pool_get()->buffer); i++)
		left |= s[i] == 0xff;
	VP_ASSERT(!left || !(vp_marked || vp_mark_key), "bytes delivered or used as key are erased");
}
static void req(size_t n)
{
	memset(buf, 0, n + 2);
	if (n == 1)
		buf[1] = futils_randomr8();
	else if (n == 2) {
		uint16_t v = futils_randomr16();
		memcpy(buf + 1, &v, 2);
	} else if (n == 4) {
		uint32_t v = futils_randomr32();
		memcpy(buf + 1, &v, 4);
	} else if (n == 8) {
		uint64_t v = futils_randomr64();
		memcpy(buf + 1, &v, 8);
	} else
		futils_random(buf + 1, n);
	check_req(n);
}
void vp_main(void)
{
	vp_mark_block = vp_range(0, MAXBLOCKS - 1);
	vp_mark_byte = vp_range(0, CHACHA_BLOCK_SIZE - 1);
	static const size_t lens[] = LENS;
	for (size_t i = 0; i < sizeof(lens) / sizeof(lens[0]); i++)
		req(lens[i]);
	VP_REACH_IF(vp_marked, "marked byte delivered");
#ifdef REKEY
	VP_REACH_IF(vp_mark_key, "marked byte used as key");
#endif
}
#elif defined(VP_SEED)
/* C34: seeding from the system, two threads */
static struct pool vp_pools[2];
static int vp_thread;
static struct pool *pool_get(void) { return &vp_pools[vp_thread]; }
static unsigned vp_blocks;
static uint32_t vp_last_in[16];
static int vp_keyed;	/* last block's key material is exactly the last bytes from the system */
static void chacha_block(const uint32_t in[16], uint8_t out_[CHACHA_BLOCK_SIZE])
{
	static const uint8_t c[16] = "expand 32-byte k";
	vp_blocks++;
	int all = vp_osn >= 44;
	if (all)
		for (int i = 0; i < 11; i++) {
			const uint8_t *o = &vp_os[vp_osn - 44 + 4 * i];
			uint32_t w = o[0] | (uint32_t)o[1] << 8 | (uint32_t)o[2] << 16 | (uint32_t)o[3] << 24;
			all &= in[i < 8 ? 4 + i : 5 + i] == w;
		}
	for (int i = 0; i < 4; i++)
		VP_ASSERT(in[i] == ((uint32_t)c[4 * i] | (uint32_t)c[4 * i + 1] << 8 | (uint32_t)c[4 * i + 2] << 16 | (uint32_t)c[4 * i + 3] << 24), "ChaCha constant");
	vp_keyed = all;
	for (unsigned i = 0; i < CHACHA_BLOCK_SIZE; i++)
		out_[i] = (uint8_t)(3 * vp_blocks + i);
}
void vp_main(void)
{
	static const char ops[] = OPS;	/* 'A','B': thread takes bytes; 'a','b': reseeds; 'L','M': large request */
	int seeded[2] = { 0, 0 };
	for (int i = 0; ops[i]; i++) {
		int t = ops[i] == 'B' || ops[i] == 'b' || ops[i] == 'M';
		vp_thread = t;
		unsigned os0 = vp_osn, b0 = vp_blocks;
		if (ops[i] == 'a' || ops[i] == 'b') {
			VP_ASSERT(futils_random_reseed() == 0, "reseed");
			seeded[0] = seeded[1] = 0;
			if (vp_osn != os0) {
				VP_ASSERT(vp_osn == os0 + 44, "reseeded with fresh system bytes");
				seeded[t] = 2;
			}
			continue;
		}
		uint8_t buf[600];
		vp_keyed = 0;
		size_t len = ops[i] == 'L' || ops[i] == 'M' ? 500 : 4;
		futils_random(buf, len);
		if (!seeded[t]) {
			VP_ASSERT(vp_osn == os0 + 44 && vp_blocks > b0, "seeded with fresh system bytes before the first output");
		}
		if (seeded[t] == 2)
			VP_ASSERT(vp_blocks > b0, "output after a reseed comes from the new seed");
		seeded[t] = 1;
	}
	VP_REACH("end");
}
#elif defined(VP_SEEDKEY)
/* C34: the first block is keyed with exactly the system's bytes */
static uint32_t vp_first_in[16];
static unsigned vp_blocks;
static void chacha_block(const uint32_t in[16], uint8_t out_[CHACHA_BLOCK_SIZE])
{
	if (vp_blocks++ == 0)
		for (int i = 0; i < 16; i++)
			vp_first_in[i] = in[i];
	for (unsigned i = 0; i < CHACHA_BLOCK_SIZE; i++)
		out_[i] = (uint8_t)(3 * vp_blocks + i);
}
static void check_key(void)
{
	VP_ASSERT(vp_blocks > 0, "output comes from the generator");
	VP_ASSERT(vp_osn >= 44, "44 system bytes");
	int all = 1;
	for (int i = 0; i < 11; i++) {
		const uint8_t *o = &vp_os[vp_osn - 44 + 4 * i];
		uint32_t w = o[0] | (uint32_t)o[1] << 8 | (uint32_t)o[2] << 16 | (uint32_t)o[3] << 24;
		all &= vp_first_in[i < 8 ? 4 + i : 5 + i] == w;
	}
	VP_ASSERT(all, "keyed with exactly the system's bytes");
	VP_ASSERT(vp_first_in[12] == 0, "counter starts at zero");
}
void vp_main(void)
{
	(void)futils_randomr8();
	check_key();
	vp_blocks = 0;
	VP_ASSERT(futils_random_reseed() == 0, "reseed");
	(void)futils_randomr64();
	check_key();
	VP_REACH("end");
}
#elif defined(VP_FETCH)
/* C34: strong bytes, every failure pattern within the budget */
void vp_main(void)
{
	uint8_t b[LEN + 2];
	memset(b, 0, sizeof(b));
	b[0] = b[LEN + 1] = 0xcc;
	vp_want_strong = 1;
	VP_ASSERT(futils_random_strong(NULL, LEN) == -EINVAL && futils_random_strong(b, 0) == -EINVAL, "invalid arguments refused");
	VP_ASSERT(vp_oscalls == 0, "no system call for them");
	int r = futils_random_strong(b + 1, LEN);
	VP_ASSERT(b[0] == 0xcc && b[LEN + 1] == 0xcc, "nothing outside the buffer written");
	VP_ASSERT(vp_fd_open == 0 && !vp_badfd, "descriptor closed");
	VP_ASSERT(!vp_wrongsrc, "only the strong source is used");
	if (r == 0) {
		VP_ASSERT(vp_osn == LEN, "all bytes delivered by the system");
		int same = 1;
		for (size_t i = 0; i < LEN; i++)
			same &= b[i + 1] == vp_os[i];
		VP_ASSERT(same, "exactly the system's bytes");
	} else
		VP_ASSERT(r < 0 && vp_osn < LEN, "fails only when bytes are missing");
	VP_REACH_IF(r == 0 && vp_opens, "device");
#if VP_OSFAULTS > 1
	VP_REACH_IF(r < 0, "failure");
#endif
}
#elif defined(VP_SEEDFAIL)
/* C34: no output without a complete seed: seeding failures abort or are reported */
static unsigned vp_n0, vp_reached;
static void chacha_block(const uint32_t in[16], uint8_t out_[CHACHA_BLOCK_SIZE])
{
	(void)in;
	VP_ASSERT(vp_osn >= vp_n0 + 44 && !vp_fd_open && !vp_badfd && !vp_wrongsrc, "no block before the seed is complete");
	VP_REACH_IF(vp_opens, "seeded from the device");
	VP_REACH("seeded");
#ifdef VP_CBMC
	VP_ASSUME(0);	/* nothing after it matters here */
#else
	exit(0);
#endif
}
void vp_main(void)
{
	vp_want_strong = 0;
#ifdef RESEED
	int r = futils_random_reseed();
	VP_ASSERT(r <= 0 && (r == 0) == (vp_osn == vp_n0 + 44), "reseed reports its failure");
	VP_ASSERT(!vp_fd_open && !vp_badfd && !vp_wrongsrc, "descriptor closed");
	if (r < 0)
		vp_n0 = vp_osn;
#if VP_OSFAULTS > 1
	VP_REACH_IF(r < 0, "reseed failed");
#endif
#endif
	(void)futils_randomr8();
	VP_ASSERT(0, "output without a block");
}
#elif defined(VP_CHACHA)
/* C39: everything delivered after seeding against the specification (RFC 8439, 2.3),
 * for every 44 bytes of seed: NREQ requests of LEN bytes */
#define ROTL(x, k) (((x) << (k)) | ((x) >> (32 - (k))))
#define QR(a, b, c, d) \
	do { \
		s[a] = s[a] + s[b]; s[d] = s[d] ^ s[a]; s[d] = ROTL(s[d], 16); \
		s[c] = s[c] + s[d]; s[b] = s[b] ^ s[c]; s[b] = ROTL(s[b], 12); \
		s[a] = s[a] + s[b]; s[d] = s[d] ^ s[a]; s[d] = ROTL(s[d], 8); \
		s[c] = s[c] + s[d]; s[b] = s[b] ^ s[c]; s[b] = ROTL(s[b], 7); \
	} while (0)
static uint32_t in[16];
static void spec_key(const uint8_t *key)
{
	static const uint32_t c[4] = { 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574 };
	for (int i = 0; i < 4; i++)
		in[i] = c[i];
	for (int i = 0; i < 11; i++)
		in[i < 8 ? 4 + i : 5 + i] = (uint32_t)key[4 * i] | (uint32_t)key[4 * i + 1] << 8 | (uint32_t)key[4 * i + 2] << 16 | (uint32_t)key[4 * i + 3] << 24;
	in[12] = 0;
}
static void spec_block(uint8_t *p)
{
	uint32_t s[16];
	for (int i = 0; i < 16; i++)
		s[i] = in[i];
	for (int r = 0; r < 10; r++) {
		QR(0, 4, 8, 12); QR(1, 5, 9, 13); QR(2, 6, 10, 14); QR(3, 7, 11, 15);
		QR(0, 5, 10, 15); QR(1, 6, 11, 12); QR(2, 7, 8, 13); QR(3, 4, 9, 14);
	}
	for (int i = 0; i < 16; i++) {
		uint32_t w = s[i] + in[i];
		p[4 * i] = (uint8_t)w;
		p[4 * i + 1] = (uint8_t)(w >> 8);
		p[4 * i + 2] = (uint8_t)(w >> 16);
		p[4 * i + 3] = (uint8_t)(w >> 24);
	}
	in[12]++;
}
static uint8_t key[44], stream[512 + (LEN + 63) / 64 * 64], out_[LEN];
/* the pool holds 512 bytes of keystream of which the first 44 are the next key */
void vp_main(void)
{
#ifdef PARTIAL
	uint8_t first[4];
	futils_random(first, 4);
#else
	futils_random(out_, LEN);
#endif
	for (int i = 0; i < 44; i++)
		key[i] = vp_os[i];
	spec_key(key);
	for (int b = 0; b < 8; b++)
		spec_block(stream + 64 * b);
#ifdef PARTIAL
	/* requests of 512 - 44 bytes or more have a keystream of their own */
	futils_random(out_, LEN);
	spec_key(stream + 48);
	for (int b = 0; b < (LEN + 63) / 64; b++)
		spec_block(stream + 64 * b);
	int same = 1;
	for (int i = 0; i < LEN; i++)
		same &= out_[i] == stream[i];
	VP_ASSERT(same, "large requests are ChaCha20 keystream of a key of their own");
#else
	int same = 1;
	for (int i = 0; i < LEN; i++)
		same &= out_[i] == stream[44 + i];
	VP_ASSERT(same, "the stream is ChaCha20 keystream");
#endif
	VP_REACH("end");
}
#endif
