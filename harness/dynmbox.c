/* C18-C21: real src/dynmbox.c (with src/fdutils.c and src/timetools.c).
 * Pipe, lock, condition, clock and allocator are models; the other thread's
 * calls run at every point where the lock is free (see vp_gap). */
#include "vp.h"
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "futils/fdutils.h"
#include "futils/timetools.h"
#include "futils/dynmbox.h"
#ifdef CAP
/* ring scaled down: CAP payload bytes plus the length header */
#undef DYNMBOX_MAX_SIZE
#define DYNMBOX_MAX_SIZE ((size_t)CAP)
#endif
#define MAXSZ DYNMBOX_MAX_SIZE

/* ------------------------------------------------------------ environment */
static int vp_created, vp_open[2], vp_flfl[2], vp_fdfl[2], vp_badfd, vp_heap, vp_faults;
static unsigned vp_pipe;	/* notification bytes in the pipe */
static int vp_locked, vp_lock_init, vp_cond_init, vp_signals, vp_lockerr;
static void vp_gap(void);
static int vp_idx(int fd)
{
	if (fd != 3 && fd != 4) {
		vp_badfd = 1;
		return 0;
	}
	if (!vp_open[fd - 3])
		vp_badfd = 1;
	return fd - 3;
}
static int vp_pipe_create(int fds[2])
{
#ifdef FAULTS
	if (vp_bool()) {
		vp_faults++;
		errno = EMFILE;
		return -1;
	}
#endif
	fds[0] = 3;
	fds[1] = 4;
	vp_open[0] = vp_open[1] = 1;
	vp_created++;
	return 0;
}
static int vp_pipe2(int fds[2], int flags)
{
	int r = vp_pipe_create(fds);
	if (r == 0) {
		vp_flfl[0] = vp_flfl[1] = flags & O_NONBLOCK;
		vp_fdfl[0] = vp_fdfl[1] = (flags & O_CLOEXEC) ? FD_CLOEXEC : 0;
	}
	return r;
}
static int vp_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	int i = vp_idx(fd), arg;
	va_start(ap, cmd);
	arg = va_arg(ap, int);
	va_end(ap);
	switch (cmd) {
	case F_GETFD: return vp_fdfl[i];
	case F_GETFL: return vp_flfl[i];
	case F_SETFD: vp_fdfl[i] = arg; return 0;
	case F_SETFL: vp_flfl[i] = arg; return 0;
	default: VP_ASSERT(0, "model: unexpected fcntl"); return -1;
	}
}
static int vp_close(int fd)
{
	vp_open[vp_idx(fd)] = 0;
	return 0;
}
static ssize_t vp_read(int fd, void *buf, size_t n)
{
	vp_gap();
	if (vp_idx(fd) != 0)
		vp_badfd = 1;
	if (vp_pipe == 0 || n == 0) {
		VP_ASSERT(vp_flfl[0] & O_NONBLOCK, "reading an empty pipe never blocks");
		errno = EAGAIN;
		return -1;
	}
	size_t m = n < vp_pipe ? n : vp_pipe;
	for (size_t i = 0; i < m; i++)
		((uint8_t *)buf)[i] = 0x55;
	vp_pipe -= (unsigned)m;
	return (ssize_t)m;
}
static ssize_t vp_write(int fd, const void *buf, size_t n)
{
	(void)buf;
	vp_gap();
	if (vp_idx(fd) != 1)
		vp_badfd = 1;
	if (vp_pipe + n > 65536) {
		VP_ASSERT(vp_flfl[1] & O_NONBLOCK, "writing a full pipe never blocks");
		errno = EAGAIN;
		return -1;
	}
	vp_pipe += (unsigned)n;
	return (ssize_t)n;
}
#ifdef VP_FULL
static uint8_t *vp_ringp;
#endif
static void *vp_malloc(size_t n)
{
#ifdef FAULTS
	if (vp_bool()) {
		vp_faults++;
		errno = ENOMEM;
		return NULL;
	}
#endif
	vp_heap++;
#ifdef VP_FULL
	return vp_ringp = (uint8_t *)malloc(n);
#else
	return malloc(n);
#endif
}
static void *vp_calloc(size_t n, size_t m);
static void vp_free(void *p)
{
	if (p)
		vp_heap--;
#ifdef VP_CBMC
	if (!p || !__CPROVER_DYNAMIC_OBJECT(p))
		return;
#endif
	free(p);
}
static int vp_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; vp_lock_init++; return 0; }
static int vp_mutex_destroy(pthread_mutex_t *m) { (void)m; vp_lock_init--; return 0; }
static int vp_cond_init_(pthread_cond_t *c, const pthread_condattr_t *a) { (void)c; (void)a; vp_cond_init++; return 0; }
static int vp_cond_destroy(pthread_cond_t *c) { (void)c; vp_cond_init--; return 0; }
static int vp_mutex_lock(pthread_mutex_t *m)
{
	(void)m;
	vp_gap();
	if (vp_locked)
		vp_lockerr = 1;
	vp_locked = 1;
	return 0;
}
static int vp_mutex_unlock(pthread_mutex_t *m)
{
	(void)m;
	if (!vp_locked)
		vp_lockerr = 1;
	vp_locked = 0;
	vp_gap();
	return 0;
}
static int vp_cond_signal(pthread_cond_t *c) { (void)c; vp_signals++; return 0; }
#ifndef TWAITS
#define TWAITS 3	/* spurious wake-ups in a row, then the deadline passes */
#endif
static int vp_waits, vp_timedwaits, vp_timedout;
static struct timespec vp_deadline;
static void vp_sleep(void);
static int vp_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	(void)c; (void)m;
	if (!vp_locked)
		vp_lockerr = 1;
	vp_waits++;
	vp_locked = 0;
	vp_sleep();
	vp_locked = 1;
	return 0;
}
static int vp_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
	(void)c; (void)m;
	if (!vp_locked)
		vp_lockerr = 1;
	vp_timedwaits++;
	vp_deadline = *t;
	vp_locked = 0;
	vp_sleep();
	vp_locked = 1;
	if (vp_bool() || vp_timedwaits >= TWAITS) {
		vp_timedout = 1;
		return ETIMEDOUT;
	}
	return 0;
}
static struct timeval vp_now;
static int vp_now_fail;
static int vp_gettimeofday(struct timeval *tv, void *tz)
{
	(void)tz;
	if (vp_now_fail) {
		errno = vp_now_fail;
		return -1;
	}
	*tv = vp_now;
	return 0;
}
#if defined(VP_FULL)
/* full capacity: of the ring only the bytes that matter are followed, the four
 * length bytes and one arbitrary payload byte of each message */
static uint8_t *vp_ringp;	/* the big allocation */
static const uint8_t *vp_msgp, *vp_outp;
static size_t vp_msgn, vp_outn;
static size_t vp_track;		/* payload byte followed in the current call */
static uint8_t vp_inval, vp_outval;
static int vp_copies;
/* followed bytes: slot 5k+j is length byte j of message k, 5k+4 its payload byte;
 * no loops, so that the loop bound is the one the code under test needs */
static int vp_call;	/* message being pushed */
static size_t vp_hdone;	/* length bytes of it already copied */
static size_t vp_soff[15];
static uint8_t vp_sval[15];
static int vp_slive[15];
#define EACH(F) F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14)
static int vp_inside(const uint8_t *p, const uint8_t *base, size_t n)
{
#ifdef VP_CBMC
	return base && __CPROVER_same_object(p, base) && n > 0;
#else
	return base && p >= base && p < base + n;
#endif
}
static uint8_t vp_log_get(size_t off)
{
	uint8_t v = vp_u8();
#define GET(i) v = vp_slive[i] && vp_soff[i] == off ? vp_sval[i] : v;
	EACH(GET)
	return v;
}
static void *vp_memcpy(void *d, const void *s, size_t n)
{
	uint8_t *dp = (uint8_t *)d;
	const uint8_t *sp = (const uint8_t *)s;
	if (n == 0)
		return d;
	vp_copies++;
#ifdef VP_CBMC
	VP_ASSERT(__CPROVER_w_ok(dp, n) && __CPROVER_r_ok(sp, n), "copy stays inside the buffers");
#else
	{ volatile uint8_t x = dp[0]; x = dp[n - 1]; x = sp[0]; x = sp[n - 1]; (void)x; }
#endif
	if (vp_inside(dp, vp_ringp, 1 << 20)) {
		size_t off = (size_t)(dp - vp_ringp);
#define DIE(i) vp_slive[i] = vp_slive[i] && !(vp_soff[i] >= off && vp_soff[i] < off + n);
		EACH(DIE)
		if (vp_inside(sp, vp_msgp, vp_msgn)) {
			size_t o = vp_track - (size_t)(sp - vp_msgp);
			if (o < n)
			{
				vp_soff[5 * vp_call + 4] = off + o;
				vp_sval[5 * vp_call + 4] = vp_inval;
				vp_slive[5 * vp_call + 4] = 1;
			}
		} else {
			VP_ASSERT(vp_hdone + n <= 4, "only lengths and payload are copied");
#define HDR(j) if (j >= vp_hdone && j < vp_hdone + n) { \
			vp_soff[5 * vp_call + j] = off + (j - vp_hdone); vp_sval[5 * vp_call + j] = sp[j - vp_hdone]; vp_slive[5 * vp_call + j] = 1; }
			HDR(0) HDR(1) HDR(2) HDR(3)
			vp_hdone += n;
		}
	} else {
		VP_ASSERT(vp_inside(sp, vp_ringp, 1 << 20), "copies from or to the ring");
		size_t off = (size_t)(sp - vp_ringp);
		if (vp_inside(dp, vp_outp, vp_outn)) {
			size_t o = vp_track - (size_t)(dp - vp_outp);
			if (o < n)
				vp_outval = vp_log_get(off + o);
		} else {
			VP_ASSERT(n <= 4, "only lengths and payload are copied");
#define OUT(i) if (i < n) dp[i] = vp_log_get(off + i);
			OUT(0) OUT(1) OUT(2) OUT(3)
		}
	}
	return d;
}
#elif defined(VP_NEW)
static void *vp_memcpy(void *d, const void *s, size_t n)
{
	(void)d; (void)s;
	VP_ASSERT(n == 0, "nothing copied for refused messages");
	VP_ASSUME(n == 0);
	return d;
}
#else
static void *vp_memcpy(void *d, const void *s, size_t n)
{
#ifdef VP_CBMC
	/* same bytes, but a length header (4-byte object) is stored as one word so
	 * that the symbolic executor keeps it constant */
	if (__CPROVER_OBJECT_SIZE(d) == 4) {
		static uint8_t acc[4];
		size_t o = __CPROVER_POINTER_OFFSET(d);
		VP_ASSERT(o + n <= 4, "copy stays inside the buffers");
		for (size_t i = 0; i < n; i++)
			acc[o + i] = ((const uint8_t *)s)[i];
		if (o + n == 4) {
			for (size_t i = 0; i < o; i++)
				VP_ASSERT(((uint8_t *)d - o)[i] == acc[i], "model: length header");
			*(uint32_t *)((uint8_t *)d - o) = (uint32_t)acc[0] | (uint32_t)acc[1] << 8 | (uint32_t)acc[2] << 16 | (uint32_t)acc[3] << 24;
			return d;
		}
	}
#endif
	for (size_t i = 0; i < n; i++)
		((uint8_t *)d)[i] = ((const uint8_t *)s)[i];
	return d;
}
#endif
#define pipe vp_pipe_create
#define pipe2 vp_pipe2
#define fcntl vp_fcntl
#define close vp_close
#define read vp_read
#define write vp_write
#define malloc vp_malloc
#define calloc vp_calloc
#define free vp_free
#define memcpy vp_memcpy
#define pthread_mutex_init vp_mutex_init
#define pthread_mutex_destroy vp_mutex_destroy
#define pthread_mutex_lock vp_mutex_lock
#define pthread_mutex_unlock vp_mutex_unlock
#define pthread_cond_init vp_cond_init_
#define pthread_cond_destroy vp_cond_destroy
#define pthread_cond_signal vp_cond_signal
#define pthread_cond_broadcast vp_cond_signal
#define pthread_cond_wait vp_cond_wait
#define pthread_cond_timedwait vp_cond_timedwait
#define gettimeofday vp_gettimeofday
#include "src/fdutils.c"
#undef ULOG_TAG
#include "src/timetools.c"
#undef ULOG_TAG
#include "src/dynmbox.c"
#undef malloc
#undef calloc
#undef free
#undef memcpy
static void *vp_calloc(size_t n, size_t m)
{
#ifdef FAULTS
	if (vp_bool()) {
		vp_faults++;
		errno = ENOMEM;
		return NULL;
	}
#endif
	vp_heap++;
#ifdef VP_CBMC
	/* a typed object, for the symbolic executor's constant propagation */
	if (n * m == sizeof(struct dynmbox)) {
		static struct dynmbox zero, b;
		b = zero;
		return &b;
	}
#endif
	return calloc(n, m);
}

/* -------------------------------------------------------- reference queue */
#ifndef NMSG
#define NMSG 6
#endif
static struct dynmbox *box;
#ifdef CAP
#ifndef MSGMAX
#define MSGMAX CAP
#endif
static size_t vp_max;
static struct { uint8_t b[MSGMAX + 1]; size_t n; } q[NMSG];
static int q_started, q_done, q_read;	/* messages whose push began / succeeded, messages read */
#endif

#if !defined(VP_FULL) && !defined(VP_NEW) && !defined(VP_DEADLINE)
static int vp_depth, vp_sleeping;
#ifdef VP_CBMC
/* malloc's failure branches would multiply the paths */
#define vp_msgbuf(n) ((uint8_t *)__CPROVER_allocate(n, 0))
#define vp_msgfree(m) ((void)0)
#else
#define vp_msgbuf(n) ((uint8_t *)malloc(n))
#define vp_msgfree(m) free(m)
#endif
/* one push of message number q_started; blocking when block */
static void do_push_call(size_t n, int block)
{
	int k = q_started, r;
	uint8_t *m = vp_msgbuf(n ? n : 1);
	for (size_t i = 0; i < n; i++)
		m[i] = q[k].b[i] = vp_u8();
	q[k].n = n;
	q_started = k + 1;
	int unread = q_done - q_read;
	r = block ? dynmbox_push_block(box, n ? m : NULL, n, block - 1) : dynmbox_push(box, n ? m : NULL, n);
	if (n > vp_max) {
		VP_ASSERT(r == -EINVAL, "oversized message refused");
		q_started = k;
	} else if (r == 0) {
		q_done = k + 1;
	} else {
		q_started = k;
		VP_ASSERT(q_read <= k, "a refused message is never delivered");
		if (block) {
			VP_ASSERT(r == -ETIMEDOUT && block > 1 && vp_timedout, "blocking push fails only by timeout");
		} else {
			VP_ASSERT(r == -EAGAIN, "full box gives EAGAIN");
			VP_ASSERT(unread > 0, "empty box accepts any legal message");
		}
	}
	/* the box took a copy */
	for (size_t i = 0; i < n; i++)
		m[i] = 0;
	vp_msgfree(m);
}
static void do_peek_call(void)
{
	uint8_t *m = vp_msgbuf(vp_max ? vp_max : 1);
	int pend = q_done > q_read;
	int sig = vp_signals;
	ssize_t r = dynmbox_peek(box, m);
	if (r == -EAGAIN) {
		VP_ASSERT(!pend, "a queued message is delivered");
	} else {
		VP_ASSERT(r >= 0, "no other error");
		VP_ASSERT(q_read < q_started, "nothing delivered that was not sent");
		int k = q_read;
		VP_ASSERT((size_t)r == q[k].n, "message size");
		int same = 1;
		for (size_t i = 0; i < MSGMAX; i++)
			if (i < q[k].n)
				same &= m[i] == q[k].b[i];
		VP_ASSERT(same, "message bytes, in order");
		q_read = k + 1;
		VP_ASSERT(!vp_sleeping || vp_signals > sig, "a waiting producer is woken");
	}
	vp_msgfree(m);
}
static void check_quiet(void)
{
	VP_ASSERT(!vp_locked && !vp_lockerr, "lock released");
	VP_ASSERT(!vp_badfd, "only its own descriptors are used");
	VP_ASSERT((vp_pipe > 0) == (q_done > q_read), "descriptor readable iff a message is queued");
}
#endif

/* ------------------------------------------------------------- schedules */
#ifdef VP_SCHED
/* who runs at top level: 0 producer, 1 consumer; at each point where the lock
 * is free the other one may run whole calls */
static int vp_who, vp_budget;
static void vp_gap(void)
{
	if (vp_locked || vp_depth >= 1 || vp_budget <= 0)
		return;
	while (vp_budget > 0 && vp_bool()) {
		vp_budget--;
		vp_depth++;
		if (vp_who == 0)
			do_peek_call();
		else if (q_started < NMSG) {
			/* two calls, so that each path has concrete lengths */
			if (vp_bool())
				do_push_call(LEN1, 0);
			else
				do_push_call(LEN2, 0);
		}
		vp_depth--;
	}
}
#else
static void vp_gap(void) { }
#endif
#if !defined(VP_BLOCK) && !defined(VP_DEADLINE)
static void vp_sleep(void) { VP_ASSUME(0); }
#endif

#ifdef VP_NEW
/* C19: creation */
void vp_main(void)
{
	size_t max = (size_t)vp_u64();
	box = dynmbox_new(max);
	if (max > DYNMBOX_MAX_SIZE) {
		VP_ASSERT(!box, "oversized box refused");
		VP_REACH("oversized");
	} else
		VP_ASSERT((box == NULL) == (vp_faults > 0), "created unless a call failed");
	if (!box) {
		VP_ASSERT(vp_heap == 0 && !vp_open[0] && !vp_open[1], "nothing left behind on failure");
		VP_REACH_IF(vp_faults, "failure");
		VP_ASSERT(dynmbox_get_max_size(NULL) == -EINVAL && dynmbox_get_read_fd(NULL) == -1, "NULL box");
	} else {
		VP_ASSERT(dynmbox_get_max_size(box) == (ssize_t)max, "reports its size");
		VP_ASSERT(dynmbox_get_read_fd(box) == 3, "reports the read end");
		VP_ASSERT((vp_flfl[0] & O_NONBLOCK) && (vp_flfl[1] & O_NONBLOCK), "both ends non-blocking");
		VP_ASSERT((vp_fdfl[0] & FD_CLOEXEC) && (vp_fdfl[1] & FD_CLOEXEC), "both ends close-on-exec");
		VP_ASSERT(vp_lock_init == 1 && vp_cond_init == 1, "lock and condition initialised");
		uint8_t c = 0;
		VP_ASSERT(dynmbox_push(NULL, &c, 1) == -EINVAL && dynmbox_push_block(NULL, &c, 1, 1) == -EINVAL && dynmbox_peek(NULL, &c) == -EINVAL &&
			  dynmbox_peek(box, NULL) == -EINVAL && (max == 0 || (dynmbox_push(box, NULL, 1) == -EINVAL && dynmbox_push_block(box, NULL, 1, 0) == -EINVAL)), "invalid arguments refused");
		VP_ASSERT(dynmbox_push(box, &c, max + 1 + vp_u32()) == -EINVAL && dynmbox_push_block(box, &c, max + 1 + vp_u32(), 0) == -EINVAL, "oversized message refused");
		VP_REACH("created");
		dynmbox_destroy(box);
		VP_ASSERT(vp_heap == 0 && !vp_open[0] && !vp_open[1] && !vp_badfd, "everything released");
		VP_ASSERT(vp_lock_init == 0 && vp_cond_init == 0, "lock and condition destroyed");
	}
	dynmbox_destroy(NULL);
}
#elif defined(VP_DEADLINE)
/* C21: deadline arithmetic for every timeout and clock reading, box full */
static void vp_sleep(void) { }
void vp_main(void)
{
	uint8_t m[CAP];
	vp_fill(m, CAP);
	unsigned timeout = vp_u32();
	box = dynmbox_new(CAP);
	VP_ASSERT(box != NULL && dynmbox_push(box, m, CAP) == 0, "first message");
	vp_now.tv_sec = (time_t)vp_u64();
	vp_now.tv_usec = (suseconds_t)vp_u32();
	VP_ASSUME(vp_now.tv_sec >= 0 && vp_now.tv_sec < (INT64_C(1) << 40) && vp_now.tv_usec >= 0 && vp_now.tv_usec < 1000000);
	VP_ASSUME(timeout > 0);
	vp_now_fail = vp_u8();
	/* the wait may wake up spuriously, twice at most */
	int r = dynmbox_push_block(box, m, CAP, timeout);
	if (vp_now_fail) {
		VP_ASSERT(r == -vp_now_fail && vp_pipe == 1, "clock failure reported");
		return;
	}
	VP_ASSERT(vp_waits == 0 && vp_timedwaits > 0 && vp_timedout && r == -ETIMEDOUT, "times out");
	VP_ASSERT(vp_deadline.tv_nsec >= 0 && vp_deadline.tv_nsec < 1000000000, "deadline valid");
	/* deadline - now == timeout, by seconds and nanoseconds */
	int64_t s = (int64_t)(timeout / 1000u), ns = (int64_t)vp_now.tv_usec * 1000 + (int64_t)(timeout % 1000u) * 1000000;
	if (ns >= 1000000000) {
		ns -= 1000000000;
		s++;
	}
	VP_ASSERT(vp_deadline.tv_sec == vp_now.tv_sec + s, "deadline is the full timeout away (seconds)");
	VP_ASSERT(vp_deadline.tv_nsec == ns, "deadline is the full timeout away (nanoseconds)");
	VP_ASSERT(vp_pipe == 1 && !vp_locked && !vp_lockerr, "nothing queued, lock released");
	VP_REACH_IF(timeout > 4294968 && vp_timedwaits == 2, "timeout beyond 2^32 microseconds");
}
#elif defined(VP_FULL)
/* C18/C19 at full capacity: any first message moves the ring to any offset,
 * then two messages are queued together; one arbitrary byte of each is followed */
static uint8_t in1[MAXSZ], out1[MAXSZ];
static struct { size_t n, track; uint8_t v; } M[3];
static int vp_queued;
static int push(int k)
{
	M[k].n = vp_range(0, MAXSZ);
	M[k].track = vp_range(0, MAXSZ - 1);
	M[k].v = vp_u8();
	VP_ASSUME(M[k].track < M[k].n || M[k].track == 0);
	vp_msgp = in1; vp_msgn = MAXSZ; vp_outp = NULL; vp_outn = 0;
	vp_track = M[k].track;
	vp_inval = M[k].v;
	vp_call = k;
	vp_hdone = 0;
	int r = dynmbox_push(box, in1, M[k].n);
	VP_ASSERT(r == 0 || r == -EAGAIN, "queued or EAGAIN");
	VP_ASSERT(r == 0 || vp_queued > 0, "empty box accepts any legal message");
	VP_ASSERT(r == 0 || M[k - 1].n + M[k].n + 8 > MAXSZ, "refused only when there is no room");
	if (r == 0)
		vp_queued++;
	VP_ASSERT(vp_pipe > 0, "readable");
	return r == 0;
}
static void peek(int k)
{
	vp_msgp = NULL; vp_msgn = 0; vp_outp = out1; vp_outn = MAXSZ;
	vp_track = M[k].track;
	vp_outval = (uint8_t)~M[k].v;
	ssize_t l = dynmbox_peek(box, out1);
	if (vp_copies) {
		VP_ASSERT(l == (ssize_t)M[k].n, "message size");
		VP_ASSERT(M[k].n == 0 || vp_outval == M[k].v, "message byte");
	}
	VP_ASSUME(l == (ssize_t)M[k].n);
	vp_queued--;
	VP_ASSERT((vp_pipe > 0) == (vp_queued > 0), "readable iff a message is queued");
}
void vp_main(void)
{
	box = dynmbox_new(MAXSZ);
	VP_ASSERT(box != NULL, "created");
	push(0);
	peek(0);
	VP_ASSERT(dynmbox_peek(box, out1) == -EAGAIN, "empty");
	push(1);
#ifdef TWO
	int two = push(2);
#else
	int two = 0;
#endif
	peek(1);
	if (two)
		peek(2);
	VP_ASSERT(dynmbox_peek(box, out1) == -EAGAIN, "empty again");
	VP_REACH_IF(M[0].n == MAXSZ && M[1].n == MAXSZ, "full messages");
	VP_REACH_IF(M[0].n + 4 == MAXSZ + 2, "length header split at the ring end");
	VP_REACH_IF(M[0].n > 40000 && M[1].n > 40000, "payload split at the ring end");
#ifdef TWO
	VP_REACH_IF(two && M[1].n > 30000 && M[2].n > 20000, "two queued");
#endif
}
#else
/* C18 history / C20 schedules / C21 blocking pushes */
#ifdef VP_BLOCK
static int vp_sleeps;
static void vp_sleep(void)
{
	VP_ASSERT(q_done > q_read, "sleeps only when messages are queued");
	/* the consumer runs, or the wait ends spuriously or by timeout */
	if (vp_sleeps++ >= 2) {
		/* bound: a producer asleep for ever with an empty box would be stuck */
		VP_ASSUME(0);
	}
	int sig = vp_signals, rd = q_read;
	vp_sleeping = 1;
	if (vp_bool())
		do_peek_call();
	if (vp_bool())
		do_peek_call();
	vp_sleeping = 0;
	VP_ASSERT(q_read == rd || vp_signals > sig, "freed space wakes the producer");
	/* with nothing to wake it the producer stays asleep: only if messages are left */
	VP_ASSERT(vp_signals > sig || q_done > q_read, "no lost wake-up");
}
#endif
void vp_main(void)
{
	vp_max = MAXMSG;
	box = dynmbox_new(vp_max);
	VP_ASSERT(box != NULL, "created");
	static const unsigned char ops[] = OPS;
	static const size_t lens[] = LENS;
	for (size_t i = 0; i < sizeof(ops); i++) {
#ifdef VP_SCHED
		vp_budget = i == SOP ? BUDGET : 0;
		vp_who = ops[i] == 'r';
#endif
		if (ops[i] == 'r')
			do_peek_call();
		else if (q_started < NMSG) {
			int block = ops[i] == 'w' ? 0 : ops[i] == 'f' ? 1 : 1 + 1000;
			if (lens[i] != 99)
				do_push_call(lens[i], block);
			else {
				/* any length, one path for each */
				size_t n = vp_range(0, MAXMSG + 1);
				for (size_t k = 0; k <= MAXMSG + 1; k++)
					if (n == k) {
						do_push_call(k, block);
						break;
					}
			}
		}
		check_quiet();
	}
	VP_REACH_IF(q_read >= 1, "messages through");
#ifdef VP_SCHED
	VP_REACH_IF(q_read > RDS, "interleaved");
#endif
#ifdef VP_BLOCK
#ifndef NOSLEEP
	VP_REACH_IF(vp_sleeps == 2, "slept twice");
#endif
#endif
	dynmbox_destroy(box);
	VP_ASSERT(vp_heap == 0 && !vp_open[0] && !vp_open[1] && !vp_badfd, "everything released");
}
#endif
