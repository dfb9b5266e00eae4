/* C16-C17: real src/mbox.c (with src/fdutils.c) over a model of the pipe. */
#include "vp.h"
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <stdarg.h>
#include <unistd.h>
#include "futils/fdutils.h"
#include "futils/mbox.h"
#ifndef SZ
#define SZ 2
#endif
#ifndef PCAP
#define PCAP (2 * SZ + 1)	/* pipe capacity of the model, in bytes */
#endif
#ifndef EINTRS
#define EINTRS 2		/* interruptions by signals in one history */
#endif

static int vp_open[2], vp_closes[2], vp_flfl[2], vp_fdfl[2], vp_badfd, vp_heap, vp_faults, vp_pipes;
static uint8_t vp_q[PCAP + 1];
static size_t vp_qn;
static int vp_eintr = EINTRS;
static int vp_err;	/* errno a fault produced in the current call */
static int vp_errs = 1;
static uint64_t vp_waited;
static int vp_forever, vp_polls, vp_in_push;

static int vp_idx(int fd)
{
	if (fd != 3 && fd != 4) {
		vp_badfd = 1;
		return 0;
	}
	if (!vp_open[fd - 3])
		vp_badfd = 1;
	return fd - 3;
}
static int vp_pipe_create(int fds[2])
{
	fds[0] = fds[1] = -1;
#ifdef FAULTS
	if (vp_bool()) {
		vp_faults++;
		errno = EMFILE;
		return -1;
	}
#endif
	fds[0] = 3;
	fds[1] = 4;
	vp_open[0] = vp_open[1] = 1;
	vp_pipes++;
	return 0;
}
static int vp_pipe2(int fds[2], int flags)
{
	int r = vp_pipe_create(fds);
	if (r == 0) {
		vp_flfl[0] = vp_flfl[1] = flags & O_NONBLOCK;
		vp_fdfl[0] = vp_fdfl[1] = (flags & O_CLOEXEC) ? FD_CLOEXEC : 0;
	}
	return r;
}
static int vp_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	int i = vp_idx(fd), arg;
	va_start(ap, cmd);
	arg = va_arg(ap, int);
	va_end(ap);
	switch (cmd) {
	case F_GETFD: return vp_fdfl[i];
	case F_GETFL: return vp_flfl[i];
	case F_SETFD: vp_fdfl[i] = arg; return 0;
	case F_SETFL: vp_flfl[i] = arg; return 0;
	default: VP_ASSERT(0, "model: unexpected fcntl"); return -1;
	}
}
static int vp_close(int fd)
{
	int i = vp_idx(fd);
	vp_open[i] = 0;
	vp_closes[i]++;
	errno = EBADF;
	return 0;
}
/* a signal may interrupt, or the call may fail for good */
static int vp_fault(void)
{
	if (vp_eintr > 0 && vp_bool()) {
		vp_eintr--;
		errno = EINTR;
		return 1;
	}
#ifdef ERRS
	/* one failure, errno concrete on each path */
	if (vp_errs > 0 && vp_bool()) {
		vp_errs--;
		if (vp_bool())
			errno = vp_err = EIO;
		else if (vp_bool())
			errno = vp_err = EPIPE;
		else
			errno = vp_err = ENOMEM;
		return 1;
	}
#endif
	return 0;
}
static ssize_t vp_read(int fd, void *buf, size_t n)
{
	if (vp_idx(fd) != 0)
		vp_badfd = 1;
	if (vp_fault())
		return -1;
#ifdef ERRS
	if (vp_errs > 0 && vp_bool()) {
		vp_errs--;
		vp_err = EPIPE;	/* end of file */
		return 0;
	}
#endif
	if (vp_qn == 0 || n == 0) {
		VP_ASSERT(vp_flfl[0] & O_NONBLOCK, "reading an empty pipe never blocks");
		errno = EAGAIN;
		return -1;
	}
	size_t m = n < vp_qn ? n : vp_qn;
	for (size_t i = 0; i < m; i++)
		((uint8_t *)buf)[i] = vp_q[i];
	for (size_t i = 0; i + m < vp_qn; i++)
		vp_q[i] = vp_q[i + m];
	vp_qn -= m;
	return (ssize_t)m;
}
static ssize_t vp_write(int fd, const void *buf, size_t n)
{
	if (vp_idx(fd) != 1)
		vp_badfd = 1;
	if (vp_fault())
		return -1;
	if (vp_qn + n > PCAP) {
		VP_ASSERT(vp_flfl[1] & O_NONBLOCK, "writing a full pipe never blocks");
		VP_ASSERT(n <= PIPE_BUF, "writes are atomic");
		errno = EAGAIN;
		return -1;
	}
	for (size_t i = 0; i < n; i++)
		vp_q[vp_qn + i] = ((const uint8_t *)buf)[i];
	vp_qn += n;
	return (ssize_t)n;
}
static void vp_consumer(void);
static int vp_poll(struct pollfd *p, nfds_t n, int timeout)
{
	VP_ASSERT(n == 1 && p->fd == 4 && (p->events & POLLOUT), "waits for room in the pipe");
	p->revents = 0;
	vp_polls++;
	if (timeout < 0)
		vp_forever = 1;
	if (vp_fault())
		return -1;
	if (vp_qn + SZ > PCAP)
		vp_consumer();
	if (vp_qn + SZ > PCAP) {
		if (timeout < 0) {
			VP_ASSUME(0);	/* stuck until the consumer reads */
			return -1;
		}
		vp_waited += (uint64_t)timeout;
		return 0;
	}
	p->revents = POLLOUT;
	return 1;
}
static void *vp_calloc(size_t n, size_t m);
static void *vp_malloc(size_t n) { return vp_calloc(1, n); }
static void vp_free(void *p);
#define pipe vp_pipe_create
#define pipe2 vp_pipe2
#define fcntl vp_fcntl
#define close vp_close
#define read vp_read
#define write vp_write
#define poll vp_poll
#define malloc vp_malloc
#define calloc vp_calloc
#define free vp_free
#include "src/fdutils.c"
#undef ULOG_TAG
#include "src/mbox.c"
#undef malloc
#undef calloc
#undef free
static void *vp_calloc(size_t n, size_t m)
{
#ifdef FAULTS
	if (vp_bool()) {
		vp_faults++;
		errno = ENOMEM;
		return NULL;
	}
#endif
	vp_heap++;
#ifdef VP_CBMC
	/* a typed object, for the symbolic executor's constant propagation */
	if (n * m == sizeof(struct mbox)) {
		static struct mbox zero, b;
		b = zero;
		return &b;
	}
#endif
	return calloc(n, m);
}
static void vp_free(void *p)
{
	if (p)
		vp_heap--;
#ifdef VP_CBMC
	if (!p || !__CPROVER_DYNAMIC_OBJECT(p))
		return;
#endif
	free(p);
}

/* -------------------------------------------------------- reference queue */
static struct mbox *box;
#ifndef NOPS
#define NOPS 6
#endif
static uint8_t sent[2 * NOPS + 2][SZ];
static int n_sent, n_read;
static void do_push(int block, unsigned timeout)
{
	uint8_t m[SZ];
	for (size_t i = 0; i < SZ; i++)
		sent[n_sent][i] = m[i] = vp_u8();
	int room0 = vp_qn + SZ <= PCAP, r;
	vp_err = 0;
	vp_waited = 0;
	vp_polls = 0;
	vp_forever = 0;
	if (block) {
		vp_in_push = 1;
		r = mbox_push_block(box, m, timeout);
		vp_in_push = 0;
	} else
		r = mbox_push(box, m);
	if (r == 0)
		n_sent++;
	VP_ASSERT(vp_qn == (size_t)(n_sent - n_read) * SZ, "whole messages only, a refused push leaves no trace");
	if (r == 0)
		VP_ASSERT(!vp_err, "success only if queued");
	else if (vp_err)
		VP_ASSERT(r == -vp_err, "negative errno on failure");
	else if (!block)
		VP_ASSERT(r == -EAGAIN && !room0, "EAGAIN exactly when the box is full");
	else if (timeout <= INT_MAX) {
		VP_ASSERT(r == -ETIMEDOUT, "blocking push waits for room");
		VP_ASSERT(timeout != 0 && vp_waited >= timeout, "times out only after the whole timeout");
	} else {
		VP_ASSERT(r != -ETIMEDOUT || vp_waited >= timeout, "times out only after the whole timeout");
		VP_ASSERT(r < 0, "refused timeout");
	}
	if (block && timeout == 0 && vp_polls)
		VP_ASSERT(vp_forever, "zero timeout waits for ever");
	if (block && timeout != 0)
		VP_ASSERT(!vp_forever, "non-zero timeout is finite");
}
static void do_peek(void)
{
	uint8_t m[SZ];
	int e0 = vp_err;
	vp_err = 0;
	int avail = n_sent > n_read;
	for (size_t i = 0; i < SZ; i++)
		m[i] = 0xa5;
	int r = mbox_peek(box, m);
	if (r == 0) {
		VP_ASSERT(!vp_err && avail, "only delivers what was sent");
		int same = 1;
		for (size_t i = 0; i < SZ; i++)
			same &= m[i] == sent[n_read][i];
		VP_ASSERT(same, "message intact, in order");
		n_read++;
	} else if (vp_err)
		VP_ASSERT(r == -vp_err, "negative errno on failure");
	else
		VP_ASSERT(r == -EAGAIN && !avail, "EAGAIN exactly when the box is empty");
	VP_ASSERT(vp_qn == (size_t)(n_sent - n_read) * SZ, "whole messages only");
	vp_err = e0;
}
static void vp_consumer(void)
{
	if (vp_in_push)
		while (n_read < n_sent && vp_bool()) {
			int n = n_read;
			do_peek();
			if (n_read == n)
				break;
		}
}

#ifdef VP_NEW
void vp_main(void)
{
	size_t size = (size_t)vp_u64();
	box = mbox_new(size);
	if (size == 0 || size >= PIPE_BUF) {
		VP_ASSERT(!box, "size out of range refused");
		VP_REACH("refused");
	} else
		VP_ASSERT((box == NULL) == (vp_faults > 0), "created unless a call failed");
	VP_ASSERT(mbox_get_read_fd(NULL) == -1, "NULL box");
	uint8_t c[4] = { 0 };
	VP_ASSERT(mbox_push(NULL, c) == -EINVAL && mbox_push_block(NULL, c, 1) == -EINVAL && mbox_peek(NULL, c) == -EINVAL, "NULL box refused");
	if (!box) {
		VP_ASSERT(vp_heap == 0 && !vp_open[0] && !vp_open[1], "nothing left behind on failure");
		VP_REACH_IF(vp_faults, "failure");
	} else {
		VP_ASSERT(mbox_get_read_fd(box) == 3, "reports the read end");
		VP_ASSERT((vp_flfl[0] & O_NONBLOCK) && (vp_flfl[1] & O_NONBLOCK), "both ends non-blocking");
		VP_ASSERT((vp_fdfl[0] & FD_CLOEXEC) && (vp_fdfl[1] & FD_CLOEXEC), "both ends close-on-exec");
		VP_ASSERT(mbox_push(box, NULL) == -EINVAL && mbox_push_block(box, NULL, 1) == -EINVAL && mbox_peek(box, NULL) == -EINVAL, "NULL message refused");
		VP_ASSERT(vp_qn == 0 && vp_polls == 0, "nothing sent");
		VP_REACH("created");
		mbox_destroy(box);
		VP_ASSERT(vp_heap == 0 && !vp_open[0] && !vp_open[1], "everything released");
		VP_ASSERT(vp_closes[0] == 1 && vp_closes[1] == 1 && !vp_badfd, "each end closed exactly once");
	}
	mbox_destroy(NULL);
}
#elif defined(VP_TIMEOUT)
/* every timeout, box full or not */
void vp_main(void)
{
	box = mbox_new(SZ);
	VP_ASSERT(box != NULL, "created");
	for (int i = 0; i < FILL; i++)
		do_push(0, 0);
	unsigned t = vp_u32();
	do_push(1, t);
	VP_ASSERT(!vp_badfd, "only its own descriptors are used");
	VP_REACH_IF(t > 0x7fffffff, "huge timeout");
	VP_REACH_IF(t == 0 && n_sent > FILL, "no timeout");
	VP_REACH_IF(t == 0x7fffffff && n_sent > FILL, "long timeout");
#if FILL >= 2 && !defined(NOTO)
	VP_REACH_IF(vp_waited == 0x7fffffff && n_sent == FILL, "long timeout expired");
	VP_REACH_IF(vp_eintr == 0 && n_sent == FILL && t == 5, "interrupted");
#endif
}
#else
void vp_main(void)
{
	box = mbox_new(SZ);
	VP_ASSERT(box != NULL, "created");
	static const unsigned char pre[] = OPS;
	for (size_t i = 0; i < sizeof(pre); i++) {
		int op = pre[i];
		/* one call each, so that every path has a concrete shape */
		if (op == 'a' ? vp_bool() : op == 'w')
			do_push(0, 0);
		else if (op == 'a' ? vp_bool() : op == 'r')
			do_peek();
		else if (op == 'a' ? vp_bool() : op == 'b')
			do_push(1, 0);
		else
			do_push(1, 7);
	}
	VP_ASSERT(!vp_badfd, "only its own descriptors are used");
	VP_REACH_IF(n_read >= MINREAD, "messages through");
	VP_REACH_IF(vp_eintr == 0, "interrupted");
	mbox_destroy(box);
	VP_ASSERT(vp_heap == 0 && vp_closes[0] == 1 && vp_closes[1] == 1, "everything released");
}
#endif
