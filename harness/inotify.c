/* C29: real src/inotify.c (with src/fdutils.c) over kernel stubs.
 * Kernel facts assumed: FIONREAD gives the size of the queued events, read()
 * of that many bytes returns exactly those whole events or fails (one reader). */
#include "vp.h"
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/inotify.h>
#include "futils/inotify.h"
#include "futils/fdutils.h"

#define EVSZ 16
#ifndef NEV
#define NEV 1
#endif
#ifndef LENS
#define LENS { 0 }
#endif
/* events are laid out end to end, name lengths are multiples of 16 */
static uint32_t vp_len[NEV] = LENS;
static struct { int wd; uint32_t mask, cookie; char first, last; } vp_ev[NEV];
static int vp_nev, vp_total, vp_cbs, vp_fd, vp_reads, vp_heap, vp_live, vp_bad;
static char *vp_buf;
static int vp_data;

static void cb(struct inotify_event *ev, void *data)
{
	VP_ASSERT(vp_cbs < vp_nev, "no callback without an event");
	int i = vp_cbs++;
	VP_ASSERT(data == &vp_data, "user pointer passed");
	VP_ASSERT(ev->wd == vp_ev[i].wd && ev->mask == vp_ev[i].mask && ev->cookie == vp_ev[i].cookie && ev->len == vp_len[i],
		  "event delivered with its own fields, in order");
	if (ev->len) {
		VP_ASSERT(ev->name[0] == vp_ev[i].first && ev->name[ev->len - 1] == vp_ev[i].last, "event delivered with its own name");
	}
}
static int vp_ioctl(int fd, unsigned long req, int *arg)
{
	VP_ASSERT(fd == vp_fd && req == FIONREAD, "asks how much is queued");
#ifdef IOFAIL
	errno = EBADF;
	vp_nev = 0;
	return -1;
#endif
	*arg = vp_total;	/* 0 when nothing is queued */
	return 0;
}
static ssize_t vp_read(int fd, void *buf, size_t n)
{
	VP_ASSERT(fd == vp_fd, "reads the descriptor");
	vp_reads++;
	VP_ASSERT(vp_total > 0 && n >= (size_t)vp_total, "buffer offered for all queued events");
	char *p = (char *)buf;
	size_t o = 0;
	for (int i = 0; i < NEV; i++) {
		struct inotify_event *e = (struct inotify_event *)(p + o);
		e->wd = vp_ev[i].wd;
		e->mask = vp_ev[i].mask;
		e->cookie = vp_ev[i].cookie;
		e->len = vp_len[i];
		if (vp_len[i]) {
			p[o + EVSZ] = vp_ev[i].first;
			p[o + EVSZ + vp_len[i] - 1] = vp_ev[i].last;
		}
		o += EVSZ + vp_len[i];
	}
	/* a failing read may leave anything in the buffer, stale events included */
	if (vp_bool()) {
		errno = vp_bool() ? EINTR : EAGAIN;
		vp_nev = 0;
		return -1;
	}
	return vp_total;
}
static void *vp_malloc(size_t n)
{
	if (vp_bool()) {
		vp_nev = 0;
		errno = ENOMEM;
		return NULL;
	}
	vp_heap++;
	return malloc(n);
}
static void vp_free(void *p)
{
	if (p)
		vp_heap--;
	free(p);
}
/* creation side */
static int vp_inits, vp_watch_fd = -1, vp_wmask, vp_fail_seen;
static const char *vp_wpath;
static int vp_inotify_init1(int flags)
{
	(void)flags;
	if (vp_bool()) {
		errno = EMFILE;
		vp_fail_seen = 1;
		return -1;
	}
	vp_inits++;
	vp_live++;
	return vp_fd;
}
static int vp_inotify_init(void) { return vp_inotify_init1(0); }
static int vp_add_watch(int fd, const char *path, uint32_t mask)
{
	VP_ASSERT(fd == vp_fd && vp_live, "watch added to the new descriptor");
	if (vp_bool()) {
		errno = ENOENT;
		vp_fail_seen = 1;
		return -1;
	}
	vp_watch_fd = fd;
	vp_wpath = path;
	vp_wmask = (int)mask;
	return 1;
}
static int vp_close(int fd)
{
	if (fd != vp_fd || !vp_live)
		vp_bad = 1;
	vp_live--;
	return 0;
}
static int vp_fcntl(int fd, int cmd, ...)
{
	(void)fd; (void)cmd;
	if (vp_bool()) {
		errno = EBADF;
		return -1;
	}
	return 0;
}
#define ioctl vp_ioctl
#define read vp_read
#define malloc vp_malloc
#define free vp_free
#define inotify_init vp_inotify_init
#define inotify_init1 vp_inotify_init1
#define inotify_add_watch vp_add_watch
#define close vp_close
#define fcntl vp_fcntl
#include "src/fdutils.c"
#include "src/inotify.c"
#undef malloc
#undef free

#ifdef VP_CREATE
void vp_main(void)
{
	vp_fd = (int)(vp_u8());	/* including descriptor 0 */
	uint32_t mask = vp_u32();
	const char *path = "/p";
	int r = inotify_create(path, mask);
	if (r == -1) {
		VP_ASSERT(vp_fail_seen, "no failure invented");
		VP_ASSERT(vp_live == 0, "nothing left open");
		VP_REACH("failure");
	} else {
		VP_ASSERT(r == vp_fd && vp_live == 1, "descriptor returned, open");
		VP_ASSERT(vp_watch_fd == vp_fd && vp_wpath == path && (uint32_t)vp_wmask == mask, "watching the path with the mask");
		VP_REACH_IF(r == 0, "descriptor 0");
		inotify_destroy(r);
		VP_ASSERT(vp_live == 0, "destroyed");
	}
	inotify_destroy(-1);
	VP_ASSERT(!vp_bad, "only its own descriptor is closed, once");
}
#else
void vp_main(void)
{
	vp_fd = 5;
#ifdef EMPTY
	vp_nev = 0;
#else
	vp_nev = NEV;
#endif
	for (int i = 0; i < NEV; i++) {
		vp_ev[i].wd = vp_i32();
		vp_ev[i].mask = vp_u32();
		vp_ev[i].cookie = vp_u32();
		vp_ev[i].first = (char)vp_u8();
		vp_ev[i].last = (char)vp_u8();
#ifdef SYMLEN
		vp_len[i] = 16u * vp_range(0, SYMLEN);
#endif
		if (i < vp_nev)
			vp_total += EVSZ + (int)vp_len[i];
	}
	inotify_process_fd(vp_fd, cb, &vp_data);
	VP_ASSERT(vp_cbs == vp_nev, "every event delivered exactly once");
	VP_ASSERT(vp_heap == 0, "all memory released");
	VP_ASSERT(vp_reads <= 1, "one read");
#if defined(EMPTY) || defined(IOFAIL)
	VP_REACH_IF(!vp_reads, "nothing queued");
#else
	VP_REACH_IF(vp_nev == NEV, "all events");
	VP_REACH_IF(vp_nev == 0 && vp_reads, "failing read");
#endif
}
#endif
