/* C30: real src/synctools.c over open/fsync/close stubs with symbolic failures. */
#include "vp.h"
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include "futils/synctools.h"
#ifndef N
#define N 6
#endif
#define MAXOPEN 3
static struct { char path[N + 2]; int open, synced, dir; } vp_f[MAXOPEN];
static int vp_nopen, vp_closed, vp_err, vp_badop, vp_null_open;
static int vp_nfail;

static int vp_fail(void)
{
	uint8_t e = vp_u8();
	if (!e)
		return 0;
	errno = e;
	vp_nfail++;
	if (!vp_err)
		vp_err = e;
	return 1;
}
static int vp_open(const char *path, int flags, ...)
{
	size_t i;
	VP_ASSERT(vp_nopen < MAXOPEN, "bounded number of opens");
	if (!path) {
		vp_null_open = 1;
		errno = vp_err = EFAULT;
		return -1;
	}
	if (vp_fail())
		return -1;
	/* a path ending in '/' only opens a directory; any other may be either */
	for (i = 0; i < N + 1 && path[i]; i++)
		vp_f[vp_nopen].path[i] = path[i];
	vp_f[vp_nopen].path[i] = '\0';
	vp_f[vp_nopen].dir = (i > 0 && path[i - 1] == '/') ? 1 : vp_bool();
	if (!vp_f[vp_nopen].dir && (flags & O_DIRECTORY)) {
		errno = ENOTDIR;
		vp_nfail++;
	if (!vp_err)
			vp_err = ENOTDIR;
		return -1;
	}
	vp_f[vp_nopen].open = 1;
	return 10 + vp_nopen++;
}
static int vp_fsync(int fd)
{
	int i = fd - 10;
	if (i < 0 || i >= vp_nopen || !vp_f[i].open) {
		vp_badop = 1;
		errno = EBADF;
		return -1;
	}
	if (vp_fail())
		return -1;
	vp_f[i].synced = 1;
	return 0;
}
static int vp_fdatasync(int fd)
{
	(void)fd;
	return vp_fail() ? -1 : 0; /* does not flush metadata: not counted as a sync */
}
static int vp_close(int fd)
{
	int i = fd - 10;
	if (i < 0 || i >= vp_nopen || !vp_f[i].open) {
		vp_badop = 1;
		errno = EBADF;
		return -1;
	}
	vp_f[i].open = 0;
	errno = vp_u8() | 1;	/* clobbers errno, its result is advisory */
	return vp_bool() ? -1 : 0;
}
static char *vp_strdup(const char *s)
{
	size_t n = 0;
	VP_ASSERT(s != NULL, "no NULL dereference");
	if (vp_bool()) {
		errno = ENOMEM;
		vp_nfail++;
	if (!vp_err)
			vp_err = ENOMEM;
		return NULL;
	}
	char *d = (char *)malloc(N + 2);
	do
		d[n] = s[n];
	while (s[n++]);
	return d;
}
#define open vp_open
#define fsync vp_fsync
#define fdatasync vp_fdatasync
#define close vp_close
#undef strdup
#define strdup vp_strdup
#include "src/synctools.c"
#undef open
#undef close

static int opened_synced(const char *want, size_t len, int alt)
{
	/* some descriptor opened on exactly want[0..len) (or without its last byte when alt) was synced */
	int ok = 0;
	for (int k = 0; k < MAXOPEN; k++) {
		size_t n = 0;
		int same = 1;
		for (; n < N + 1 && vp_f[k].path[n]; n++)
			same &= n < len && vp_f[k].path[n] == want[n];
		ok |= k < vp_nopen && vp_f[k].synced && same && (n == len || (alt && n + 1 == len && n > 0));
	}
	return ok;
}
void vp_main(void)
{
	char p[N + 1];
	size_t len = 0, par = 0;
	int r;
	vp_fill(p, N);
	p[N] = '\0';
	for (len = 0; p[len]; len++)
		if (p[len] == '/')
			par = len + 1;
	const char *arg = p;
#if OP == 3
	arg = NULL;
	int w = (int)vp_range(0, 2);
	r = w == 0 ? sync_file(arg) : w == 1 ? sync_folder(arg) : sync_file_and_folder(arg);
	VP_ASSERT(r < 0, "NULL refused");
	VP_REACH_IF(w == 2, "file and folder");
#elif OP == 0
	r = sync_file(arg);
	VP_ASSERT(r != 0 || opened_synced(p, len, 0), "success only after the file was synced");
#elif OP == 1
	r = sync_folder(arg);
	VP_ASSERT(r != 0 || (opened_synced(p, len, 0) && vp_f[0].dir), "success only after the folder was synced");
#else
	r = sync_file_and_folder(arg);
	VP_ASSERT(r != 0 || opened_synced(p, len, 0), "success only after the file was synced");
	if (par > 0)
		VP_ASSERT(r != 0 || opened_synced(p, par, 1), "success only after the parent folder was synced");
	else
		VP_ASSERT(r != 0 || opened_synced(".", 1, 0) || opened_synced("./", 2, 0), "success only after the parent folder was synced");
	VP_REACH_IF(r == 0, "both synced");
	VP_REACH_IF(vp_nopen == 2 && r < 0, "folder sync failure");
#endif
	VP_ASSERT(r <= 0, "zero or negative errno");
	VP_ASSERT(!vp_err || (vp_nfail == 1 ? r == -vp_err || (OP == 2 && par == 0) : r < 0), "failure reported with its errno");
	VP_ASSERT(vp_err || r == 0 || (OP == 2 && par == 0) || OP == 3, "no failure invented");
	for (int k = 0; k < MAXOPEN; k++)
		VP_ASSERT(!vp_f[k].open, "every descriptor closed");
	VP_ASSERT(!vp_badop && !vp_null_open, "only open descriptors are used");
#if OP < 2
	VP_REACH_IF(r == 0, "synced");
	VP_REACH_IF(vp_nopen == 1 && r < 0, "sync failure");
	VP_REACH_IF(vp_nopen == 0 && r < 0, "open failure");
#endif
}
