/* C31: real src/fdutils.c over a descriptor with symbolic flags and failures. */
#include "vp.h"
#include <fcntl.h>
#include <stdarg.h>
#include "futils/fdutils.h"

static int vp_fd, vp_fdfl, vp_stfl;	/* descriptor and its flag words */
static int vp_err;			/* errno of the first failed call */
static int vp_badfd, vp_sets;
static int vp_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	int arg = 0;
	if (cmd == F_SETFD || cmd == F_SETFL) {
		va_start(ap, cmd);
		arg = va_arg(ap, int);
		va_end(ap);
	}
	if (fd != vp_fd)
		vp_badfd = 1;
	uint8_t e = vp_u8();
	if (e) {
		errno = e;
		if (!vp_err)
			vp_err = e;
		return -1;
	}
	switch (cmd) {
	case F_GETFD: return vp_fdfl;
	case F_GETFL: return vp_stfl;
	case F_SETFD: vp_fdfl = arg; vp_sets++; return 0;
	case F_SETFL: vp_stfl = arg; vp_sets++; return 0;
	default: VP_ASSERT(0, "only flag commands are used"); return -1;
	}
}
#define fcntl vp_fcntl
#include "src/fdutils.c"
#undef fcntl

void vp_main(void)
{
	vp_fd = vp_i32();
	vp_fdfl = vp_i32();
	vp_stfl = vp_i32();
	VP_ASSUME(vp_fdfl >= 0 && vp_stfl >= 0);
	int fd0 = vp_fdfl, st0 = vp_stfl, r, flags = vp_i32();
	VP_ASSUME(flags >= 0);
#if OP == 0
	r = fd_set_close_on_exec(vp_fd);
	if (r == 0) {
		VP_ASSERT(vp_err == 0, "no failure hidden");
		VP_ASSERT(vp_fdfl == (fd0 | FD_CLOEXEC), "close-on-exec added, other descriptor flags kept");
		VP_REACH_IF(!(fd0 & FD_CLOEXEC) && fd0, "set");
	} else {
		VP_ASSERT(vp_err && r == -vp_err, "failure reported with its errno");
		VP_ASSERT(vp_fdfl == fd0, "flags kept on failure");
		VP_REACH("failure");
	}
	VP_ASSERT(vp_stfl == st0, "status flags untouched");
#elif OP == 1
	r = fd_has_close_on_exec(vp_fd);
	VP_ASSERT(r == (vp_err ? 0 : (fd0 & FD_CLOEXEC) ? 1 : 0), "1 exactly when close-on-exec is set and readable");
	VP_ASSERT(vp_fdfl == fd0 && vp_stfl == st0 && !vp_sets, "flags untouched");
	VP_REACH_IF(r == 1, "set");
	VP_REACH_IF(vp_err, "failure");
#else
	r = fd_add_flags(vp_fd, flags);
	if (r == 0) {
		VP_ASSERT(vp_err == 0, "no failure hidden");
		VP_ASSERT(vp_stfl == (st0 | flags), "flags added, others kept");
		VP_REACH_IF((st0 & ~flags) && (flags & ~st0), "added");
	} else {
		VP_ASSERT(vp_err && r == -vp_err, "failure reported with its errno");
		VP_ASSERT(vp_stfl == st0, "flags kept on failure");
		VP_REACH("failure");
	}
	VP_ASSERT(vp_fdfl == fd0, "descriptor flags untouched");
#endif
	VP_ASSERT(!vp_badfd, "only the given descriptor is used");
}
