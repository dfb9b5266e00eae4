/* Stand-in for Parrot's libulog <ulog.h>, which is not installed here.
 * Logging has no effect on the properties checked: every macro evaluates its
 * arguments and does nothing else.  Macro names and early-return semantics
 * follow the public libulog header. */
#ifndef VP_ULOG_H
#define VP_ULOG_H
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <inttypes.h>
#include <errno.h>
#ifdef __cplusplus
extern "C" {
#endif
static inline void vp_ulog_nop(int prio, ...) { (void)prio; }
#ifdef __cplusplus
}
#endif
#define ULOG_DECLARE_TAG(_t) struct vp_ulog_tag_##_t
#define ULOGC(...) vp_ulog_nop(2, __VA_ARGS__)
#define ULOGE(...) vp_ulog_nop(3, __VA_ARGS__)
#define ULOGW(...) vp_ulog_nop(4, __VA_ARGS__)
#define ULOGN(...) vp_ulog_nop(5, __VA_ARGS__)
#define ULOGI(...) vp_ulog_nop(6, __VA_ARGS__)
#define ULOGD(...) vp_ulog_nop(7, __VA_ARGS__)
#define ULOG_ERRNO(_fmt, _err, ...) vp_ulog_nop(3, _fmt, (int)(_err), ##__VA_ARGS__)
#define ULOGE_ERRNO(_err, ...) vp_ulog_nop(3, (int)(_err), ##__VA_ARGS__)
#define ULOGW_ERRNO(_err, ...) vp_ulog_nop(4, (int)(_err), ##__VA_ARGS__)
#define ULOGN_ERRNO(_err, ...) vp_ulog_nop(5, (int)(_err), ##__VA_ARGS__)
#define ULOGI_ERRNO(_err, ...) vp_ulog_nop(6, (int)(_err), ##__VA_ARGS__)
#define ULOGD_ERRNO(_err, ...) vp_ulog_nop(7, (int)(_err), ##__VA_ARGS__)
#define ULOG_ERRNO_RETURN_IF(_cond, _err) \
	do { if (_cond) { vp_ulog_nop(3, (int)(_err)); return; } } while (0)
#define ULOG_ERRNO_RETURN_ERR_IF(_cond, _err) \
	do { if (_cond) { int vp_err__ = (_err); return -vp_err__; } } while (0)
#define ULOG_ERRNO_RETURN_VAL_IF(_cond, _err, _val) \
	do { if (_cond) { vp_ulog_nop(3, (int)(_err)); return (_val); } } while (0)
#endif
