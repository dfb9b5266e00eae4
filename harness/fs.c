/* C28: real src/fs.c over a symbolic directory tree.
 * Names are fixed, entry kinds, sizes, listing order of "." and "..", entry
 * type hints and failures are symbolic. */
#include "vp.h"
#include <stdio.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>
#include "futils/fs.h"
#include "vp_fmt.h"

/* tree: node 0 is the root "r"; children of every node are listed below */
#ifndef SHAPE
#define SHAPE 0
#endif
#define MAXCH 3
static const char *const vp_path[] = { "r", "r/a", "r/.b", "r/..c", "r/a/d", "r/a/.e", "r/.b/f", "r/a/d/g", "r/..c/h" };
#define NN 9
#if SHAPE == 0
static const int vp_child[NN][MAXCH] = { { 1, 2, 3 }, { 4, 5, 0 }, { 6, 0, 0 }, { 0 }, { 7, 0, 0 }, { 0 }, { 0 }, { 0 }, { 0 } };
#else
static const int vp_child[NN][MAXCH] = { { 1, 3, 0 }, { 4, 0, 0 }, { 0 }, { 8, 0, 0 }, { 7, 0, 0 }, { 0 }, { 0 }, { 0 }, { 0 } };
#endif
enum { K_REG, K_DIR, K_LNK, K_OTHER };
static int vp_kind[NN], vp_hint[NN];
static int64_t vp_size[NN];
static int vp_dots_first[NN];
struct vp_dir { int used, node, pos; };
static struct vp_dir vp_d[NN];
static struct dirent vp_de0 = { .d_name = "." }, vp_de00 = { .d_name = ".." }, vp_de1 = { .d_name = "a" }, vp_de2 = { .d_name = ".b" },
	vp_de3 = { .d_name = "..c" }, vp_de4 = { .d_name = "d" }, vp_de5 = { .d_name = ".e" }, vp_de6 = { .d_name = "f" }, vp_de7 = { .d_name = "g" },
	vp_de8 = { .d_name = "h" };
static int vp_calls, vp_failat = -1, vp_hit; /* the call that fails */
static int vp_open_dirs, vp_err, vp_heap, vp_bad;
static int vp_fail(void)
{
#ifdef FAULTS
	if (vp_calls++ == vp_failat) {
		uint8_t e = vp_u8();
		errno = vp_err = e ? e : EIO;
		vp_hit = 1;
		return 1;
	}
#endif
	return 0;
}
static int vp_streq(const char *a, const char *b)
{
	size_t i = 0;
	for (; a[i] && a[i] == b[i]; i++)
		;
	return a[i] == b[i];
}
static int vp_find(const char *path)
{
	for (int i = 0; i < NN; i++)
		if (vp_streq(path, vp_path[i]))
			return i;
	return -1;
}
static DIR *vp_opendir(const char *path)
{
	int n = vp_find(path);
	if (n < 0) {
		vp_bad = 1;
		errno = vp_err = ENOENT;
		return NULL;
	}
#ifdef DIRS
	if (!(DIRS >> n & 1)) {
		VP_ASSERT(0, "only directories are opened");
		VP_ASSUME(0);
#else
	if (vp_kind[n] != K_DIR) {
#endif
		errno = ENOTDIR;
		if (!vp_err)
			vp_err = ENOTDIR;
		return NULL;
	}
	if (vp_fail())
		return NULL;
	if (vp_d[n].used)
		vp_bad = 1;
	vp_d[n].used = 1;
	vp_d[n].node = n;
	vp_d[n].pos = 0;
	vp_open_dirs++;
	return (DIR *)&vp_d[n];
}
static struct dirent *vp_readdir(DIR *dir)
{
	struct vp_dir *d = (struct vp_dir *)dir;
	int n = d->node, nch = 0, pos = d->pos, c;
	while (nch < MAXCH && vp_child[n][nch])
		nch++;
	if (!d->used)
		vp_bad = 1;
	if (vp_fail())
		return NULL;
	if (pos >= nch + 2)
		return NULL;
	d->pos++;
	if (vp_dots_first[n])
		c = pos < 2 ? -1 - pos : pos - 2;
	else
		c = pos < nch ? pos : -1 - (pos - nch);
	if (c < 0)
		return c == -1 ? &vp_de0 : &vp_de00;
	c = vp_child[n][c];
	struct dirent *e = c == 1 ? &vp_de1 : c == 2 ? &vp_de2 : c == 3 ? &vp_de3 : c == 4 ? &vp_de4 :
		c == 5 ? &vp_de5 : c == 6 ? &vp_de6 : c == 7 ? &vp_de7 : &vp_de8;
	e->d_type = !vp_hint[c] ? DT_UNKNOWN : vp_kind[c] == K_REG ? DT_REG : vp_kind[c] == K_DIR ? DT_DIR :
		vp_kind[c] == K_LNK ? DT_LNK : DT_FIFO;
	return e;
}
static int vp_closedir(DIR *dir)
{
	struct vp_dir *d = (struct vp_dir *)dir;
	if (!d->used)
		vp_bad = 1;
	d->used = 0;
	vp_open_dirs--;
	errno = EBADF;
	return 0;
}
static int vp_lstat_(const char *path, struct stat *st, int follow)
{
	int n = vp_find(path);
	if (n < 0) {
		vp_bad = 1;
		errno = vp_err = ENOENT;
		return -1;
	}
	if (vp_fail())
		return -1;
	st->st_mode = vp_kind[n] == K_REG ? S_IFREG : vp_kind[n] == K_DIR ? S_IFDIR :
		vp_kind[n] == K_LNK ? (follow ? S_IFREG : S_IFLNK) : S_IFIFO;
	st->st_mode |= 0644;
	st->st_size = vp_size[n];
	st->st_blocks = vp_size[n] / 512;
	return 0;
}
static int vp_lstat(const char *path, struct stat *st) { return vp_lstat_(path, st, 0); }
static int vp_stat(const char *path, struct stat *st) { return vp_lstat_(path, st, 1); }
static void *vp_malloc(size_t n)
{
#ifdef FAULTS
	if (vp_calls++ == vp_failat) {
		errno = vp_err = ENOMEM;
		vp_hit = 1;
		return NULL;
	}
#endif
	vp_heap++;
	return malloc(n);
}
static void vp_free(void *p)
{
	if (p)
		vp_heap--;
	free(p);
}
#undef FILENAME_MAX
#ifndef FMAX
#define FMAX 16
#endif
#define FILENAME_MAX FMAX
#define opendir vp_opendir
#define readdir vp_readdir
#define closedir vp_closedir
#define lstat(p, s) vp_lstat(p, s)
#define snprintf vp_snprintf
#define malloc vp_malloc
#define free vp_free
#include "src/fs.c"
#undef malloc
#undef free
#undef lstat

static int64_t ref(int n, int recursive, int depth)
{
	int64_t s = 0;
	for (int i = 0; i < MAXCH; i++) {
		int c = vp_child[n][i];
		if (!c)
			continue;
		if (vp_kind[c] == K_REG)
			s += vp_size[c];
		else if (vp_kind[c] == K_DIR && recursive && depth < 3)
			s += ref(c, 1, depth + 1);
	}
	return s;
}
static int too_long(int n, int recursive, int depth)
{
	for (int i = 0; i < MAXCH; i++) {
		int c = vp_child[n][i];
		if (!c)
			continue;
		if (strlen(vp_path[c]) >= FILENAME_MAX)
			return 1;
		if (vp_kind[c] == K_DIR && recursive && depth < 3 && too_long(c, 1, depth + 1))
			return 1;
	}
	return 0;
}
void vp_main(void)
{
	int rec = RECURSIVE;
	for (int i = 0; i < NN; i++) {
#ifdef DIRS
		/* which names are directories is fixed per job, the other kinds are symbolic */
		if (DIRS >> i & 1)
			vp_kind[i] = K_DIR;
		else {
			uint8_t k = vp_u8();
			vp_kind[i] = k == 0 ? K_REG : k == 1 ? K_LNK : K_OTHER;
		}
#else
		vp_kind[i] = (int)vp_range(K_REG, K_OTHER);
#endif
		vp_size[i] = (int64_t)vp_u64();
		VP_ASSUME(vp_size[i] >= 0 && vp_size[i] < (INT64_C(1) << 58));
#ifdef DIRS
		vp_dots_first[i] = DOTS;
#else
		vp_dots_first[i] = vp_bool();
#endif
		vp_hint[i] = vp_bool();
	}
	vp_kind[0] = K_DIR;
	vp_de0.d_type = vp_de00.d_type = DT_DIR;
	int64_t e = ref(0, rec, 0), r;
	int tl = too_long(0, rec, 0);
#ifdef FAULTS
	/* every call of the walk fails in turn, with any errno */
	for (int f = FAULT0; f < FAULT1; f++) {
		vp_failat = f;
		vp_calls = vp_hit = vp_err = 0;
		r = futils_fs_dir_size("r", rec);
		VP_ASSERT(vp_open_dirs == 0, "every directory stream closed");
		VP_ASSERT(vp_heap == 0, "all memory released");
		VP_ASSERT(!vp_bad, "only existing paths and open streams are used");
		if (vp_hit)
			VP_ASSERT(r < 0 && r == -vp_err, "failure reported with its errno");
		else
			VP_ASSERT(r == e, "sum of the regular files");
		if (f == FAULT0)
			VP_REACH_IF(vp_hit, "failure");
	}
	(void)tl;
#else
	r = futils_fs_dir_size("r", rec);
	VP_ASSERT(vp_open_dirs == 0, "every directory stream closed");
	VP_ASSERT(vp_heap == 0, "all memory released");
	if (tl) {
		VP_ASSERT(r == -ENAMETOOLONG, "a path that does not fit is an error");
#if FMAX < 16
		VP_REACH("too long");
#endif
	} else {
		VP_ASSERT(!vp_bad, "only existing paths and open streams are used");
		VP_ASSERT(r == e, "sum of the regular files");
#if FMAX >= 16
		VP_REACH_IF(r > 0, "directories and files");
#endif
	}
#endif
}
