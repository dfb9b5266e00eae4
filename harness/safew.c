/* C22-C25: real src/safew.c over a model of the file system and of stdio.
 *
 * Four names exist: P (the target), T = P.tmp, C = P.crc, D = P.crc.tmp.
 * A crash may happen before any operation that changes the file system; what is
 * not synchronised then has arbitrary contents.  Any operation may fail. */
#include "vp.h"
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <limits.h>
#include "futils/safew.h"
#include "vp_fmt.h"
#ifndef BASE
#define BASE "p"
#endif
#ifndef PRE
#define PRE 0		/* file names present at start, bits P T C D */
#endif
#ifndef OLDLEN
#define OLDLEN 1
#endif
#ifndef W1
#define W1 2		/* bytes written with fwrite, then with fprintf */
#endif
#ifndef W2
#define W2 1
#endif
#if W1 > 1 && !defined(ITEMS)
#define TEXT (W1 - 1)	/* where the text is */
#else
#define TEXT W1
#endif
#ifndef CRASHES
#define CRASHES 0
#endif
#ifndef TORNLEN
#define TORNLEN 4	/* length of what is found where nothing was synchronised */
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
#define MAXB 8
enum { P, T, C, D, NF };
struct node { int len, synced; uint8_t b[MAXB]; };
static struct node vp_ino[12];
static int vp_nino, vp_dir[NF] = { -1, -1, -1, -1 };
struct vp_file { int used, ino, wr, pos, n, err, eof; uint8_t b[MAXB]; };
static struct vp_file vp_f0, vp_f1, vp_f2, vp_f3, vp_f4, vp_f5, vp_f6, vp_f7, vp_f8, vp_f9, vp_f10, vp_f11, vp_f12, vp_f13;
/* distinct objects: the symbolic execution then knows that they are not NULL */
static struct vp_file *const vp_f[] = { &vp_f0, &vp_f1, &vp_f2, &vp_f3, &vp_f4, &vp_f5, &vp_f6, &vp_f7, &vp_f8, &vp_f9, &vp_f10, &vp_f11, &vp_f12, &vp_f13 };
static int vp_nf, vp_open_files, vp_heap, vp_crashes = CRASHES, vp_faults = FAULTS, vp_hit, vp_unlink_failed, vp_muts;
static int vp_crc_rename_failed;
static char vp_base[200] = BASE;
#ifdef VP_CBMC
#define vp_halt() __CPROVER_assume(0)
#else
#define vp_halt() _Exit(0)
#endif
static void vp_reboot(void);
static void vp_point(void)
{
	vp_muts++;
#ifdef CRASH1
	/* the place of the first crash is given */
	if (vp_crashes == CRASHES ? vp_muts == CRASH1 : vp_crashes > 0 && vp_bool()) {
#else
	if (vp_crashes > 0 && vp_bool()) {
#endif
		vp_crashes--;
		for (int i = 0; i < vp_nino; i++)
			if (!vp_ino[i].synced) {
				/* anything may be found where nothing was synchronised */
				int l = TORNLEN;
				vp_ino[i].len = l;
				for (int k = 0; k < l; k++)
					vp_ino[i].b[k] = vp_u8();
				vp_ino[i].synced = 1;
			}
		vp_open_files = 0;
		vp_heap = 0;
		vp_reboot();
		vp_halt();
	}
}
static int vp_fail(void)
{
	if (vp_faults > 0 && vp_bool()) {
		vp_faults--;
		vp_hit = 1;
		errno = EIO;
		return 1;
	}
	return 0;
}
static int vp_name(const char *path)
{
	size_t i = 0;
	for (; vp_base[i]; i++)
		if (path[i] != vp_base[i]) {
			VP_ASSERT(0, "only the file and its companions are touched");
			return -1;
		}
	path += i;
	if (path[0] == 0)
		return P;
	if (!strcmp(path, ".tmp"))
		return T;
	if (!strcmp(path, ".crc"))
		return C;
	if (!strcmp(path, ".crc.tmp"))
		return D;
	VP_ASSERT(0, "only the file and its companions are touched");
	return -1;
}
static int vp_new(void)
{
	VP_ASSERT(vp_nino < 12, "model: inodes");
	vp_ino[vp_nino].len = 0;
	vp_ino[vp_nino].synced = 0;
	return vp_nino++;
}
static struct vp_file *vp_fopen(const char *path, const char *mode)
{
	int n = vp_name(path);
	if (n < 0)
		return NULL;
	if (mode[0] == 'r') {
		if (vp_dir[n] < 0) {
			errno = ENOENT;
			return NULL;
		}
#ifndef NOREADFAULTS
		if (vp_fail())
			return NULL;
#endif
	} else {
		VP_ASSERT(mode[0] == 'w', "model: open mode");
		vp_point();
		if (vp_fail())
			return NULL;
		if (vp_dir[n] < 0)
			vp_dir[n] = vp_new();
		else {
			vp_ino[vp_dir[n]].len = 0;
			vp_ino[vp_dir[n]].synced = 0;
		}
	}
	VP_ASSERT(vp_nf < 14, "model: handles");
	struct vp_file *f = vp_f[vp_nf++];
	f->used = 1;
	f->ino = vp_dir[n];
	f->wr = mode[0] == 'w';
	f->pos = f->n = f->err = f->eof = 0;
	vp_open_files++;
	return f;
}
static int vp_flush(struct vp_file *f)
{
	struct node *i = &vp_ino[f->ino];
	if (!f->wr || f->n == 0)
		return 0;
	vp_point();
	i->synced = 0;
	if (vp_fail()) {
		/* part of the bytes are lost, for good */
		f->n--;
		f->err = 1;
		for (int k = 0; k < f->n; k++)
			i->b[i->len++] = f->b[k];
		f->n = 0;
		return EOF;
	}
	for (int k = 0; k < f->n; k++) {
		VP_ASSERT(i->len < MAXB, "model: file size");
		i->b[i->len++] = f->b[k];
	}
	f->n = 0;
	return 0;
}
static int vp_fflush(struct vp_file *f)
{
	VP_ASSERT(f->used, "open file");
	return vp_flush(f);
}
static int vp_fclose(struct vp_file *f)
{
	VP_ASSERT(f->used, "open file");
	int r = vp_flush(f);
	f->used = 0;
	vp_open_files--;
	if (r == 0 && f->wr && vp_fail())
		r = EOF;
	return r;
}
static int vp_fileno(struct vp_file *f)
{
	VP_ASSERT(f->used, "open file");
	for (int i = 0; i < vp_nf; i++)
		if (vp_f[i] == f)
			return i;
	return -1;
}
static int vp_fsync(int fd)
{
	VP_ASSERT(fd >= 0 && fd < vp_nf && vp_f[fd]->used, "open descriptor");
	vp_point();
	if (vp_fail())
		return -1;
	vp_ino[vp_f[fd]->ino].synced = 1;
	return 0;
}
static size_t vp_fwrite(const void *ptr, size_t size, size_t nmemb, struct vp_file *f)
{
	VP_ASSERT(f->used && f->wr, "open file");
	size_t n = size * nmemb;
	int bad = n > 0 && vp_fail();
	if (bad) {
		n--;
		f->err = 1;
	}
	for (size_t k = 0; k < n; k++) {
		VP_ASSERT(f->n < MAXB, "model: buffer size");
		f->b[f->n++] = ((const uint8_t *)ptr)[k];
	}
	return bad ? n / size : nmemb;
}
static int vp_vfprintf(struct vp_file *f, const char *fmt, va_list ap)
{
	char t[MAXB];
	VP_ASSERT(f->used && f->wr, "open file");
	int n = vp_vsnprintf(t, sizeof(t), fmt, ap);
	VP_ASSERT(n < MAXB, "model: text size");
	if (vp_fail()) {
		f->err = 1;
		return -1;
	}
	for (int k = 0; k < n; k++) {
		VP_ASSERT(f->n < MAXB, "model: buffer size");
		f->b[f->n++] = (uint8_t)t[k];
	}
	return n;
}
static int vp_getc(struct vp_file *f)
{
	VP_ASSERT(f->used && !f->wr, "open file");
#ifndef NOREADFAULTS
	if (f->err || vp_fail()) {
		f->err = 1;
		return EOF;
	}
#endif
	struct node *i = &vp_ino[f->ino];
	if (f->pos >= i->len) {
		f->eof = 1;
		return EOF;
	}
	return i->b[f->pos++];
}
static size_t vp_fread(void *ptr, size_t size, size_t nmemb, struct vp_file *f)
{
	size_t n = 0;
	struct node *i = &vp_ino[f->ino];
	VP_ASSERT(f->used && !f->wr, "open file");
#ifndef NOREADFAULTS
	if (f->err || vp_fail()) {
		f->err = 1;
		return 0;
	}
#endif
	for (; n < size * nmemb && f->pos < i->len; n++)
		((uint8_t *)ptr)[n] = i->b[f->pos++];
	if (n < size * nmemb)
		f->eof = 1;
	return size ? n / size : 0;
}
static int vp_ferror(struct vp_file *f) { return f->err; }
static int vp_feof(struct vp_file *f) { return f->eof; }
static void vp_rewind(struct vp_file *f) { f->pos = 0; f->eof = f->err = 0; }
static int vp_unlink(const char *path)
{
	if (path[0] == 0) {
		errno = ENOENT;
		return -1;
	}
	int n = vp_name(path);
	if (n < 0 || vp_dir[n] < 0) {
		errno = ENOENT;
		return -1;
	}
	vp_point();
#ifdef UNLINKFAULTS
	if (vp_fail()) {
		vp_unlink_failed = 1;
		return -1;
	}
#endif
	vp_dir[n] = -1;
	return 0;
}
static int vp_rename(const char *from, const char *to)
{
	int a = vp_name(from), b = vp_name(to);
	if (a < 0 || b < 0)
		return -1;
	if (vp_dir[a] < 0) {
		errno = ENOENT;
		return -1;
	}
	vp_point();
	if (vp_fail()) {
		if (b == C)
			vp_crc_rename_failed = 1;
		return -1;
	}
	vp_dir[b] = vp_dir[a];
	vp_dir[a] = -1;
	return 0;
}
static int vp_access(const char *path, int mode)
{
	(void)mode;
	int n = vp_name(path);
	if (n >= 0 && vp_dir[n] >= 0)
		return 0;
	errno = ENOENT;
	return -1;
}
static void *vp_malloc(size_t n)
{
	if (vp_fail())
		return NULL;
	vp_heap++;
	return malloc(n);
}
static void *vp_calloc(size_t n, size_t s)
{
	if (vp_fail())
		return NULL;
	vp_heap++;
	return calloc(n, s);
}
static void vp_free(void *p)
{
	if (p)
		vp_heap--;
	free(p);
}
#undef FILE
#undef getc
#undef fgetc
#undef ferror
#undef feof
#define FILE struct vp_file
#define fopen vp_fopen
#define fclose vp_fclose
#define fflush vp_fflush
#define fileno vp_fileno
#define fsync vp_fsync
#define fdatasync vp_fsync
#define fwrite vp_fwrite
#define vfprintf vp_vfprintf
#define getc vp_getc
#define fgetc vp_getc
#define fread vp_fread
#define ferror vp_ferror
#define feof vp_feof
#define rewind vp_rewind
#define unlink vp_unlink
#define remove vp_unlink
#define rename vp_rename
#define access vp_access
#define snprintf vp_snprintf
#define vsnprintf vp_vsnprintf
#define malloc vp_malloc
#define calloc vp_calloc
#define free vp_free
static uint32_t vp_crc(const uint8_t *b, int n);
#ifdef VP_CUT
#include VP_SRC
/* contract of the checksum computation (C25 decides it): the file is read to its end */
static void crc_from_fhd(FILE *f, uint32_t *crc)
{
	struct node *i = &vp_ino[f->ino];
	VP_ASSERT(f->used && !f->wr, "open file");
	int n = i->len;
#ifndef NOREADFAULTS
	if (vp_fail()) {
		f->err = 1;
		n = 0;
	} else
#endif
		f->eof = 1;
	*crc = vp_crc(i->b + f->pos, n ? n - f->pos : 0);
	f->pos = i->len;
}
#else
#include "src/safew.c"
#endif
#undef FILE
#undef free
#undef malloc
#undef calloc

#ifdef VP_CUT
/* any function of the contents may be the checksum */
static uint32_t vp_crc(const uint8_t *b, int n)
{
	static struct { int n; uint64_t b; uint32_t v; } tab[24];
	static int ntab;
	uint64_t x = 0;
	uint32_t v = vp_u32();
	for (int i = 0; i < n; i++)
		x |= (uint64_t)b[i] << (8 * i);
	for (int i = 0; i < ntab; i++)
		if (tab[i].n == n)
			v = tab[i].b == x ? tab[i].v : v;
	VP_ASSERT(ntab < 24, "model: checksums");
	tab[ntab].n = n;
	tab[ntab].b = x;
	tab[ntab++].v = v;
	return v;
}
#else
/* the checksum, from its definition */
static uint32_t vp_crc(const uint8_t *b, int n)
{
	uint32_t h = 0;
	for (int i = 0; i < n; i++) {
		h += b[i];
		h += h << 10;
		h ^= h >> 6;
	}
	h += h << 3;
	h ^= h >> 11;
	h += h << 15;
	return h;
}
#endif
static uint8_t old_[MAXB], new_[MAXB];
static int newlen;
static int is(int f, const uint8_t *b, int n)
{
	if (vp_dir[f] < 0 || vp_ino[vp_dir[f]].len != n)
		return 0;
	int same = 1;
	for (int i = 0; i < n; i++)
		same &= vp_ino[vp_dir[f]].b[i] == b[i];
	return same;
}
static int is_old(void) { return PRE & 1 ? is(P, old_, OLDLEN) : vp_dir[P] < 0; }
static int is_new(void) { return is(P, new_, newlen); }
/* the checksum file holds the checksum of the payload */
static int matches(int p, int c)
{
	if (vp_dir[p] < 0 || vp_dir[c] < 0 || vp_ino[vp_dir[c]].len < 4)
		return 0;
	uint32_t v = vp_crc(vp_ino[vp_dir[p]].b, vp_ino[vp_dir[p]].len), w;
	memcpy(&w, vp_ino[vp_dir[c]].b, 4);
	return v == w;
}
static void put(int f, const uint8_t *b, int n)
{
	int i = vp_dir[f] = vp_new();
	for (int k = 0; k < n; k++)
		vp_ino[i].b[k] = b[k];
	vp_ino[i].len = n;
	vp_ino[i].synced = 1;
}
static void put_any(int f, int n)
{
	uint8_t b[MAXB];
	vp_fill(b, n);
	put(f, b, n);
}
static struct futils_safew_file *wr;
/* the state before the write: stale temporaries of any contents */
static void prepare(void)
{
	vp_fill(old_, OLDLEN);
	if (PRE & 1)
		put(P, old_, OLDLEN);
	if (PRE & 2)
		put_any(T, 3);
	if (PRE & 4) {
		uint32_t c = vp_crc(old_, OLDLEN);
		put(C, (uint8_t *)&c, 4);
	}
	if (PRE & 8)
		put_any(D, 4);
	vp_fill(new_, W1);
	for (int i = W1; i < W1 + W2; i++) {
		new_[i] = vp_u8();
	}
	newlen = W1 + W2;
}
static int writes(void)
{
	int ok = 1;
	wr = futils_safew_fopen(vp_base);
	if (!wr)
		return 0;
#if W1 > 0
#ifdef ITEMS
	if (futils_safew_fwrite(new_, W1, 1, wr) != 1)
		ok = 0;
#else
	/* the last byte is written after the text */
	if (futils_safew_fwrite(new_, 1, W1 > 1 ? W1 - 1 : W1, wr) != W1)
		ok = 0;
#endif
#endif
#if W2 > 0
	for (int i = 0; i < W2; i++)
		if (futils_safew_fprintf(wr, "%c", (int)new_[TEXT + i]) != 1)
			ok = 0;
#endif
#if W1 > 1 && !defined(ITEMS)
	if (futils_safew_fwrite(new_ + newlen - 1, 1, 1, wr) != 1)
		ok = 0;
#endif
	(void)ok;
	return 1;
}
#if defined(VP_ATOMIC)
/* C22: END: 0 commit, 1 rollback, 2 checksummed commit */
static void vp_reboot(void)
{
	VP_ASSERT(is_old() | is_new(), "after a crash: the previous or the complete new content");
	VP_REACH_IF(vp_muts > 1, "crash");
#if END == 1
	VP_ASSERT(is_old(), "a rolled back file is untouched");
#else
	VP_REACH_IF(vp_muts > 1 && is_new(), "crash with the new content");
#endif
}
void vp_main(void)
{
	int ret;
	prepare();
	if (!writes()) {
		VP_ASSERT(FAULTS && vp_hit && is_old(), "a file that could not be opened is untouched");
		return;
	}
	VP_ASSERT(is_old(), "writing does not touch the file");
	/* the machine may stop here, with the writes pending */
	vp_point();
#if END == 0
	ret = futils_safew_fclose_commit(wr);
#elif END == 1
	ret = futils_safew_fclose_rollback(wr);
#else
	ret = futils_safew_fclose_commit_with_crc(wr);
#endif
#if !FAULTS
	VP_ASSERT(ret == 0, "success");
#endif
	VP_ASSERT(is_old() | is_new(), "the previous or the complete new content");
#if END == 1
	VP_ASSERT(is_old(), "a rolled back file is untouched");
#else
	if (ret == 0) {
		VP_ASSERT(is_new(), "committed");
		VP_ASSERT(vp_ino[vp_dir[P]].synced, "a committed file is on the storage device");
#if END == 2
		VP_ASSERT(matches(P, C) & vp_ino[vp_dir[C]].synced, "a committed checksum is on the storage device");
#endif
		VP_REACH("committed");
	}
#endif
	vp_point();
	VP_REACH_IF(ret == 0, "end");
}
#elif defined(VP_FAULTY)
/* C23 */
static void vp_reboot(void) {}
void vp_main(void)
{
	prepare();
	int ok = writes();
	if (!ok) {
		VP_ASSERT(vp_hit, "opening succeeds");
		VP_ASSERT(is_old() && vp_heap == 0 && vp_open_files == 0, "a failed opening leaves nothing");
		VP_REACH("opening failed");
		return;
	}
	int wfail = vp_hit && !vp_unlink_failed;
#if END == 0
	int ret = futils_safew_fclose_commit(wr);
#elif END == 1
	int ret = futils_safew_fclose_rollback(wr);
#else
	int ret = futils_safew_fclose_commit_with_crc(wr);
#endif
	(void)wfail;
	VP_ASSERT(ret == 0 || ret == -1, "result");
	VP_ASSERT(vp_open_files == 0 && vp_heap == 0, "handles and memory released");
#if END == 1
	VP_ASSERT(is_old() && (vp_dir[T] < 0 || vp_unlink_failed), "rolled back");
	VP_REACH_IF(ret < 0, "failed");
	VP_REACH_IF(ret == 0, "succeeded");
#else
	/* removing a stale temporary file may fail: it is overwritten */
	VP_ASSERT((ret == 0) == !vp_hit || vp_unlink_failed, "success if and only if nothing failed");
	VP_REACH_IF(ret < 0, "failed");
	VP_REACH_IF(ret == 0, "succeeded");
	if (ret == 0) {
		VP_ASSERT(is_new() && vp_ino[vp_dir[P]].synced, "every byte is durably in the file");
		VP_ASSERT(vp_dir[T] < 0, "no temporary file left");
#if END == 2
		VP_ASSERT(matches(P, C) & vp_ino[vp_dir[C]].synced, "the checksum is durably that of the file");
		VP_ASSERT(vp_dir[D] < 0, "no temporary file left");
#endif
	} else if (!vp_crc_rename_failed) {
		VP_ASSERT(is_old(), "the previous content is kept");
#if PRE & 4
		VP_ASSERT(matches(P, C), "the previous checksum is kept");
#endif
		VP_ASSERT(vp_unlink_failed || vp_dir[T] < 0, "no temporary file left");
#if END == 2
		VP_ASSERT(vp_unlink_failed || vp_dir[D] < 0, "no temporary file left");
#endif
	} else {
		/* the file is already replaced: its checksum must not be lost */
		VP_ASSERT(is_new() & (matches(P, C) | matches(P, D)), "new content with its checksum");
#if END == 2
		VP_REACH("checksum rename failed");
#endif
	}
#endif
}
#elif defined(VP_RECOVER)
/* C24: FAULTS only during the write */
static int committed, checked;
static void recovered(int ret)
{
	if (ret == 0) {
		VP_ASSERT(((PRE & 1) != 0 & is(P, old_, OLDLEN)) | is_new(), "the recovered file is the previous or the new version");
		VP_ASSERT(matches(P, C), "the recovered file matches its checksum");
	} else {
		VP_ASSERT(!(PRE & 1), "a valid version is never lost");
		VP_ASSERT(vp_dir[P] < 0 && vp_dir[C] < 0, "nothing left if nothing is valid");
	}
	if (committed)
		VP_ASSERT(ret == 0 && is_new(), "a committed version is kept");
	VP_ASSERT(vp_dir[T] < 0 && vp_dir[D] < 0, "no temporary files left");
	VP_ASSERT(vp_open_files == 0 && vp_heap == 0, "everything is closed");
}
static void check(void)
{
	vp_faults = 0;
	int ret = futils_safew_file_check(vp_base);
	recovered(ret);
	checked++;
#if CRASHES == 1 && !defined(CRASH1)
	VP_REACH_IF(vp_crashes == 0 && ret == 0 && !committed, "recovered after a crash");
#endif
#if CRASHES > 1
	VP_REACH_IF(vp_crashes == 0, "recovered after an interrupted recovery");
#endif
	VP_REACH("recovered");
}
static void vp_reboot(void) { check(); }
void vp_main(void)
{
	prepare();
	if (writes()) {
		vp_point();
		int ret = futils_safew_fclose_commit_with_crc(wr);
#if !FAULTS
		VP_ASSERT(ret == 0, "success");
#endif
		committed = ret == 0;
	}
	vp_crashes = CRASHES - 1;
	check();
}
#elif defined(VP_CHECK)
/* C25, files: PRE: presence; PL, TL payload lengths; CL, DL checksum file lengths */
static void vp_reboot(void) {}
static uint8_t b_[NF][MAXB];
static const int len_[NF] = { PL, TL, CL, DL };
static int pair(int p, int c)
{
	uint32_t w;
	if (len_[c] < 4)
		return 0;
	memcpy(&w, b_[c], 4);
	return vp_crc(b_[p], len_[p]) == w;
}
void vp_main(void)
{
	for (int f = 0; f < NF; f++) {
		vp_fill(b_[f], len_[f]);
		if (PRE >> f & 1)
			put(f, b_[f], len_[f]);
	}
	/* the documented table */
	int p = -1, c = -1;
#define TRY(x, y) do { if (p < 0 && pair(x, y)) { p = x; c = y; } } while (0)
	switch (PRE) {
	case 1 + 4: case 1 + 2 + 4: TRY(P, C); break;
	case 1 + 8: TRY(P, D); break;
	case 2 + 8: case 1 + 2 + 8: case 2 + 4 + 8: TRY(T, D); break;
	case 1 + 4 + 8: TRY(P, C); TRY(P, D); break;
	case 15: TRY(T, D); TRY(P, C); break;
	default: break;
	}
	int ret = futils_safew_file_check(vp_base);
	VP_ASSERT(vp_open_files == 0 && vp_heap == 0, "everything is closed");
	VP_ASSERT(vp_dir[T] < 0 && vp_dir[D] < 0, "no temporary files left");
	if (p >= 0) {
		VP_ASSERT(ret == 0, "a valid pair is accepted");
		VP_ASSERT(is(P, b_[p], len_[p]), "the valid payload is kept");
		VP_ASSERT(is(C, b_[c], len_[c]), "the valid checksum is kept");
	} else {
		VP_ASSERT(ret == -1, "no valid pair: refused");
		VP_ASSERT(vp_dir[P] < 0 && vp_dir[C] < 0, "no valid pair: everything erased");
	}
#ifdef VALID
	VP_REACH_IF(p >= 0, "valid");
#endif
	VP_REACH_IF(p < 0, "invalid");
}
#elif defined(VP_PATHLEN)
/* C23: paths around the limit; END as above, 3: check */
static void vp_reboot(void) {}
void vp_main(void)
{
	int ok = 0;
	for (int n = PATHLO; n <= PATHHI; n++) {
		for (int i = 0; i < n; i++)
			vp_base[i] = (char)('a' + i % 23);
		vp_base[n] = 0;
		for (int f = 0; f < NF; f++)
			vp_dir[f] = -1;
		vp_nino = vp_nf = vp_muts = 0;
#if END == 3
		put(P, (const uint8_t *)"", 0);
		uint32_t c0 = vp_crc(NULL, 0);
		put(C, (const uint8_t *)&c0, 4);
		int ret = futils_safew_file_check(vp_base);
		VP_ASSERT(ret == 0 || (ret == -1 && vp_muts == 0 && is(P, NULL, 0)), "a path that is too long is refused and nothing is touched");
		VP_ASSERT(ret == 0 || n >= 120, "ordinary paths are accepted");
		ok += ret == 0;
#else
		struct futils_safew_file *f = futils_safew_fopen(vp_base);
		VP_ASSERT(f || (vp_muts == 0 && n >= 120), "only paths that are too long are refused, and nothing is touched");
		if (f) {
			VP_ASSERT(futils_safew_fwrite("x", 1, 1, f) == 1, "write");
			int ret = END == 0 ? futils_safew_fclose_commit(f) : futils_safew_fclose_commit_with_crc(f);
			VP_ASSERT(ret == 0 && is(P, (const uint8_t *)"x", 1), "the file named is written");
			ok++;
		}
#endif
	}
	VP_ASSERT(vp_heap == 0 && vp_open_files == 0, "released");
#if PATHLO < 120
	VP_REACH_IF(ok > 0, "accepted");
#endif
	VP_REACH_IF(1, "end");
}
#elif defined(VP_CRC)
/* C25: the checksum itself, by its definition (as of the files in the field) */
static void vp_reboot(void) {}
void vp_main(void)
{
	uint8_t b[LEN + 1];
	uint32_t c;
	vp_fill(b, LEN);
	put(P, b, LEN);
	struct vp_file *f = vp_fopen(vp_base, "r");
	crc_from_fhd(f, &c);
	VP_ASSERT(c == vp_crc(b, LEN), "checksum of the contents");
	VP_REACH("checksum");
}
#endif
