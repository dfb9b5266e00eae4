_H = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
static char dir[] = "/tmp/swdemoXXXXXX";
static char path[200], name[300];
static const char *sub(const char *s) { snprintf(name, sizeof(name), "%s%s", path, s); return name; }
static void setup(void) { if (!mkdtemp(dir)) exit(3); snprintf(path, sizeof(path), "%s/f", dir); }
static void cleanup(void)
{
	unlink(sub("")); unlink(sub(".tmp")); unlink(sub(".crc")); unlink(sub(".crc.tmp")); rmdir(dir);
}
static int content(const char *what)
{
	char b[100]; FILE *f = fopen(path, "r"); size_t n;
	if (!f) return what == NULL;
	n = fread(b, 1, sizeof(b), f); fclose(f);
	return what && n == strlen(what) && !memcmp(b, what, n);
}
'''
_INC = '#include "src/safew.c"\n#undef fsync\n#undef rename\n#undef fwrite\n#undef fopen\n#undef fclose\n#undef unlink\n'
_SAVE = r'''
static int save(const char *s, int crc)
{
	struct futils_safew_file *f = futils_safew_fopen(path);
	if (!f) return -1;
	futils_safew_fprintf(f, "%s", s);
	return crc ? futils_safew_fclose_commit_with_crc(f) : futils_safew_fclose_commit(f);
}
'''
SEEDS = [
dict(id="safew-sync-before-flush", property="C22", file="src/safew.c", src=[], ld="-I. -Isrc",
 edits=[("		if (fflush(safew_fp->fp))\n			ret = -1;\n		/* threadx close is doing a sync\n", "		/* threadx close is doing a sync\n"),
        ("		if (fsync(fileno(safew_fp->fp)))\n			ret = -1;\n# endif\n#else\n# warning \"fsync is not supported\"\n#endif\n", "		if (fsync(fileno(safew_fp->fp)))\n			ret = -1;\n# endif\n#else\n# warning \"fsync is not supported\"\n#endif\n		if (fflush(safew_fp->fp))\n			ret = -1;\n")],
 needs="a power loss after a successful commit, before the kernel writes the data back",
 breaks="the storage is synchronised before the buffered bytes are handed to the system",
 demo=_H + r'''
static long synced = -1;
static int my_fsync(int fd) { struct stat st; fstat(fd, &st); synced = st.st_size; return 0; }
#define fsync my_fsync
''' + _INC + _SAVE + r'''
int main(void)
{
	setup();
	int r = save("hello", 0);
	int ok = r == 0 && content("hello") && synced == 5;
	cleanup();
	return ok ? 0 : 1;
}
'''),
dict(id="safew-remove-first", property="C22", file="src/safew.c", src=[], ld="-I. -Isrc",
 edits=[("#include <inttypes.h>\n\n#include \"futils/safew.h\"", "#include <inttypes.h>\n#include <errno.h>\n\n#include \"futils/safew.h\""),
        ("		ret = rename(safew_fp->tmp_path, safew_fp->path);\n", "		/* some file systems refuse to replace a file */\n		ret = (unlink(safew_fp->path) && errno != ENOENT) ? -1 :\n			rename(safew_fp->tmp_path, safew_fp->path);\n")],
 needs="a crash (or a failure of rename) between the removal of the old file and the renaming",
 breaks="the old file is removed before the new one takes its place",
 demo=_H + r'''
static int die;
static int my_rename(const char *a, const char *b) { if (die) _exit(0); return rename(a, b); }
#define rename my_rename
''' + _INC + _SAVE + r'''
int main(void)
{
	setup();
	if (save("old", 0) || !content("old")) return 3;
	pid_t p = fork();
	if (!p) { die = 1; save("new", 0); _exit(1); }
	waitpid(p, NULL, 0);
	int ok = content("old") || content("new");
	cleanup();
	return ok ? 0 : 1;
}
'''),
dict(id="safew-failure-forgotten", property="C23", file="src/safew.c", src=[], ld="-I. -Isrc",
 edits=[("	ret = fwrite(ptr, size, nmemb, safew_fp->fp);\n	if (ret != nmemb)\n		safew_fp->failure = 1;\n", "	ret = fwrite(ptr, size, nmemb, safew_fp->fp);\n	safew_fp->failure = ret != nmemb;\n")],
 needs="a failing write followed by a successful one",
 breaks="a later successful write hides an earlier failed one: a truncated file is committed",
 demo=_H + r'''
static int failing;
static size_t my_fwrite(const void *p, size_t s, size_t n, FILE *f) { return fwrite(p, s, failing ? 0 : n, f); }
#define fwrite my_fwrite
''' + _INC + r'''
int main(void)
{
	setup();
	struct futils_safew_file *f = futils_safew_fopen(path);
	failing = 1;
	futils_safew_fwrite("abc", 1, 3, f);
	failing = 0;
	futils_safew_fwrite("def", 1, 3, f);
	int r = futils_safew_fclose_commit(f);
	int ok = r == -1 && content(NULL);
	cleanup();
	return ok ? 0 : 1;
}
'''),
dict(id="safew-handle-left", property="C23", file="src/safew.c", src=[], ld="-I. -Isrc",
 edits=[("	if (fclose(safew_fp->fp))\n		ret = -1;\n\n	if (ret == 0 && with_crc) {", "	if (ret == 0 && fclose(safew_fp->fp))\n		ret = -1;\n\n	if (ret == 0 && with_crc) {")],
 needs="a commit after a failed write, flush or synchronisation",
 breaks="the temporary file stays open when something failed before",
 demo=_H + r'''
static int my_fsync(int fd) { (void)fd; errno = EIO; return -1; }
#define fsync my_fsync
''' + _INC + _SAVE + r'''
int main(void)
{
	setup();
	int a = dup(0); close(a);
	save("x", 0);
	int b = dup(0); close(b);
	cleanup();
	return a == b ? 0 : 1;
}
'''),
dict(id="safew-crc-nosync", property="C24", file="src/safew.c", src=[], ld="-I. -Isrc",
 edits=[("	if (fsync(fileno(fp)))\n		ret = -1;\n# endif\n#endif\n\n	if (fclose(fp) < 0)", "	/* the payload is synchronised already: only flush with it */\n	if (ret < 0 && fsync(fileno(fp)))\n		ret = -1;\n# endif\n#endif\n\n	if (fclose(fp) < 0)")],
 needs="a power loss after the renames, before the checksum file is written back",
 breaks="the checksum is not on the storage device when it replaces the old one: the check then erases everything",
 demo=_H + r'''
static int syncs;
static long sizes[10];
static int my_fsync(int fd) { struct stat st; fstat(fd, &st); sizes[syncs++] = st.st_size; return 0; }
#define fsync my_fsync
''' + _INC + _SAVE + r'''
int main(void)
{
	setup();
	int r = save("hello world", 1), crc = 0;
	for (int i = 0; i < syncs; i++)
		crc |= sizes[i] == 4;
	cleanup();
	return r == 0 && crc ? 0 : 1;
}
'''),
dict(id="safew-stage8", property="C24", file="src/safew.c", src=[], ld="-I. -Isrc",
 edits=[("		ret = read_crc(tmp_crc_fhd, &crc);\n		if (ret < 0)\n			break;\n\n		if (crc == payload_crc) {", "		ret = check_pair(payload_fhd, tmp_crc_fhd);\n		if (ret < 0)\n			break;\n\n		if (ret == 0) {")],
 needs="a crash between the two renames of a checksummed commit",
 breaks="the payload was already read to its end: its second checksum is that of nothing, so the new version is erased",
 demo=_H + r'''
static int renames;
static int my_rename(const char *a, const char *b) { if (renames && !--renames) _exit(0); return rename(a, b); }
#define rename my_rename
''' + _INC + _SAVE + r'''
int main(void)
{
	setup();
	if (save("old", 1)) return 3;
	pid_t p = fork();
	if (!p) { renames = 2; save("new", 1); _exit(1); }
	waitpid(p, NULL, 0);
	int r = futils_safew_file_check(path);
	int ok = r == 0 && content("new");
	cleanup();
	return ok ? 0 : 1;
}
'''),
dict(id="safew-crc-char", property="C25", file="src/safew.c", src=[], ld="-I. -Isrc",
 edits=[("	int val;\n\n	*crc = 0;", "	signed char val;\n\n	*crc = 0;")],
 needs="a payload with a byte 0xff (or, for the value itself, above 0x7f)",
 breaks="everything after a 0xff byte is left out of the checksum: corruption there is accepted",
 demo=_H + _INC + r'''
static void put(const char *s, size_t n) { FILE *f = fopen(path, "w"); fwrite(s, 1, n, f); fclose(f); }
int main(void)
{
	setup();
	struct futils_safew_file *f = futils_safew_fopen(path);
	futils_safew_fwrite("a\xff" "bcd", 1, 5, f);
	if (futils_safew_fclose_commit_with_crc(f)) return 3;
	put("a\xff" "bXd", 5);
	int ok = futils_safew_file_check(path) == -1;
	cleanup();
	return ok ? 0 : 1;
}
'''),
dict(id="safew-check-stage", property="C25", file="src/safew.c", src=[], ld="-I. -Isrc",
 edits=[("	case PAYLOAD + TMP_CRC:\n		/* this looks like a stage 3 */\n", "	case PAYLOAD + TMP_CRC:\n	case PAYLOAD + TMP_CRC + TMP_PAYLOAD:\n		/* this looks like a stage 3 */\n"),
        ("	case PAYLOAD + TMP_CRC + TMP_PAYLOAD:\n		/* this could be stage 7 with crc_v1 disappeared:\n		 * in that case tmp_payload should match tmp_crc */\n", "")],
 needs="payload, payload.tmp and crc.tmp present without crc",
 breaks="crc.tmp is compared with the payload instead of payload.tmp: a complete new version is erased",
 demo=_H + _INC + _SAVE + r'''
int main(void)
{
	setup();
	char t[300];
	if (save("new", 1)) return 3;
	snprintf(t, sizeof(t), "%s", sub(".tmp"));
	rename(path, t);
	snprintf(t, sizeof(t), "%s", sub(".crc.tmp"));
	rename(sub(".crc"), t);
	FILE *f = fopen(path, "w"); fputs("old", f); fclose(f);
	int ok = futils_safew_file_check(path) == 0 && content("new");
	cleanup();
	return ok ? 0 : 1;
}
'''),
]
