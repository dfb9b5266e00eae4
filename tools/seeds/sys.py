SEEDS = [
dict(id="dynmbox-wrap-exact", property="C18", file="src/dynmbox.c", src=["src/dynmbox.c", "src/fdutils.c", "src/timetools.c"],
 edits=[("\tif (amount >= following)\n\t\t*idx = amount - following;", "\tif (amount > following)\n\t\t*idx = amount - following;")],
 needs="a message that ends exactly at the end of the internal ring, then another one",
 breaks="the cursor stays one past the ring's end: the next write or read makes no progress",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <futils/dynmbox.h>
static char b[DYNMBOX_MAX_SIZE], o[DYNMBOX_MAX_SIZE];
int main(void)
{
	alarm(10);	/* a call that never returns is a failure too */
	struct dynmbox *d = dynmbox_new(DYNMBOX_MAX_SIZE);
	for (int k = 0; k < 3; k++) {
		memset(b, 'a' + k, sizeof(b));
		if (dynmbox_push(d, b, sizeof(b)) != 0 || dynmbox_peek(d, o) != (ssize_t)sizeof(b) || memcmp(b, o, sizeof(b)) != 0) {
			printf("round %d\n", k);
			return 1;
		}
	}
	dynmbox_destroy(d);
	return 0;
}
'''),
dict(id="dynmbox-reset-empty", property="C19", file="src/dynmbox.c", src=["src/dynmbox.c", "src/fdutils.c", "src/timetools.c"],
 edits=[("\tif (rbuf_space_left(box) < (msg_size + sizeof(hdr)))\n\t\treturn -EAGAIN;", "\t/* keep headers contiguous: never split one at the end of the ring */\n\tif (rbuf_space_left(box) < (msg_size + sizeof(hdr)) ||\n\t    (ALLOCATED_LEN - box->write_idx < sizeof(hdr) &&\n\t     msg_size == box->max_msg_size))\n\t\treturn -EAGAIN;")],
 needs="an empty mailbox whose write cursor is within three bytes of the ring's end, and a maximum size message",
 breaks="an empty mailbox refuses a maximum size message because of what was sent before",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include <futils/dynmbox.h>
static char b[DYNMBOX_MAX_SIZE], o[DYNMBOX_MAX_SIZE];
int main(void)
{
	for (size_t lack = 0; lack < 6; lack++) {
		struct dynmbox *d = dynmbox_new(DYNMBOX_MAX_SIZE);
		if (dynmbox_push(d, b, sizeof(b) - lack) != 0 || dynmbox_peek(d, o) != (ssize_t)(sizeof(b) - lack))
			return 1;
		if (dynmbox_push(d, b, sizeof(b)) != 0) {
			printf("empty box refuses a maximum size message\n");
			return 2;
		}
		dynmbox_destroy(d);
	}
	return 0;
}
'''),
dict(id="dynmbox-notify-skip", property="C20", file="src/dynmbox.c", src=["src/dynmbox.c", "src/fdutils.c", "src/timetools.c"],
 edits=[("\t/* Read one byte from pipe/socket, ignoring failure */\n\tpop_notify(box);\n\n\t/* Read message from ring buffer */\n\tmsglen = do_peek(box, msg);\n\tif (msglen < 0)\n\t\tgoto fail;\n", "\t/* Read message from ring buffer */\n\tmsglen = do_peek(box, msg);\n\tif (msglen < 0)\n\t\tgoto fail;\n\n\t/* Read one byte from pipe/socket, ignoring failure; nothing was\n\t * signalled for an empty message */\n\tif (msglen > 0 || rbuf_is_empty(box))\n\t\tpop_notify(box);\n")],
 needs="an empty (zero length) message queued before another one",
 breaks="the descriptor stays readable after the last message was read, so a poll-driven consumer spins",
 demo=r'''
#include <stdio.h>
#include <poll.h>
#include <futils/dynmbox.h>
int main(void)
{
	char o[16];
	struct dynmbox *d = dynmbox_new(16);
	struct pollfd p = { .fd = dynmbox_get_read_fd(d), .events = POLLIN };
	dynmbox_push(d, "", 0);
	dynmbox_push(d, "abc", 3);
	if (dynmbox_peek(d, o) != 0 || poll(&p, 1, 0) != 1)
		return 1;
	if (dynmbox_peek(d, o) != 3)
		return 2;
	if (poll(&p, 1, 0) != 0) {
		printf("readable but empty\n");
		return 3;
	}
	dynmbox_destroy(d);
	return 0;
}
'''),
dict(id="dynmbox-signal-full", property="C21", file="src/dynmbox.c", src=["src/dynmbox.c", "src/fdutils.c", "src/timetools.c"],
 edits=[("\t/* Signal condition */\n\tpthread_cond_signal(&box->cond);\n", "\t/* Signal condition, a producer only waits when the box is nearly full */\n\tif (rbuf_space_left(box) > box->max_msg_size)\n\t\tpthread_cond_signal(&box->cond);\n")],
 needs="a producer waiting to send a small message while the space freed by the consumer is enough for it but less than a maximum size message",
 breaks="the wake-up is lost: the blocked producer keeps sleeping although its message fits",
 demo=r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <futils/dynmbox.h>
static char b[DYNMBOX_MAX_SIZE], o[DYNMBOX_MAX_SIZE];
static struct dynmbox *d;
static int res = 77;
static void *producer(void *a)
{
	res = dynmbox_push_block(d, b, 100, 3000);
	return a;
}
int main(void)
{
	pthread_t t;
	alarm(60);
	d = dynmbox_new(DYNMBOX_MAX_SIZE);
	if (dynmbox_push(d, b, 200) != 0 || dynmbox_push(d, b, DYNMBOX_MAX_SIZE - 204) != 0)
		return 1;
	pthread_create(&t, NULL, producer, NULL);
	usleep(700000);
	if (dynmbox_peek(d, o) != 200)
		return 2;
	pthread_join(t, NULL);
	if (res != 0) {
		printf("blocked push: %d\n", res);
		return 3;
	}
	return 0;
}
'''),
dict(id="mbox-eintr-partial", property="C16", file="src/mbox.c", src=["src/mbox.c", "src/fdutils.c"], ld="-Wl,--wrap=write",
 edits=[("\tdo {\n\t\tret = write(box->fds[1], msg, box->msg_size);\n\t} while (ret == -1 && errno == EINTR);\n", "\tret = write(box->fds[1], msg, box->msg_size);\n\tif (ret == -1 && errno == EINTR)\n\t\tret = write(box->fds[1], msg, box->msg_size);\n")],
 needs="the write being interrupted by signals twice in a row",
 breaks="a push interrupted twice fails with -EINTR instead of delivering the message",
 demo=r'''
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <sys/types.h>
#include <futils/mbox.h>
ssize_t __real_write(int fd, const void *p, size_t n);
static int interruptions;
ssize_t __wrap_write(int fd, const void *p, size_t n)
{
	if (interruptions > 0) {
		interruptions--;
		errno = EINTR;
		return -1;
	}
	return __real_write(fd, p, n);
}
int main(void)
{
	char m[8] = "message", o[8];
	struct mbox *b = mbox_new(8);
	for (int k = 0; k < 4; k++) {
		interruptions = k;
		if (mbox_push(b, m) != 0 || mbox_peek(b, o) != 0 || memcmp(m, o, 8)) {
			interruptions = 0;
			printf("%d interruptions\n", k);
			return 1;
		}
	}
	mbox_destroy(b);
	return 0;
}
'''),
dict(id="mbox-block-race", property="C17", file="src/mbox.c", src=["src/mbox.c", "src/fdutils.c"], ld="-Wl,--wrap=poll",
 edits=[("\t\tres = poll(&pfd, 1, timeout);\n\t} while (res == -1 && errno == EINTR);\n\n\tif (res == 0)\n\t\treturn -ETIMEDOUT;\n", "\t\tres = poll(&pfd, 1, timeout);\n\t\t/* an interrupted wait without limit is started again */\n\t} while (res == -1 && errno == EINTR && timeout < 0);\n\n\tif (res == 0 || (res == -1 && errno == EINTR))\n\t\treturn -ETIMEDOUT;\n")],
 needs="a signal interrupting a blocking push that has a timeout",
 breaks="-ETIMEDOUT is returned before the timeout expired",
 demo=r'''
#include <stdio.h>
#include <errno.h>
#include <poll.h>
#include <futils/mbox.h>
int __real_poll(struct pollfd *p, nfds_t n, int t);
static int once = 1;
int __wrap_poll(struct pollfd *p, nfds_t n, int t)
{
	if (once) {
		once = 0;
		errno = EINTR;
		return -1;
	}
	return __real_poll(p, n, t);
}
int main(void)
{
	char m[8] = "message", o[8];
	struct mbox *b = mbox_new(8);
	int r = mbox_push_block(b, m, 60000);
	if (r != 0 || mbox_peek(b, o) != 0) {
		printf("%d\n", r);
		return 1;
	}
	return 0;
}
'''),
dict(id="fs-hidden-skipped", property="C28", file="src/fs.c", src=["src/fs.c"],
 edits=[("if (!strcmp(entry->d_name, \".\") || !strcmp(entry->d_name, \"..\"))", "if (!strncmp(entry->d_name, \"..\", 2) || !strcmp(entry->d_name, \".\"))")],
 needs="a regular file whose name begins with two dots",
 breaks="entries whose name begins with two dots do not count",
 demo=r'''
#include <stdio.h>
#include <stdint.h>
#include <sys/stat.h>
#include <futils/fs.h>
int main(void)
{
	mkdir("d", 0700);
	FILE *f = fopen("d/..data", "w");
	fputs("12345", f);
	fclose(f);
	f = fopen("d/.x", "w");
	fputs("1", f);
	fclose(f);
	return futils_fs_dir_size("d", 0) == 6 ? 0 : 1;
}
'''),
dict(id="inotify-noname-last", property="C29", file="src/inotify.c", src=["src/inotify.c", "src/fdutils.c"],
 edits=[("\t\twhile (count >= (int)sizeof(*ev)) {", "\t\twhile (count > (int)sizeof(*ev)) {")],
 needs="the last event of a batch carrying no name (a watch on a file)",
 breaks="an event without a name at the end of the data is not dispatched",
 demo=r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <futils/inotify.h>
static int n;
static void cb(struct inotify_event *e, void *d) { (void)e; (void)d; n++; }
int main(void)
{
	/* the records are given through a pipe: no inotify instance is needed */
	struct inotify_event e[2];
	int p[2];
	memset(e, 0, sizeof(e));
	e[0].mask = 1;
	e[1].mask = 2;
	if (pipe(p) || write(p[1], e, sizeof(e)) != sizeof(e))
		return 99;
	inotify_process_fd(p[0], (inotify_cb_t)&cb, NULL);
	return n == 2 ? 0 : 1;
}
'''),
dict(id="sync-root-folder", property="C30", file="src/synctools.c", src=["src/synctools.c"], ld="-Wl,--wrap=fsync",
 edits=[("\tret = fsync(fd);\n\tif (ret == -1) {", "\tret = fsync(fd);\n\tif (ret == -1 && (oflags & O_DIRECTORY) && errno == EINVAL) {\n\t\t/* not supported for folders by some file systems */\n\t\tret = 0;\n\t} else if (ret == -1) {")],
 needs="the folder's fsync failing with EINVAL",
 breaks="success is reported although the folder could not be synchronised",
 demo=r'''
#include <stdio.h>
#include <errno.h>
#include <sys/stat.h>
#include <futils/synctools.h>
int __wrap_fsync(int fd)
{
	struct stat s;
	if (fstat(fd, &s) == 0 && S_ISDIR(s.st_mode)) {
		errno = EINVAL;
		return -1;
	}
	return 0;
}
int main(void)
{
	fclose(fopen("f", "w"));
	return sync_folder(".") == -EINVAL && sync_file("f") == 0 && sync_file_and_folder("./f") == -EINVAL ? 0 : 1;
}
'''),
dict(id="fd-flags-lost", property="C31", file="src/fdutils.c", src=["src/fdutils.c"],
 edits=[("\tret = fcntl(fd, F_SETFL, old | flags);", "\t/* already set: nothing to do */\n\tif (old & flags)\n\t\treturn 0;\n\n\tret = fcntl(fd, F_SETFL, old | flags);")],
 needs="adding several flags of which one is already set",
 breaks="success is reported although the other requested flags were not set",
 demo=r'''
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
#include <futils/fdutils.h>
int main(void)
{
	int p[2];
	if (pipe(p))
		return 99;
	if (fd_add_flags(p[1], O_APPEND) != 0 || fd_add_flags(p[1], O_APPEND | O_NONBLOCK) != 0)
		return 1;
	int f = fcntl(p[1], F_GETFL);
	return (f & O_APPEND) && (f & O_NONBLOCK) ? 0 : 2;
}
'''),
dict(id="bound-inverted", property="C42", file="include/futils/futils.h",
 edits=[("_a < _m ? _m : _a > _M ? _M : _a; })", "_a < _m ? _m : (a) > _M ? _M : _a; })")],
 needs="a clamp whose first argument has side effects",
 breaks="the first argument is evaluated twice",
 demo=r'''
#include <stdio.h>
#include <futils/futils.h>
int main(void)
{
	int i = 3;
	int r = FUTILS_BOUND(i++, 0, 10);
	return r == 3 && i == 4 ? 0 : 1;
}
'''),
]
