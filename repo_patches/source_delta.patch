From 0756e9f0616044c5509c51942874c9e13cf67509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 01/16] fix: varint: never read past the source and reject
 exactly the values not fitting

The continuation and overflow checks looked at the byte following the last
decoded one, which may be outside the source buffer, and used a mask that
neither matched the value size nor the right byte: truncated data was read out
of bounds, a maximum length value followed by other data could be refused and
values not fitting in the type were silently truncated.
---
 src/varint.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/varint.c b/src/varint.c
index fc23071..af4b345 100644
--- a/src/varint.c
+++ b/src/varint.c
@@ -51,9 +51,11 @@
 static int futils_varint_read(const uint8_t *src, size_t src_len,
 		uint64_t *val, size_t *val_len, size_t val_len_max)
 {
+	/* A value of n bits is encoded in at most (n + 6) / 7 bytes */
+	const size_t val_bits = (val_len_max * 7) & ~(size_t)0x7;
 	uint32_t shift = 0;
 	size_t offset = 0;
-	int more = 0;
+	uint8_t byte = 0;
 
 	if (src == NULL || src_len == 0 || val == NULL || val_len == NULL)
 		return -EINVAL;
@@ -61,16 +63,20 @@ static int futils_varint_read(const uint8_t *src, size_t src_len,
 	*val = 0;
 	/* Decode value */
 	do {
-		*val |= (((uint64_t)(src[offset] & 0x7f)) << shift);
-		more = src[offset] & 0x80;
-
+		/* Truncated data or too many bytes */
+		if (offset >= src_len || offset >= val_len_max)
+			return -EPROTO;
+		byte = src[offset];
 		offset++;
-		shift += 7;
-		if ((offset > src_len) ||
-		    (offset > val_len_max) ||
-		    (offset == val_len_max && src[offset] & 0x0f))
+
+		/* Bits of the last byte not fitting in the value */
+		if (offset == val_len_max &&
+		    ((byte & 0x7f) >> (val_bits - shift)) != 0)
 			return -EPROTO;
-	} while (more);
+
+		*val |= (((uint64_t)(byte & 0x7f)) << shift);
+		shift += 7;
+	} while (byte & 0x80);
 
 	*val_len = offset;
 	return 0;
-- 
2.43.0


From 84e7e562a4a7e262358b1c9e2482f41bec348e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 02/16] fix: timetools: normalise the difference of timespecs
 with equal nanoseconds

When both nanosecond fields were equal the result was one second short with a
nanosecond field of 1000000000, which is not a valid timespec.
---
 src/timetools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index c902b69..3b16731 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -244,7 +244,7 @@ int time_timespec_diff(const struct timespec *start,
 		return -EINVAL;
 
 	/* diff = end - start */
-	if (end->tv_nsec > start->tv_nsec) {
+	if (end->tv_nsec >= start->tv_nsec) {
 		diff->tv_sec = end->tv_sec - start->tv_sec;
 		diff->tv_nsec = end->tv_nsec - start->tv_nsec;
 	} else {
-- 
2.43.0


From 9b3b4e361ef01958b6a4c6f070c61e95df509167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 03/16] fix: timetools: report the (zero) difference of equal
 timespecs

time_timespec_diff_in_range left its output uninitialised in that case.
---
 src/timetools.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 3b16731..757e73b 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -307,8 +307,11 @@ int time_timespec_diff_in_range(const struct timespec *t1,
 	memset(&diff, 0, sizeof(diff));
 
 	ret = time_timespec_cmp(t1, t2);
-	if (ret == 0)
+	if (ret == 0) {
+		if (out_diff_us)
+			*out_diff_us = 0;
 		return 1;
+	}
 
 	if (ret == 1) {
 		ret = time_timespec_diff(t2, t1, &diff);
-- 
2.43.0


From faaa5cb90a300645d5c23b7bea80de558120120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 04/16] fix: timetools: do not overflow when adding large
 microsecond deltas

delta * 1000 overflows for deltas beyond about 292 years, although the
resulting timespec is representable.
---
 src/timetools.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/timetools.c b/src/timetools.c
index 757e73b..a19124e 100644
--- a/src/timetools.c
+++ b/src/timetools.c
@@ -457,7 +457,15 @@ int time_timespec_add_ns(const struct timespec *ts, int64_t delta,
 int time_timespec_add_us(const struct timespec *ts, int64_t delta,
 			 struct timespec *res)
 {
-	return time_timespec_add_ns(ts, delta * 1000, res);
+	int ret;
+
+	/* seconds are added apart as delta may not fit once in nanoseconds */
+	ret = time_timespec_add_ns(ts, (delta % 1000000) * 1000, res);
+	if (ret < 0)
+		return ret;
+
+	res->tv_sec += delta / 1000000;
+	return 0;
 }
 
 int time_timeval_to_timespec(const struct timeval *tv, struct timespec *ts)
-- 
2.43.0


From de0ccc59cc250adde4c0d814acdf250f917ef38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 05/16] fix: synctools: report the file sync failure of
 sync_file_and_folder

A failure to synchronise the file was overwritten by the result of the
folder synchronisation, and a NULL path was dereferenced.
---
 src/synctools.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/synctools.c b/src/synctools.c
index 64b0aca..e9340ff 100644
--- a/src/synctools.c
+++ b/src/synctools.c
@@ -88,9 +88,13 @@ int sync_folder(const char *folderpath)
 int sync_file_and_folder(const char *filepath)
 {
 	int ret;
+	int err;
 	char *slash;
 	char *folderpath;
 
+	if (!filepath)
+		return -EINVAL;
+
 	/* sync file */
 	ret = sync_file(filepath);
 	if (ret < 0)
@@ -113,10 +117,14 @@ int sync_file_and_folder(const char *filepath)
 	slash[1] = '\0';
 
 	/* sync parent folder */
-	ret = sync_folder(folderpath);
-	if (ret < 0)
-		ULOGW("sync_folder(%s) failed : %d(%s)", folderpath, ret,
-				strerror(-ret));
+	err = sync_folder(folderpath);
+	if (err < 0) {
+		ULOGW("sync_folder(%s) failed : %d(%s)", folderpath, err,
+				strerror(-err));
+		/* do not hide a failure to sync the file */
+		if (ret == 0)
+			ret = err;
+	}
 
 out:
 	free(folderpath);
-- 
2.43.0


From c1fdecdaa7a5b61eebaea4a67eaf93f6ad073a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 06/16] fix: fs: report readdir errors and truncated paths in
 futils_fs_dir_size

A readdir error ended the walk silently with a partial size, and a path
longer than FILENAME_MAX was truncated, so another file was examined.
---
 src/fs.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/fs.c b/src/fs.c
index d1a11ca..21bf3fe 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -51,6 +51,7 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 	struct dirent *entry = NULL;
 	char *filepath = NULL;
 	struct stat stats;
+	int len;
 
 	/* open dir */
 	dir = opendir(path);
@@ -67,13 +68,30 @@ int64_t futils_fs_dir_size(const char *path, bool recursive)
 	}
 
 	/* iterate from dir */
-	while ((entry = readdir(dir)) != NULL) {
+	while (1) {
+		errno = 0;
+		entry = readdir(dir);
+		if (entry == NULL) {
+			/* either the end of the directory or an error */
+			ret = -errno;
+			if (ret < 0)
+				ULOG_ERRNO("can't readdir '%s'", -ret, path);
+			goto clean;
+		}
+
 		/* skip "." and ".." */
 		if (!strcmp(entry->d_name, ".") || !strcmp(entry->d_name, ".."))
 			continue;
 
 		/* get entry status */
-		snprintf(filepath, FILENAME_MAX, "%s/%s", path, entry->d_name);
+		len = snprintf(filepath, FILENAME_MAX, "%s/%s", path,
+			       entry->d_name);
+		if (len < 0 || len >= FILENAME_MAX) {
+			ret = -ENAMETOOLONG;
+			ULOG_ERRNO("can't lstat '%s/%s'", -ret, path,
+				   entry->d_name);
+			goto clean;
+		}
 		if (lstat(filepath, &stats) < 0) {
 			ret = -errno;
 			ULOG_ERRNO("can't lstat '%s'", errno, filepath);
-- 
2.43.0


From d1d8ccbcd829bcef2d557b913c77004a650635c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 07/16] fix: dynmbox: notify under the lock so that the pipe
 matches the queue

---
 src/dynmbox.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index dc2b308..3119f5e 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -510,11 +510,12 @@ int dynmbox_push(struct dynmbox *box,
 	if (res)
 		goto fail;
 
-	pthread_mutex_unlock(&box->lock);
-
-	/* Write one byte into pipe/socket to signal mbox is readable */
+	/* Write one byte into pipe/socket to signal mbox is readable, before
+	 * the message can be read: there is one byte for each queued message */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
@@ -578,11 +579,11 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 	if (res)
 		goto fail; /* Return error (NDEBUG case) */
 
-	pthread_mutex_unlock(&box->lock);
-
 	/* Signal consumers */
 	push_notify(box);
 
+	pthread_mutex_unlock(&box->lock);
+
 	return 0;
 fail:
 	pthread_mutex_unlock(&box->lock);
-- 
2.43.0


From 80596ad5f8ca92f40c270ce31f356995b83f89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 08/16] fix: dynmbox: do not truncate long timeouts of blocking
 pushes

---
 src/dynmbox.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 3119f5e..10f894d 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -558,7 +558,8 @@ int dynmbox_push_block(struct dynmbox *box, const void *msg,
 			return res;
 		}
 		time_timeval_to_timespec(&tv_now, &ts_now);
-		time_timespec_add_us(&ts_now, timeout_ms * 1000, &ts_abs);
+		time_timespec_add_us(&ts_now, (int64_t)timeout_ms * 1000,
+				&ts_abs);
 	}
 
 	pthread_mutex_lock(&box->lock);
-- 
2.43.0


From d64b82ad50cb90666548df8fafc0a9fe9852bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 09/16] fix: dynmbox: set close-on-exec on both ends of the
 pipe

---
 src/dynmbox.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dynmbox.c b/src/dynmbox.c
index 10f894d..b97b72d 100644
--- a/src/dynmbox.c
+++ b/src/dynmbox.c
@@ -256,10 +256,11 @@ static int init_notify_channel(struct dynmbox *box)
 	if (ret < 0)
 		return -errno;
 
-	/* set pipes CLOEXEC flag, and NONBLOCK for read end */
-	for (i = 0; i < 2; i++)
+	/* set pipes CLOEXEC and NONBLOCK flags */
+	for (i = 0; i < 2; i++) {
 		fd_add_flags(box->fds[i], O_NONBLOCK);
-	fd_set_close_on_exec(box->fds[0]);
+		fd_set_close_on_exec(box->fds[i]);
+	}
 	return 0;
 }
 
-- 
2.43.0


From 9c0e1e0074494f98b449a7163112bebc21fe9353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:29 +0000
Subject: [PATCH 10/16] fix: random: use fresh bits for each character ending a
 base64 text

The characters of the last, incomplete group shared 3 random bits with
their neighbour as the value was shifted by 3 instead of 6 bits.
---
 src/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index a552044..8837f39 100644
--- a/src/random.c
+++ b/src/random.c
@@ -1353,7 +1353,7 @@ int futils_random_base64(char *buffer, size_t len, size_t count)
 
 		for (i = 0; i < (c * 8) / 6; i++) {
 			b[i] = alphabet[v & 63];
-			v >>= 3;
+			v >>= 6;
 		}
 
 		/* last character has only a limited number of bits */
-- 
2.43.0


From baf9a091e62319a826188317fad684e3011abebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:39 +0000
Subject: [PATCH 11/16] fix: safew: do not record the checksum of a file that
 could not be read

---
 src/safew.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index a293367..c01b0b4 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -76,9 +76,13 @@ static int crc_from_file(const char *pathname, uint32_t *crc)
 	crc_from_fhd(fhd, crc);
 	ULOGD("calculated crc:0x%08" PRIX32 " of file %s", *crc, pathname);
 
-	ret = fclose(fhd);
-	if (ret < 0)
-		return -1;
+	if (ferror(fhd)) {
+		ULOGE("can't read file %s", pathname);
+		ret = -1;
+	}
+
+	if (fclose(fhd) < 0)
+		ret = -1;
 
 	return ret;
 }
-- 
2.43.0


From 40ebc3efe950e7b924f5db993a0e5bf1f462be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:39 +0000
Subject: [PATCH 12/16] fix: safew: a failed commit must not remove the valid
 checksum

---
 src/safew.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index c01b0b4..cce7201 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -234,6 +234,8 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 			       bool with_crc)
 {
 	int ret = 0;
+	bool replaced = false;
+	bool crc_names = false;
 	struct futils_safew_crc crc_fp = { {}, {} };
 
 	if (safew_fp == NULL)
@@ -266,9 +268,11 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 	if (ret == 0 && with_crc) {
 		/* create crc tmp */
 		ret = safew_create_crc_filenames(safew_fp->path, &crc_fp);
-		if (ret == 0)
+		if (ret == 0) {
+			crc_names = true;
 			ret = safew_tmp_crc_create(safew_fp->tmp_path,
 						   crc_fp.tmp_path);
+		}
 	}
 
 	/* Ensure the update is atomic, in order to prevent partial
@@ -278,18 +282,20 @@ static int safew_fclose_commit(struct futils_safew_file *safew_fp,
 		/* move tmp payload to payload */
 		ret = rename(safew_fp->tmp_path, safew_fp->path);
 
+	replaced = ret == 0;
+
 	if (ret == 0 && with_crc)
-		/* move tmp payload to payload */
+		/* move tmp crc to crc */
 		ret = rename(crc_fp.tmp_path, crc_fp.path);
 
 	if (ret < 0) {
 		ULOGE("safe write fclose commit %s: error", safew_fp->path);
 		unlink(safew_fp->tmp_path);
 
-		if (with_crc) {
-			unlink(crc_fp.path);
+		/* crc still matches the previous payload, keep it; once the
+		 * payload is replaced, tmp crc is its only valid crc */
+		if (crc_names && !replaced)
 			unlink(crc_fp.tmp_path);
-		}
 	}
 
 	free(safew_fp);
-- 
2.43.0


From bd1f82b2b1c691887c05cd10dd566f738917e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:39 +0000
Subject: [PATCH 13/16] fix: safew: recover the payload before its checksum

---
 src/safew.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index cce7201..08ea713 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -523,11 +523,12 @@ int futils_safew_file_check(const char *pathname)
 			break;
 		}
 
-		/* rename tmp crc and tmp payload */
-		ret = rename(crc_fp.tmp_path, crc_fp.path);
+		/* rename tmp payload then tmp crc, as a commit does: the
+		 * check can be interrupted in between */
+		ret = rename(fp.tmp_path, pathname);
 		if (ret < 0)
 			break;
-		ret = rename(fp.tmp_path, pathname);
+		ret = rename(crc_fp.tmp_path, crc_fp.path);
 		break;
 
 	case PAYLOAD + TMP_PAYLOAD + CRC + TMP_CRC:
@@ -541,11 +542,11 @@ int futils_safew_file_check(const char *pathname)
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
 		if (tmp_crc == tmp_payload_crc) {
-			/* rename tmp crc and tmp payload */
-			ret = rename(crc_fp.tmp_path, crc_fp.path);
+			/* rename tmp payload then tmp crc */
+			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
 				break;
-			ret = rename(fp.tmp_path, pathname);
+			ret = rename(crc_fp.tmp_path, crc_fp.path);
 			break;
 		}
 
-- 
2.43.0


From 432844c654ba70e41e5eed5e3b9cd366f56885ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:39 +0000
Subject: [PATCH 14/16] fix: safew: fall back to the other pair when a checksum
 file is short

---
 src/safew.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/safew.c b/src/safew.c
index 08ea713..6aab6a6 100644
--- a/src/safew.c
+++ b/src/safew.c
@@ -479,13 +479,11 @@ int futils_safew_file_check(const char *pathname)
 		/* this could be stage 7 with tmp_payload_v2 disappeared:
 		 * in that case payload could match crc */
 		ret = read_crc(crc_fhd, &crc);
-		if (ret < 0)
-			break;
 
 		crc_from_fhd(payload_fhd, &payload_crc);
 
 		/* if pair matches let's stop here */
-		if (crc == payload_crc)
+		if (ret == 0 && crc == payload_crc)
 			break;
 
 		/* this could be stage 8, in that case payload should match
@@ -537,11 +535,9 @@ int futils_safew_file_check(const char *pathname)
 		 * Check tmp pair first, if it fails test the other one
 		 */
 		ret = read_crc(tmp_crc_fhd, &tmp_crc);
-		if (ret < 0)
-			break;
 		crc_from_fhd(tmp_payload_fhd, &tmp_payload_crc);
 
-		if (tmp_crc == tmp_payload_crc) {
+		if (ret == 0 && tmp_crc == tmp_payload_crc) {
 			/* rename tmp payload then tmp crc */
 			ret = rename(fp.tmp_path, pathname);
 			if (ret < 0)
-- 
2.43.0


From 5f70e4b8d778d9fa470352af11e1379ab1cddfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 15/16] fix: systimetools: refuse signs and spaces in date and
 time fields

---
 src/systimetools.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/systimetools.c b/src/systimetools.c
index 7ed23d2..c4c9067 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -86,6 +86,9 @@ static const char *mon_str[12] = {
 static int parse_num(const char *s, int *num)
 {
 	char *end = NULL;
+	/* strtol accepts leading spaces and signs */
+	if (!isdigit((unsigned char)s[0]))
+		return -EINVAL;
 	errno = 0;
 	*num = strtol(s, &end, 10);
 	return (end == NULL || *end != '\0') ? -EINVAL : -errno;
-- 
2.43.0


From 75d8b393b5a6b6bf7468280891e7133efa8c577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:42 +0000
Subject: [PATCH 16/16] fix: systimetools: refuse months out of range

---
 src/systimetools.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/systimetools.c b/src/systimetools.c
index c4c9067..fd7654a 100644
--- a/src/systimetools.c
+++ b/src/systimetools.c
@@ -165,6 +165,8 @@ static int parse_date(const char *s, size_t n, int *year, int *mon, int *mday)
 	ret = parse_num(mon_s, mon);
 	if (ret < 0)
 		return ret;
+	if (*mon < 1 || *mon > 12)
+		return -EINVAL;
 	ret = parse_num(mday_s, mday);
 	if (ret < 0)
 		return ret;
-- 
2.43.0

