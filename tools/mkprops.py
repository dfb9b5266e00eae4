#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Varint encode/decode round-trips every value, canonically and in bounds",
  "For every value of every supported type (u16, i16, u32, i32, u64, i64), writing it as a variable-length integer into a large enough buffer succeeds, touches only the bytes it reports, produces the canonical little-endian base-128 (zigzag for signed types) encoding of minimal length, and reading those bytes back returns the same value and length. A destination shorter than the type's maximum encoded length is refused with -EINVAL and left untouched.",
  ["inputs"], "all values of the six types, all destination lengths 0..12",
  "The tests try a handful of constants; the boundary values of every 7-bit group and sign are 2^64 inputs.",
  ["src/varint.c", "include/futils/varint.h"],
  [("futils_varint_write", "src/varint.c"), ("zigzag encode/decode", "src/varint.c")],
  ["return value", "*val_len", "bytes of dst", "decoded value"])
p("C02", "Varint decoding of arbitrary bytes is memory-safe and exact",
  "Decoding never reads outside the src_len bytes it is given and terminates on every byte sequence. If the bytes start with a complete encoding that fits the type, the result is exactly that value and the number of bytes it occupies, whatever follows it; if the encoding is truncated, longer than the type's maximum length, or denotes a value that does not fit the type, the call fails with -EPROTO.",
  ["inputs"], "all byte strings of length 0..12 for each of the six types",
  "Tests decode well-formed encodings of a few values; untrusted truncated, overlong and overflowing inputs followed by arbitrary bytes are not sampled.",
  ["src/varint.c", "include/futils/varint.h"],
  [("futils_varint_read", "src/varint.c")],
  ["return value", "*val", "*val_len", "memory accesses to src"])
p("C03", "Linked-list mutations keep the exact sequence and ring integrity",
  "Any sequence of insertions, deletions, replacements, moves, pushes and pops on a list yields exactly the element order the operations describe, with forward and backward links always mutually consistent. Deleted nodes are marked unreferenced (or re-initialised) and elements not named by an operation are never reordered, duplicated or lost.",
  ["inputs", "histories"], "all operation sequences up to the bound applied from lists of any length and any position within the bound",
  "The tests run one fixed scenario per helper; positions (head, tail, neighbours, the element itself) and operation combinations are unbounded.",
  ["include/futils/list.h"],
  [("list_add/list_del/list_replace/list_move_*", "include/futils/list.h"), ("list_push/list_pop", "include/futils/list.h")],
  ["order seen walking next", "order seen walking prev", "list_node_is_unref"])
p("C04", "List queries and walks visit exactly the elements, safely under removal",
  "On any list, length, emptiness, first, last, next, prev and is_last answer according to the element sequence; every walk macro (forward, backward, entry, and safe variants) visits each element exactly once in the right order and terminates. The safe variants still do so when the loop body deletes and releases the current element.",
  ["inputs", "histories"], "all list lengths up to the bound and every subset of elements removed during the walk",
  "Tests walk one fixed list; removal patterns during a safe walk are exponential in the length.",
  ["include/futils/list.h"],
  [("list_walk_* macros", "include/futils/list.h"), ("list_length/list_next/list_prev", "include/futils/list.h")],
  ["visited sequence", "query results"])
p("C05", "Hash table behaves as a finite map with insertion-ordered entries",
  "After any history of operations on a table of any size, lookup returns exactly the data last inserted and not since removed for that key (-ENOENT otherwise), inserting an existing key fails with -EEXIST without changing it, removing a missing key fails with -ENOENT, const entries are only visible through the const lookup (-EPERM otherwise), and the entries list enumerates exactly the live entries in insertion order. Distinct keys never interfere, even when they collide.",
  ["histories", "inputs"], "all operation histories up to the bound with arbitrary 32-bit keys (free to collide) and several table sizes",
  "The test inserts a fixed set of keys; collision chains and interleavings of insert/remove on one chain are not exercised systematically.",
  ["src/hash.c", "include/futils/hash.h"],
  [("futils_hash_insert_entry", "src/hash.c"), ("futils_hash_lookup_entry", "src/hash.c"), ("futils_hash_remove", "src/hash.c")],
  ["return values", "looked-up data", "entries list order"])
p("C06", "Hash table releases every entry once and survives allocation failure",
  "Each non-const datum is handed to the user's free callback exactly once, when its entry is removed, on remove-all or on destroy, and never while still in the table; no table memory is leaked, used after free or freed twice. When memory allocation fails, the operation reports -ENOMEM and the table is exactly as before.",
  ["histories", "fault_sequences"], "all operation histories up to the bound combined with every allocation-failure pattern",
  "Tests never fail an allocation and do not count callbacks over arbitrary histories.",
  ["src/hash.c", "include/futils/hash.h"],
  [("futils_hash_remove/remove_all/destroy", "src/hash.c"), ("futils_hash_insert", "src/hash.c")],
  ["calls of the free callback", "heap state", "return values"])
p("C07", "Timespec arithmetic is exact and results are normalised",
  "For all valid timestamps, difference, addition of a signed nanosecond or microsecond delta, and comparison agree with exact integer arithmetic on total nanoseconds, and every produced timestamp has a nanosecond field in [0, 999999999]. A difference whose end precedes its start is refused with -EINVAL, and comparison is a total order.",
  ["inputs"], "all timestamps with seconds within the stated width and any valid nanoseconds, all 64-bit deltas whose result is representable",
  "Tests use a few dozen pairs; borrow/carry boundaries (equal or extreme nanoseconds, negative deltas) are rare among 2^94 pairs.",
  ["src/timetools.c", "include/futils/timetools.h"],
  [("time_timespec_diff", "src/timetools.c"), ("time_timespec_add_ns/add_us", "src/timetools.c"), ("time_timespec_cmp", "src/timetools.c")],
  ["return value", "output timespec"])
p("C08", "Time unit conversions are exact truncations and round-trip",
  "Converting a valid timestamp to nanoseconds, microseconds or milliseconds gives the exact value truncated to that unit, and converting a count of those units back gives a normalised timestamp denoting exactly that count, for every value that fits. Timeval conversions likewise preserve the instant (milliseconds truncated).",
  ["inputs"], "all 64-bit unit counts and all valid timestamps/timevals whose result fits the output type",
  "Tests sample a few constants; widening/overflow mistakes only show for large values or specific residues.",
  ["src/timetools.c", "include/futils/timetools.h"],
  [("time_timespec_to_{ns,us,ms}", "src/timetools.c"), ("time_{ns,us,ms}_to_timespec", "src/timetools.c"), ("time_timeval_to_*", "src/timetools.c")],
  ["return value", "output value"])
p("C09", "Timestamp distance, its sign and in-range test agree with exact arithmetic",
  "The microsecond distance between two valid timestamps is the absolute difference of the instants truncated to microseconds whatever the argument order, the reported sign tells which one is later, and the range test is true exactly when that distance is below the range (or the instants are equal) and always reports the distance. Distance from a timestamp to now uses the monotonic clock.",
  ["inputs"], "all pairs of valid timestamps within the stated width and all 64-bit ranges",
  "Tests use few pairs; the symmetric/equal/borrow cases over all pairs are not sampled.",
  ["src/timetools.c", "include/futils/timetools.h"],
  [("time_timespec_diff_us", "src/timetools.c"), ("time_timespec_diff_in_range", "src/timetools.c"), ("time_timespec_diff_now", "src/timetools.c")],
  ["return value", "*duration_diff_us", "*sign_diff", "*out_diff_us"])
p("C10", "Monotonic-to-realtime conversion is accurate to the clock sampling window",
  "Whatever the two clocks return, converting a monotonic instant to realtime yields the instant offset by (current realtime - current monotonic), the monotonic reading being the middle of two samples taken around the realtime one, within rounding; clock failures are reported as negative errno. Instants before and after now are both handled, and the millisecond variant rounds to the nearest millisecond.",
  ["inputs", "schedules"], "all clock readings (monotonic non-decreasing, any scheduling delay between samples) and all instants within the stated width",
  "Tests run on the real clock, so large offsets, delays between samples and clock failures never occur.",
  ["src/timetools.c", "include/futils/timetools.h"],
  [("time_monotonic_to_realtime_us", "src/timetools.c"), ("time_get_monotonic/realtime, time_msleep", "src/timetools.c")],
  ["*rt_us", "*rt_ms", "return value"])
p("C11", "Formatted local time parses back to the same instant and offset",
  "Formatting any instant and UTC offset in the short or long ISO format and parsing the text recovers exactly that instant and offset, and with the RFC1123 format it recovers the instant with offset zero. The text always has the documented shape and names the civil date of that instant.",
  ["inputs"], "all instants in years 1970..9999 (RFC1123 in the stated year range) and all whole-minute offsets up to the stated bound",
  "Tests round-trip a few dates; leap years, century rules, day/month rollovers caused by offsets and negative offsets are rare.",
  ["src/systimetools.c", "include/futils/systimetools.h"],
  [("time_local_format", "src/systimetools.c"), ("time_local_parse", "src/systimetools.c"), ("tm_mkepoch_local", "src/systimetools.c")],
  ["formatted text", "parsed epoch and offset"])
p("C12", "Parsing arbitrary time text is memory-safe and never misreads",
  "Parsing any NUL-terminated text as a date/time never accesses memory out of bounds, and either fails with a negative errno or the text begins with a date, time and offset in one of the accepted formats; on success with in-range fields the result is exactly the instant and offset written. A month outside 1..12 or malformed fields are rejected.",
  ["inputs"], "all texts up to the stated length",
  "Tests feed a few well-formed strings; arbitrary (remote) text is not sampled.",
  ["src/systimetools.c", "include/futils/systimetools.h"],
  [("time_local_parse / field parsers", "src/systimetools.c"), ("tm_mkepoch_local", "src/systimetools.c")],
  ["return value", "*epoch_sec", "*utc_offset_sec", "memory accesses"])
p("C13", "Broken-down time conversions are inverse and follow the civil calendar",
  "Converting an instant and offset to broken-down local time gives the proleptic Gregorian civil date, time, weekday and day of year of instant plus offset, and converting it back yields the same instant and offset. NULL arguments are refused with -EINVAL.",
  ["inputs"], "all instants from 1970 to the stated year and all offsets up to a day",
  "Tests check a few dates; leap/century/rollover boundaries need every day.",
  ["src/systimetools.c", "include/futils/systimetools.h"],
  [("time_local_to_tm", "src/systimetools.c"), ("time_local_from_tm", "src/systimetools.c")],
  ["struct tm", "epoch", "offset"])
p("C14", "Two-step time context accepts date and hour once each, in either order",
  "A time context completes exactly when both a valid date and a valid hour have been received, in either order or together, and then yields the same instant and offset as parsing the combined text; before that it reports -EINPROGRESS. A repeated field is refused with -EEXIST, malformed text with -EINVAL, and a refused call never changes what the context holds.",
  ["histories", "inputs"], "all sequences of context calls up to the bound with arbitrary texts",
  "Tests drive the two orders once with valid input; repeated, interleaved and malformed histories are not covered.",
  ["src/systimetools.c", "include/futils/systimetools.h"],
  [("time_ctx_set_date/hour/time", "src/systimetools.c"), ("time_ctx_get_local", "src/systimetools.c")],
  ["return values", "epoch and offset from time_ctx_get_local"],
  [("fields", "which fields were received", "struct time_ctx")])
p("C15", "Time formatting and system time calls respect buffers and report failures",
  "Formatting never writes beyond the given buffer size, NUL-terminates whenever it succeeds into a non-empty buffer, and refuses invalid arguments with a negative errno. Getting the local time returns the clock's seconds and milliseconds (0..999), setting it passes exactly the requested seconds to the system, and system failures are returned as negative errno.",
  ["inputs", "fault_sequences"], "all buffer sizes up to the bound, all formats, all instants; all clock values and failure results",
  "Tests use a comfortable buffer and never fail the clock.",
  ["src/systimetools.c", "include/futils/systimetools.h"],
  [("time_local_format", "src/systimetools.c"), ("time_local_get/ms_get/set", "src/systimetools.c")],
  ["bytes of the buffer", "return value", "settimeofday argument"])
p("C16", "Mailbox delivers whole messages in order, exactly once, intact",
  "Messages pushed into a mailbox are read back complete, unmodified, in push order and exactly once, for any interleaving of successful and failed pushes and peeks and any interruption of the underlying calls by signals. A refused push leaves no trace, a full box yields -EAGAIN on push and an empty one -EAGAIN on peek.",
  ["histories", "schedules", "fault_sequences"], "all histories up to the bound of push/peek with arbitrary contents, sizes, interruptions and fullness",
  "The tests push and pop a few messages without interruptions or a full pipe.",
  ["src/mbox.c", "include/futils/mbox.h"],
  [("mbox_push/mbox_peek", "src/mbox.c"), ("pipe atomicity below PIPE_BUF", "src/mbox.c")],
  ["messages read", "return values"])
p("C17", "Mailbox creation, blocking push and errors follow their contract",
  "A mailbox is created only for 0 < size < PIPE_BUF, non-blocking and close-on-exec at both ends, and otherwise or when memory or the pipe cannot be obtained returns NULL with every descriptor closed; destroying closes both ends exactly once. A blocking push returns 0 only if the whole message was queued, -ETIMEDOUT only after the wait for its timeout expired with nothing queued, and negative errno on failure, and a zero timeout waits forever.",
  ["inputs", "fault_sequences"], "all sizes, all timeouts, all failure points of the system calls",
  "Tests cannot make pipe/fcntl/poll fail or interrupt on demand.",
  ["src/mbox.c", "include/futils/mbox.h"],
  [("mbox_new/mbox_destroy", "src/mbox.c"), ("mbox_push_block", "src/mbox.c")],
  ["return values", "open descriptors", "poll timeout argument"])
p("C18", "Dynamic mailbox delivers variable-size messages intact and in order",
  "Every message accepted by push or blocking push is returned by peek with exactly its size and bytes, in order and exactly once, at every position of the internal ring; peek on an empty box gives -EAGAIN, refused pushes leave the queue unchanged, and out-of-range sizes get -EINVAL. Nothing outside the caller's message buffers is read or written.",
  ["histories", "inputs"], "all push/peek histories up to the bound with arbitrary sizes and contents, over a scaled and the full capacity",
  "Tests use a few fixed sizes; wrap-around of length header or payload at each ring offset is not enumerated.",
  ["src/dynmbox.c", "include/futils/dynmbox.h"],
  [("dynmbox_push/peek ring copy", "src/dynmbox.c")],
  ["message size and bytes", "return values"],
  [("circular buffer and its indices", "queued messages", "struct dynmbox")])
p("C19", "Dynamic mailbox always accepts a maximum-size message when empty",
  "A mailbox created for a maximum size up to DYNMBOX_MAX_SIZE reports that size, and whenever it is empty it accepts any message up to that size, whatever was sent before; sizes beyond the limit are refused at creation. Its pipe is non-blocking and close-on-exec at both ends. A push is refused with -EAGAIN only when messages are queued, and creation failures return NULL without leaking memory or descriptors.",
  ["histories", "inputs", "fault_sequences"], "all maximum sizes, all histories up to the bound, all allocation/system-call failures at creation",
  "Tests use few sizes and never an exactly full ring at every offset.",
  ["src/dynmbox.c", "include/futils/dynmbox.h"],
  [("dynmbox_new capacity", "src/dynmbox.c"), ("free-space computation", "src/dynmbox.c")],
  ["return values", "descriptors and memory"])
p("C20", "Dynamic mailbox descriptor is readable exactly when messages are queued",
  "With one producer and one consumer running concurrently in any interleaving, whenever neither is inside a call the read descriptor is readable if and only if the box holds a message, so a poll-driven consumer neither loses a wake-up nor spins on an empty box.",
  ["schedules", "histories"], "all interleavings (at system-call and lock granularity) of producer and consumer calls up to the bound",
  "Tests run single-threaded or with one lucky schedule; the interleaving of a notify write with a drain is rare.",
  ["src/dynmbox.c", "include/futils/dynmbox.h"],
  [("notification byte written/consumed under the lock", "src/dynmbox.c")],
  ["readability of dynmbox_get_read_fd", "dynmbox_peek result"])
p("C21", "Dynamic mailbox blocking push waits, wakes and times out correctly",
  "A blocking push returns 0 exactly when the message was queued, sleeps only while the message does not fit, is woken when the consumer frees space, and returns -ETIMEDOUT only once its full timeout (any unsigned millisecond count) has elapsed, never earlier; timeout 0 waits without limit. No schedule of consumer calls loses the wake-up.",
  ["schedules", "inputs"], "all 32-bit timeouts, clock readings and consumer interleavings up to the bound",
  "Tests use millisecond timeouts on the real clock; large timeouts and exact-deadline arithmetic are not reachable.",
  ["src/dynmbox.c", "include/futils/dynmbox.h"],
  [("dynmbox_push_block deadline and condition wait", "src/dynmbox.c")],
  ["return value", "deadline given to the timed wait", "queued messages"])
p("C22", "Safe file write is atomic across crashes: old or new content, never a mix",
  "If the process or machine dies at any point between opening a safe file and the end of its commit or rollback, the target path afterwards holds either exactly its previous content (or absence) or exactly the complete new content. After commit returns success the new content is there even across power loss of unsynchronised data, and after rollback the old content is.",
  ["crash_points", "inputs"], "every crash point between file-system operations, with unsynchronised data lost arbitrarily, for all bounded contents",
  "Tests never crash; the failure window between operations is invisible to them.",
  ["src/safew.c", "include/futils/safew.h"],
  [("write to temporary, flush, fsync, rename", "src/safew.c")],
  ["content of the target path after the crash"])
p("C23", "Safe file write reports every write failure and keeps the old file",
  "If any write, flush, synchronisation, close or rename of a safe file (or the reading back for its checksum) fails, commit returns -1 and the target path still holds its previous content and checksum (only when the very last rename, that of the checksum, fails the new content is there with its checksum waiting for recovery); commit returns 0 only if every byte given to the write calls is durably in the target. Temporary files and handles are released on every other outcome, and over-long paths are refused.",
  ["fault_sequences", "inputs"], "every combination of failing operations within the bound, for all bounded contents and path lengths around the limit",
  "Tests never inject an I/O failure (full disk, failing fsync).",
  ["src/safew.c", "include/futils/safew.h"],
  [("failure latch and commit path", "src/safew.c")],
  ["return values", "file-system state", "open handles"])
p("C24", "Checksummed safe files always recover to a valid version after a crash",
  "If a checksummed commit (starting from a valid file/checksum pair or from nothing) is interrupted anywhere, and the check on next start is itself interrupted any number of times, a completed check leaves either the old or the new version with its matching checksum; a previously valid version is never destroyed unless the new one is fully in place.",
  ["crash_points", "histories"], "every crash point in commit and in recovery (one nested crash), for all bounded contents",
  "Tests build a few hand-made file combinations; they never interrupt the commit or the recovery itself.",
  ["src/safew.c", "include/futils/safew.h"],
  [("futils_safew_fclose_commit_with_crc", "src/safew.c"), ("futils_safew_file_check recovery table", "src/safew.c")],
  ["file, checksum and temporaries after check"])
p("C25", "Safe-file check keeps exactly the documented valid pair, else erases",
  "For every combination of present/absent payload, temporary payload, checksum and temporary checksum with arbitrary contents, the check follows its documented recovery table: it ends with a payload matching its checksum whenever the table names a valid pair, preferring the newer one, and with nothing left otherwise. It never reports a corrupted payload as valid.",
  ["inputs"], "all 16 presence combinations with all bounded contents of payloads and checksum files, including short checksum files",
  "Tests use hand-made valid/invalid pairs, not all combinations of contents (including truncated checksum files).",
  ["src/safew.c", "include/futils/safew.h"],
  [("futils_safew_file_check", "src/safew.c"), ("checksum computation", "src/safew.c")],
  ["return value", "remaining files"])
p("C26", "UTF-8 sanitising yields bounded, valid, faithful output",
  "For any input bytes and output size, sanitising never writes beyond the size, and on success the output is NUL-terminated valid UTF-8 obtained from the valid characters of the input, in order, with every forbidden character replaced, cut only at a character boundary when space runs out; the result is the number of bytes before the terminator. Failures are reported as negative errno.",
  ["inputs"], "all byte strings and output sizes up to the bound, arbitrary forbidden sets and replacement characters",
  "Tests sample a few strings; truncation at each byte of each multi-byte character and malformed sequences are not enumerated.",
  ["src/string.c", "include/futils/string.h"],
  [("futils_string_sanitize_utf8", "src/string.c")],
  ["output bytes", "return value"])
p("C27", "UTF-8 checking accepts exactly the sane strings",
  "A string is accepted if and only if it is valid UTF-8, its size with terminator does not exceed the byte limit, its character count does not exceed the character limit, and it contains no forbidden character; a malformed or forbidden string gets -EPROTO and an oversized one -E2BIG. The output of a successful sanitise with the same forbidden set is always accepted.",
  ["inputs"], "all byte strings up to the bound with all limits and arbitrary forbidden sets",
  "Tests sample a few strings around limits.",
  ["src/string.c", "include/futils/string.h"],
  [("futils_string_check_utf8", "src/string.c")],
  ["return value"])
p("C28", "Directory size sums exactly the regular files and leaks nothing",
  "The reported size of a directory is the sum of the sizes of the regular files directly in it, plus those of its sub-directories recursively if and only if requested; symbolic links are not followed and other entries do not count. Failures to open, read or stat a directory, and paths too long to be examined, are reported as negative errno, and all memory and directory handles are released on every path.",
  ["inputs", "fault_sequences"], "all directory trees up to the stated shape with arbitrary entry kinds and sizes, and every failing call",
  "There is no test for it; trees, entry kinds and failures are unbounded.",
  ["src/fs.c", "include/futils/fs.h"],
  [("futils_fs_dir_size", "src/fs.c")],
  ["return value", "open directory streams", "heap"])
p("C29", "Inotify events are each dispatched once, in order, within the read data",
  "Processing an inotify descriptor calls the callback exactly once per received event, in order, with the event's own fields and name and the user pointer, for any mix of name lengths; it never reads beyond the data the kernel returned and calls nothing when there is nothing to read. Creation returns a descriptor watching the path or -1 with nothing left open.",
  ["inputs", "fault_sequences"], "all event batches up to the bound with arbitrary name lengths and fields, and all failures of the system calls",
  "There is no test; event batches come from the kernel.",
  ["src/inotify.c", "include/futils/inotify.h"],
  [("inotify_process_fd", "src/inotify.c"), ("inotify_create/destroy", "src/inotify.c")],
  ["callback calls", "memory accesses", "descriptors"])
p("C30", "File/folder synchronisation reports success only if everything was synced",
  "Synchronising a file, a folder, or a file with its parent folder returns 0 only if each of them was opened and synchronised without error; any failure is returned as its negative errno. The folder synchronised is the parent of the file, every descriptor is closed on every path, and invalid arguments are refused.",
  ["fault_sequences", "inputs"], "every combination of failing system calls and all paths up to the bound",
  "There is no test; failing fsync cannot be produced on demand.",
  ["src/synctools.c", "include/futils/synctools.h"],
  [("sync_file/sync_folder/sync_file_and_folder", "src/synctools.c")],
  ["return value", "paths opened and synced", "descriptors"])
p("C31", "Descriptor flag helpers change exactly the requested flags",
  "Adding descriptor status flags or setting close-on-exec changes exactly the requested bits, preserves every other flag, and reports any failure of the underlying calls as a negative errno without claiming success.",
  ["inputs", "fault_sequences"], "all current flag words, all requested masks, all failure points",
  "There is no test for them; tests cannot fail fcntl or observe arbitrary prior flags.",
  ["src/fdutils.c", "include/futils/fdutils.h"],
  [("fd_*_flags", "src/fdutils.c")],
  ["flag words passed to fcntl", "return value"])
p("C32", "Bounded random numbers stay in range and can take every value evenly",
  "For every maximum, the bounded generators return a value in [0, maximum] whatever the random source yields, and each value of the range is reachable; uniform input bits give uniform output (rejected draws are retried, never folded). Non-power-of-two ranges introduce no bias.",
  ["inputs"], "all maxima and all random source outputs within the stated number of retries",
  "Statistical tests cannot see an off-by-one at rare maxima or a small bias.",
  ["src/random.c", "include/futils/random.h"],
  [("futils_randomr{8,16,32,64}_maximum", "src/random.c")],
  ["return value as a function of the raw random bits"])
p("C33", "Random stream bytes fill exactly the buffer and are never reused",
  "Any sequence of requests for random bytes and integers fills exactly the requested bytes and nothing else, and every byte delivered comes from a generator output position used at most once and never earlier delivered or used as key; used state is erased. Different requests therefore never share random bytes.",
  ["histories", "inputs"], "all request sequences up to the bound with arbitrary lengths around the pool size",
  "Tests look at statistics of single calls; overlap at pool boundaries is invisible to them.",
  ["src/random.c", "include/futils/random.h"],
  [("random pool refill and consumption", "src/random.c"), ("futils_random/randomr*", "src/random.c")],
  ["buffer bytes as a function of generator output positions"])
p("C34", "Random seeding uses only full, fresh operating-system entropy",
  "Strong random bytes are exactly bytes delivered by the operating system, all of them, whatever short reads and interruptions occur; if the system cannot deliver them the call fails and reports it, descriptors are closed on every path. The generator is seeded from such bytes before its first output and again after a reseed, in every thread; no output is produced from a failed or partial seeding.",
  ["fault_sequences", "histories"], "every pattern of short reads, EINTR, missing system call and failures up to the bound",
  "Tests cannot force short reads, EINTR or a missing getrandom.",
  ["src/random.c", "include/futils/random.h"],
  [("futils_random_strong", "src/random.c"), ("seeding / reseed", "src/random.c")],
  ["returned bytes", "return value", "descriptors", "system calls made"])
p("C35", "Random floats are exact multiples in [0,1) and cover the grid",
  "For every output of the random source the double lies in [0,1) and is a multiple of 2^-53, and the float lies in [0,1) and is a multiple of 2^-24; every grid value, including 0 and the largest, is produced by the same number of source outputs.",
  ["inputs"], "all random source outputs",
  "Sampling cannot hit 1.0 or detect a missing grid bit.",
  ["src/random.c", "include/futils/random.h"],
  [("futils_randomrd/futils_randomrf", "src/random.c")],
  ["returned value as a function of source bits"])
p("C36", "Random base16/32/64 text has exact length, alphabet, padding and truncation",
  "For every count and buffer length the encoders return the full text length, write a NUL-terminated prefix of it that fits (nothing beyond the buffer), and use only characters of the encoding's alphabet. Every character is driven by its own fresh random bits, all alphabet characters being reachable at every position.",
  ["inputs"], "all counts and buffer lengths up to the bound and all random source outputs",
  "Tests check lengths and alphabets for some sizes, but a correlated or constant character at one position looks random.",
  ["src/random.c", "include/futils/random.h"],
  [("futils_random_base16/32/64", "src/random.c")],
  ["returned length", "buffer bytes as a function of source bits"])
p("C37", "Random strings use only and all of the given alphabet, bounded and terminated",
  "For any alphabet, count and buffer length, the string generator returns count, writes a NUL-terminated text of at most the buffer length made only of alphabet characters, each alphabet character being possible at each position; an empty alphabet yields the empty string. Invalid arguments give -EINVAL.",
  ["inputs"], "all alphabets, counts and lengths up to the bound and all random source outputs",
  "Tests use a few alphabets; off-by-one at alphabet end or buffer end depends on the random draw.",
  ["src/random.c", "include/futils/random.h"],
  [("futils_random_string", "src/random.c")],
  ["returned value", "buffer bytes"])
p("C38", "Shuffle permutes whole items, and every permutation is possible",
  "Shuffling an array leaves exactly the same items, each intact, in some order, touching nothing outside the array, for every item size and count; and every permutation results from some output of the random source with the same weight. Invalid arguments give -EINVAL and change nothing.",
  ["inputs"], "all item counts and sizes up to the bound, all contents and random source outputs",
  "Tests shuffle one array; a missing permutation or lost item in rare draws is invisible.",
  ["src/random.c", "include/futils/random.h"],
  [("futils_random_shuffle", "src/random.c")],
  ["array contents", "return value"])
p("C39", "Generator block function is the ChaCha20 permutation keyed by the seed",
  "The pseudo-random stream is, for every key, the ChaCha keystream block function of that key and counter as specified (20 rounds unless documented otherwise), so its unpredictability rests on a published cipher.",
  ["inputs"], "all 256-bit keys and all block counters within the encoding",
  "Tests only check that output varies; a wrong rotation or round order passes any statistical test.",
  ["src/random.c"],
  [("chacha block function", "src/random.c")],
  ["random output bytes as a function of the seed bytes"])
p("C40", "C++ string helpers agree with their definitions on all strings",
  "startsWith and endsWith are true exactly when the first string begins, respectively ends, with the second (every string with the empty one), and lower-casing maps every byte by the locale's rule and leaves the length unchanged; no memory outside the strings is accessed.",
  ["inputs"], "all pairs of byte strings up to the bound, including empty ones and a needle longer than the string",
  "Tests compare a few literals.",
  ["src/string.cpp", "include/futils/string.hpp"],
  [("startsWith/endsWith/convertToLowerCase", "src/string.cpp")],
  ["return values", "string contents"])
p("C41", "C++ path helpers agree with POSIX dirname/basename and own their results",
  "For every path, dirname and basename return what the POSIX functions define for it, leave the argument unmodified and release all temporary memory.",
  ["inputs"], "all paths up to the bound (with any mix of slashes)",
  "Tests use a few paths; repeated, leading and trailing slashes combine without bound.",
  ["src/fs.cpp", "include/futils/fs.hpp"],
  [("dirname/basename", "src/fs.cpp")],
  ["returned string", "argument", "heap"])
p("C42", "Arithmetic helper macros evaluate to the exact result",
  "The public minimum, maximum, clamp, array-length and container helpers return the mathematically correct result for all values of their operand types, and evaluate each argument as documented.",
  ["inputs"], "all operand values of the common integer types",
  "Only a few constants are tested, if any.",
  ["include/futils/futils.h"],
  [("helper macros", "include/futils/futils.h")],
  ["macro results"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
