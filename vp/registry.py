"""Registry: property id -> jobs (harness, bounds, options)."""
from vp.cut import cut
from vp.driver import REPO, Job, SAT, SMT_INT, SMT_CVC5, SMT_Z3, CADICAL
PROPS = {}

def prop(pid, jobs, explanation="", assumptions=()):
    assert len({j.name for j in jobs}) == len(jobs), "duplicate job names in " + pid
    PROPS[pid] = dict(jobs=jobs, explanation=explanation, assumptions=list(assumptions))

# ---------------------------------------------------------------- varint
_VT = [(16, 0), (16, 1), (32, 0), (32, 1), (64, 0), (64, 1)]
prop("C01", [Job("rt_%s%d" % ("ui"[s], b), "varint.c", ["VP_RT", "VP_BITS=%d" % b, "VP_SIGNED=%d" % s],
                 unwind=14, bound="all %d-bit %s values; destination length 0..max+2" % (b, ["unsigned", "signed"][s]))
             for b, s in _VT])
prop("C02", [Job("dec_%s%d" % ("ui"[s], b), "varint.c", ["VP_DEC", "VP_BITS=%d" % b, "VP_SIGNED=%d" % s],
                 unwind=14, bound="all byte strings of length 0..max+2 (%d-bit %s)" % (b, ["unsigned", "signed"][s]))
             for b, s in _VT])

# ---------------------------------------------------------------- list
_OPS = ["add_after", "add_before", "del", "del_init", "replace", "replace_init", "move_after", "move_before", "push", "pop"]
prop("C03",
     [Job("step_" + o, "list.c", ["VP_MUT", "POOL=6", "START=3", "OPS=1", "OP0=%d" % i, "OP1=0"], unwind=9,
          bound="one %s at any position on two lists of any 0..3 and 0..2 elements (inductive step: ring and order checked before and after)" % o)
      for i, o in enumerate(_OPS)] +
     [Job("seq2_" + o, "list.c", ["VP_MUT", "POOL=7", "START=2", "OPS=2", "OP0=%d" % i, "OP1=vp_range(0,9)"], unwind=10,
          tiers=("thorough",), timeout=700, bound="%s followed by any operation, lists of 0..2 and 0..1 elements" % o)
      for i, o in enumerate(_OPS)],
     explanation="Each operation is decided from every valid list state of the stated sizes and re-establishes ring integrity and the exact element order, so histories of any length staying within those sizes are covered step by step.")
prop("C04", [Job("walk%d" % n, "list.c", ["VP_WALK", "N=%d" % (n + 1), "NSEL=%d" % n], unwind=n + 8,
                 tiers=("quick", "thorough") if n <= 6 else ("thorough",),
                 bound="list of %d elements, every walk macro and query, every subset removed and freed during safe walks" % n)
             for n in (0, 1, 2, 3, 4, 6, 10, 14)])

# ---------------------------------------------------------------- hash
_HOPS = ["lookup", "insert", "remove", "remove_insert", "remove_all"]
_HU = ["futils_hash_init.0:34"]
prop("C05",
     [Job("%s_1bucket" % o, "hash.c", ["OP=%d" % i, "SIZE=0", "PRE=2"], unwind=6, unwindset=_HU,
          bound="2 arbitrary insertions (any 32-bit keys, const or not) then %s then a probe of any key, single bucket" % o)
      for i, o in enumerate(_HOPS)] +
     [Job("%s_3buckets" % o, "hash.c", ["OP=%d" % i, "SIZE=2", "PRE=2", "KEYMASK=0x81018103u"], unwind=6, unwindset=_HU,
          tiers=("quick", "thorough") if i != 3 else ("thorough",),
          bound="2 arbitrary insertions then %s then a probe, 3 buckets, keys over 7 free bits spread over the 4 bytes" % o)
      for i, o in enumerate(_HOPS)] +
     [Job("remove_chain3", "hash.c", ["OP=2", "SIZE=0", "PRE=3"], unwind=7, unwindset=_HU, tiers=("quick", "thorough"),
          bound="3 arbitrary insertions in one chain then a removal and a probe, any 32-bit keys")] +
     [Job("%s_7buckets" % o, "hash.c", ["OP=%d" % i, "SIZE=5", "PRE=2", "KEYMASK=0x8001010fu"], unwind=9, unwindset=_HU, tiers=("thorough",), timeout=800,
          bound="2 arbitrary insertions then %s then a probe, 7 buckets, keys over 7 free bits" % o)
      for i, o in enumerate(_HOPS)] +
     [Job("%s_chain3" % o, "hash.c", ["OP=%d" % i, "SIZE=0", "PRE=3"], unwind=7, unwindset=_HU, tiers=("thorough",), timeout=800,
          bound="3 arbitrary insertions then %s then a probe, single bucket" % o)
      for i, o in enumerate(_HOPS) if i != 2],
     assumptions=["malloc/calloc succeed (C06 covers failures)"])
prop("C06",
     [Job("faults_%s" % o, "hash.c", ["VP_FAULTS", "OP=%d" % i, "SIZE=0", "PRE=2"], unwind=6, unwindset=_HU,
          tiers=("quick", "thorough") if i != 3 else ("thorough",), timeout=400,
          bound="2 insertions then %s, every allocation may fail, single bucket, any 32-bit keys" % o)
      for i, o in enumerate(_HOPS)] +
     [Job("faults_remove_all_3buckets", "hash.c", ["VP_FAULTS", "OP=4", "SIZE=2", "PRE=2", "KEYMASK=0x81018103u"], unwind=6, unwindset=_HU, timeout=400,
          bound="2 insertions then remove-all and an insertion, every allocation may fail, 3 buckets"),
      Job("init_any_size", "hash.c", ["VP_INIT"], unwind=6, unwindset=_HU,
          bound="initialisation with every 64-bit size, allocation failing or (size<=1) succeeding")],
     assumptions=["the user's free callback is only checked for entries inserted as non-const: for const entries the header does not say"])

# ---------------------------------------------------------------- timetools
_RACE = [SAT, SMT_INT]
prop("C07",
     [Job("diff_cmp", "time.c", ["VP_DIFF"], unwind=6, backends=_RACE, bound="all pairs of timespecs, |seconds| <= 2^61, any valid nanoseconds"),
      Job("add_ns", "time.c", ["VP_ADD"], unwind=6, backends=_RACE, bound="all timespecs with |seconds| <= 2^61, all 64-bit nanosecond deltas"),
      Job("add_us", "time.c", ["VP_ADD", "VP_ADD_US"], unwind=6, backends=_RACE, bound="all timespecs with |seconds| <= 2^61, all 64-bit microsecond deltas")])
prop("C08",
     [Job("to_" + n, "time.c", ["VP_CONV=%d" % u], unwind=6, backends=_RACE, bound="all non-negative timespecs whose value in %s fits 64 bits" % n)
      for n, u in (("ns", 1), ("us", 1000), ("ms", 1000000))] +
     [Job("from_" + n, "time.c", ["VP_CONV=%d" % u, "VP_BACK"], unwind=6, backends=_RACE, bound="all 64-bit counts of %s" % n)
      for n, u in (("ns", 1), ("us", 1000), ("ms", 1000000))] +
     [Job("timeval", "time.c", ["VP_TV"], unwind=6, backends=_RACE, bound="all timevals (milliseconds: those fitting 32 bits)")])
prop("C09",
     [Job("dist", "time.c", ["VP_DIST"], unwind=6, backends=_RACE, bound="all pairs of non-negative timespecs less than 9e12 s apart, all ranges"),
      Job("now_sleep", "time.c", ["VP_NOW"], unwind=6, backends=_RACE, bound="all clock readings and failures; all sleep durations")],
     assumptions=["clock_gettime and nanosleep are stubs returning any valid result or a failure"])
_RACE3 = [SAT, CADICAL, SMT_Z3]
def _m2r(name, sec0, secmask, usec0, usecmask, **kw):
    return Job(name, "time.c", ["VP_M2R", "MTBITS=64", "SEC0=%d" % sec0, "SECMASK=%d" % secmask, "USEC0=%d" % usec0,
                                "USECMASK=%d" % usecmask, "SUB=999"], unwind=6, backends=_RACE3,
               bound="all 64-bit instants; clock seconds %d plus any bits of %#x, microseconds %d plus any bits of %#x" % (sec0, secmask, usec0, usecmask), **kw)
def _m2r_ms(name, ts, tu):
    return Job(name, "time.c", ["VP_M2R", "VP_M2R_MS", "MTBITS=64", "TAB_S={%d,%d,%d}" % ts, "TAB_U={%d,%d,%d}" % tu, "SUB=999"],
               unwind=6, backends=[CADICAL, SMT_Z3], bound="all instants not wrapping below the epoch; readings (s) %s (us) %s" % (ts, tu))
prop("C10",
     [_m2r("us_today", 1700000000, 0x707, 999000, 0x3f), _m2r("us_boot", 0, 7, 0, 0x3f), _m2r("us_late", 1 << 32, 3, 999968, 0x1f),
      _m2r("us_wide", 1700000000, 0xff0f, 999000, 0x3ff, tiers=("thorough",), timeout=800),
      _m2r_ms("ms_a", (1000, 1700000000, 1000), (5, 77, 1900)), _m2r_ms("ms_b", (99999, 4300000000, 100001), (999999, 0, 0))],
     assumptions=["clock_gettime is a stub returning any reading within the stated pattern (monotonic non-decreasing) or a failure"])

NOT_APPLICABLE = {}

# ---------------------------------------------------------------- fdutils, synctools, inotify, fs, macros
prop("C31", [Job(n, "fdutils.c", ["OP=%d" % i], unwind=3, bound="all descriptors, flag words, requested masks, every failing fcntl with any errno")
             for i, n in enumerate(["set_cloexec", "has_cloexec", "add_flags"])],
     assumptions=["fcntl is a stub with arbitrary flag words that may fail with errno 1..255"])
prop("C30", [Job(n, "synctools.c", ["OP=%d" % i, "N=%d" % N], unwind=N + 4, tiers=t,
                 bound="all paths of 0..%d bytes, every combination of failing open/fsync/strdup (any errno), close clobbering errno" % N)
             for i, n0 in enumerate(["file", "folder", "file_and_folder", "null"]) for N, t, n in
             ((6, ("quick", "thorough"), n0), (16, ("thorough",), n0 + "_long"))],
     assumptions=["open/fsync/close/strdup are stubs; fdatasync is not counted as a synchronisation; opening with O_DIRECTORY fails on non-directories"])
prop("C29", [Job("create", "inotify.c", ["VP_CREATE"], unwind=3, bound="all failures of the calls, all descriptors 0..255, all masks")] +
     [Job("events_" + n, "inotify.c", ["NEV=%d" % len(l), "LENS={%s}" % ",".join(map(str, l))] + x, unwind=len(l) + 3,
          tiers=("quick", "thorough") if not n.startswith("t") else ("thorough",), timeout=240 if not n.startswith("t") else 800,
          bound="%d events with name lengths %s, any fields and name ends, any failing call%s" % (0 if x == ["EMPTY"] else len(l), l, ", FIONREAD failing" if x == ["IOFAIL"] else ""))
      for n, l, x in [("empty", [0], ["EMPTY"]), ("ioctl_fails", [16], ["IOFAIL"]), ("one", [0], []), ("named", [16], []), ("stack512", [240, 240], []),
                      ("stack496", [240, 224], []), ("heap528", [240, 240, 0], []), ("max", [272, 272, 16], []), ("mixed", [0, 16, 0, 32, 0], []),
                      ("descending", [48, 32, 16, 0], []), ("eight", [0] * 8, []), ("t32", [0] * 32, []), ("t33", [0] * 33, []), ("t_big", [272] * 6, [])] +
      [("t_%d_%d_%d" % (a, b, c), [a, b, c], []) for a in (0, 16, 32) for b in (0, 16, 32) for c in (0, 16, 32)]],
     assumptions=["one reader per descriptor: read() of the FIONREAD size returns exactly the queued whole events or fails"])
_FSD = "tree of 9 names up to 3 levels deep, names starting with dots included: every kind of non-directory, size < 2^58, type hint"
_DIRSETS = (0x01, 0x03, 0x0b, 0x1f, 0x9f)
prop("C28", [Job("flat", "fs.c", ["RECURSIVE=0"], unwind=20, bound=_FSD + ", any of the entries a directory, any place of the dot entries, not recursive")] +
     [Job("rec_%x_%d" % (m, d), "fs.c", ["RECURSIVE=1", "DIRS=%#x" % m, "DOTS=%d" % d], unwind=20,
          bound=_FSD + ", directories %#x, dot entries %s" % (m, "first" if d else "last")) for m in _DIRSETS for d in (0, 1)] +
     [Job("fault_%x_%d" % (m, f), "fs.c", ["RECURSIVE=1", "DIRS=%#x" % m, "DOTS=%d" % d, "FAULTS", "FAULT0=%d" % f, "FAULT1=%d" % (f + 1)], unwind=20,
          tiers=t, witness=f < last, bound=_FSD + ", directories %#x, call number %d of the walk failing with any errno" % (m, f))
      for m, d, n, last, t in ((0x0b, 1, 27, 24, ("quick", "thorough")), (0x1f, 1, 46, 30, ("thorough",)), (0x9f, 0, 46, 30, ("thorough",))) for f in range(n)] +
     [Job("long_%x" % m, "fs.c", ["RECURSIVE=1", "FMAX=%d" % f, "DIRS=%#x" % m, "DOTS=0"], unwind=20,
          bound=_FSD + ", directories %#x, path limit scaled down to %d bytes" % (m, f)) for m, f in ((0x0b, 6), (0x1, 4))],
     assumptions=["opendir/readdir/closedir/lstat/stat/malloc are stubs over a static tree; FILENAME_MAX scaled to 16 (6 and 4 in long_*)"])
prop("C42", [Job(t.replace(" ", "_"), "macros.c", ["T=%s" % t] + x, unwind=4, backends=[SAT], bound="all operand values of type %s%s" % (t, " except NaN" if x else ""))
             for t, x in (("int", []), ("unsigned", []), ("int64_t", []), ("uint64_t", []), ("int8_t", []), ("uint16_t", []), ("float", ["VP_FLOAT"]), ("double", ["VP_FLOAT"]))])

# ---------------------------------------------------------------- dynmbox
PATHS = ["--paths", "lifo"]
def _dm(name, ops, lens, cap, maxmsg=None, extra=(), **kw):
    """ops: string over w(push) b(block forever) t(block with timeout) r(peek); lens: one per op (99 = any)"""
    code = {"w": 119, "r": 114, "b": 102, "t": 116}
    return Job(name, "dynmbox.c", ["CAP=%d" % cap, "MAXMSG=%d" % (maxmsg or cap), "NMSG=%d" % (len(ops) + 3), "OPS={%s}" % ",".join(str(code[o]) for o in ops),
                                   "LENS={%s}" % ",".join(map(str, lens))] + list(extra), unwind=max(cap + 6, len(ops) + 4), **kw)
def _hist(w, sym, cap, maxmsg, **kw):
    ops = "wr" + "w" * sym + "r" * (sym + 1)
    return _dm("any%d_after%d_cap%d" % (sym, w, cap), ops, [w, 0] + [99] * sym + [0] * (sym + 1), cap, maxmsg, opts=PATHS,
               bound="ring of %d bytes, ring offset %d, %d pushes of any size 0..%d with any contents, then peeks until empty" % (cap + 4, (w + 4) % (cap + 4), sym, maxmsg + 1), **kw)
def _long(name, cap, seq, **kw):
    ops, lens = "", []
    for t in seq:
        ops += t[0]; lens.append(t[1] if len(t) > 1 else 0)
    return _dm(name, ops, lens, cap, bound="history of %d calls on a ring of %d bytes, any contents" % (len(ops), cap + 4), **kw)
def _mix(cap, k):
    """deterministic mix of sizes and depths that visits every ring offset"""
    seq, x, q = [], k * 7 + 1, 0
    for i in range(24):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        if (x >> 16) % 3 or not q:
            seq.append(("w", (x >> 20) % (cap + 1))); q += 1
        else:
            seq.append(("r",)); q = max(0, q - 1)
    return seq + [("r",)] * 6
_FULLB = "real capacity (65536-byte limit): any sizes, ring offsets and contents (one arbitrary byte of each message and its length header followed); %s"
prop("C18",
     [_hist(w, 2, 5, 5) for w in range(6)] +
     [_hist(w, 3, 11, 6, tiers=("thorough",), timeout=850) for w in range(0, 12)] +
     [_long("mix%d_cap%d" % (k, c), c, _mix(c, k), tiers=("quick", "thorough") if k < 2 else ("thorough",)) for c in (8, 16, 29) for k in range(6)] +
     [Job("full1", "dynmbox.c", ["VP_FULL"], unwind=4, backends=[SAT, CADICAL], bound=_FULLB % "message, message"),
      Job("full2", "dynmbox.c", ["VP_FULL", "TWO"], unwind=4, backends=[SAT, CADICAL], timeout=850, tiers=("thorough",), bound=_FULLB % "message, two messages queued together")],
     assumptions=["malloc, locks and pipe are models; calls run one at a time (C20 covers interleaving)"])
prop("C19",
     [Job("create", "dynmbox.c", ["VP_NEW", "FAULTS"], unwind=6, bound="every 64-bit size, every allocation or pipe creation failing")] +
     [_dm("empty_after%d_x%d" % (w, n), "w" * n + "r" * n + "wrr", [w] * n + [0] * n + [99, 0, 0], 8, 8, opts=PATHS,
          bound="ring of 12 bytes emptied after %d messages of %d bytes, then a message of any size" % (n, w)) for w in range(9) for n in ((1, 2) if w < 5 else (1,))] +
     [Job("full1", "dynmbox.c", ["VP_FULL"], unwind=4, backends=[SAT, CADICAL], bound=_FULLB % "message, message")],
     assumptions=["fcntl on the freshly created pipe succeeds"])
def _sched(name, ops, lens, sop, budget, l1, l2, cap=8, **kw):
    return _dm(name, ops, lens, cap, extra=["VP_SCHED", "BUDGET=%d" % budget, "SOP=%d" % sop, "RDS=0", "LEN1=%d" % l1, "LEN2=%d" % l2], opts=PATHS,
               bound="calls %s, sizes %s; during call %d the other side may run up to %d whole calls at every point where the lock is free" % (ops, lens, sop, budget), **kw)
prop("C20",
     [_sched("push_first", "wrrr", [3, 0, 0, 0], 0, 2, 1, 2), _sched("push_second", "wwrrr", [2, 1, 0, 0, 0], 1, 3, 1, 2),
      _sched("push_wrap", "wwrwrrr", [4, 0, 0, 3, 0, 0, 0], 3, 3, 1, 2), _sched("push_full", "wwwrrr", [2, 2, 1, 0, 0, 0], 2, 3, 1, 2),
      _sched("block_push", "wbrrr", [2, 1, 0, 0, 0], 1, 3, 1, 2), _sched("timed_push", "wtrrr", [2, 1, 0, 0, 0], 1, 3, 1, 2),
      _sched("peek_empty", "rrrr", [0] * 4, 0, 2, 3, 0), _sched("peek_one", "wrrrr", [2, 0, 0, 0, 0], 1, 2, 3, 0),
      _sched("peek_two", "wwrrrr", [2, 0, 0, 0, 0, 0], 2, 2, 2, 0),
      _sched("peek_one_deep", "wrrrrr", [2, 0, 0, 0, 0, 0], 1, 4, 3, 0, tiers=("thorough",), timeout=600),
      _sched("peek_two_deep", "wwrrrrr", [2, 0, 0, 0, 0, 0, 0], 2, 4, 2, 0, tiers=("thorough",), timeout=600),
      _sched("push_deep", "wwwrrrrr", [1, 0, 3, 0, 0, 0, 0, 0], 2, 6, 1, 2, tiers=("thorough",), timeout=600, cap=16)],
     explanation="Whole calls of the other side run inside each call of one side at every point where the lock is free, in both directions. When every access to the ring and the pipe happens under the lock, as in the current code, each call is one atomic step and these schedules are all schedules.")
prop("C21",
     [Job("deadline", "dynmbox.c", ["VP_DEADLINE", "CAP=2"], unwind=6, backends=[SMT_INT, CADICAL], bound="every 32-bit timeout > 0, every clock reading below 2^40 s or clock failure, up to 3 waits"),
      _dm("block_forever", "wbrr", [5, 4, 0, 0], 6, extra=["VP_BLOCK"], opts=PATHS, bound="full box, up to 2 sleeps, consumer running 0..2 peeks during each"),
      _dm("block_timed", "wtrr", [5, 4, 0, 0], 6, extra=["VP_BLOCK"], opts=PATHS, bound="full box, timed, up to 2 sleeps, consumer running 0..2 peeks during each, any wait ending by timeout"),
      _dm("block_two_needed", "wwtrr", [3, 2, 12, 0, 0], 12, extra=["VP_BLOCK"], opts=PATHS, bound="message needing two others to leave, up to 2 sleeps"),
      _dm("block_two_forever", "wwbrr", [3, 2, 12, 0, 0], 12, extra=["VP_BLOCK"], opts=PATHS, bound="message needing two others to leave, up to 2 sleeps"),
      _dm("block_fits", "wbtrrr", [1, 2, 0, 0, 0, 0], 20, extra=["VP_BLOCK", "NOSLEEP"], opts=PATHS, bound="messages that fit: no sleep"),
      _dm("block_any", "wbrr", [3, 99, 0, 0], 6, extra=["VP_BLOCK"], opts=PATHS, bound="blocking push of any size behind a 3-byte message")],
     assumptions=["pthread_cond_timedwait honours its absolute deadline; wake-ups may be spurious"])

# ---------------------------------------------------------------- mbox
_MO = {"w": 119, "r": 114, "b": 98, "t": 116, "a": 97}
def _mb(ops, sz=2, eintrs=1, errs=0, minread=None, **kw):
    mr = ops.count("a") > 1 or (ops.count("a") and ops[0] == "w") if minread is None else minread
    return Job("hist_%s_size%d_intr%d%s" % (ops, sz, eintrs, "_errs" if errs else ""), "mbox.c",
               ["SZ=%d" % sz, "PCAP=%d" % (2 * sz + 1), "EINTRS=%d" % eintrs, "NOPS=%d" % len(ops), "MINREAD=%d" % int(mr),
                "OPS={%s}" % ",".join(str(_MO[o]) for o in ops)] + (["ERRS"] if errs else []), unwind=3 * sz + 6, opts=PATHS,
               bound="calls %s (a: any of push, peek, blocking push with and without timeout), %d-byte messages, pipe of %d bytes, up to %d interruption(s)%s, consumer running during waits"
               % (ops, sz, 2 * sz + 1, eintrs, ", any one call failing (EIO, EPIPE, ENOMEM, end of file)" if errs else ""), **kw)
prop("C16",
     [_mb("aa"), _mb("waa"), _mb("wwaa"), _mb("wwarr"), _mb("wwrwrr", sz=3, eintrs=3), _mb("wa", errs=1), _mb("wwa", errs=1), _mb("wwbrr", eintrs=2, minread=1)] +
     [_mb(o, eintrs=2, tiers=("thorough",), timeout=850) for o in ("aaa", "waaa", "wwaa", "wwaar")] +
     [_mb(o, errs=1, tiers=("thorough",), timeout=850) for o in ("aa", "waa", "wwaa")] +
     [_mb("wrwrwwrrwa", sz=8, tiers=("thorough",), timeout=850)],
     assumptions=["the pipe writes up to PIPE_BUF bytes atomically (POSIX) and is scaled to two messages and a byte", "one producer, one consumer"])
prop("C17",
     [Job("create", "mbox.c", ["VP_NEW", "FAULTS"], unwind=6, bound="every 64-bit size, every allocation or pipe creation failing"),
      Job("timeout_full", "mbox.c", ["VP_TIMEOUT", "FILL=2"], unwind=8, opts=PATHS, bound="every 32-bit timeout, box full, up to 2 interruptions, consumer running 0..2 peeks during the wait"),
      Job("timeout_room", "mbox.c", ["VP_TIMEOUT", "FILL=1"], unwind=8, opts=PATHS, bound="every 32-bit timeout, room left, up to 2 interruptions"),
      Job("timeout_full_errs", "mbox.c", ["VP_TIMEOUT", "FILL=2", "ERRS", "EINTRS=0", "NOTO"], unwind=8, opts=PATHS, timeout=500, tiers=("thorough",),
          bound="every 32-bit timeout, box full, any one call failing (EIO, EPIPE, ENOMEM)"),
      _mb("wwbrr", eintrs=2, minread=1), _mb("wwtrr", eintrs=2, minread=1), _mb("wwb", errs=1, minread=0), _mb("wt", errs=1, minread=0)],
     assumptions=["fcntl on the freshly created pipe succeeds", "one producer, one consumer"])

# ---------------------------------------------------------------- random
_RS = "src/random.c"
_CUT_BYTES = cut(_RS, ["pool_rand"])
_CUT_BOUNDED = cut(_RS, ["pool_rand8_maximum", "pool_rand16_maximum", "pool_rand32_maximum", "pool_rand64_maximum", "pool_rand_size_maximum"])
_CUT_BLOCK = cut(_RS, ["chacha_block"])
_CUT_BLOCKPOOL = cut(_RS, ["chacha_block", "pool_get"])
_FS = ["--max-field-sensitivity-array-size", "1024"]
_BOTH, _DEEP = ("quick", "thorough"), ("thorough",)
prop("C32", [Job("r%d_w%d" % (b, w), "random.c", ["VP_SRCBYTES", "VP_MAX", "BITS=%d" % b, "W=%d" % w, "NSRC=%d" % (2 * w)],
                 unwind=20, prep=_CUT_BYTES, backends=[CADICAL], timeout=400,
                 tiers=_BOTH if b < 64 or w in (1, 4, 8) else _DEEP,
                 bound="%d-bit generator, every maximum of %d byte(s), any %d source bytes then zeros" % (b, w, 2 * w))
             for b in (8, 16, 32, 64) for w in range(1, b // 8 + 1)] +
     [Job("r%d_three_draws" % b, "random.c", ["VP_SRCBYTES", "VP_MAX", "BITS=%d" % b, "W=%d" % (b // 8), "NSRC=%d" % (3 * b // 8)],
          unwind=20, prep=_CUT_BYTES, backends=[CADICAL], timeout=700, tiers=_DEEP,
          bound="%d-bit generator, every maximum of %d byte(s), any %d source bytes then zeros" % (b, b // 8, 3 * b // 8)) for b in (8, 16, 32)] +
     [Job("r%d_w%d_after%d" % (b, w, k), "random.c", ["VP_SRCBYTES", "VP_MAX", "BITS=%d" % b, "W=%d" % w, "REJECT=%d" % k, "NSRC=%d" % (w * (k + 2))],
          unwind=max(k * w, 8 * w) + 20, prep=_CUT_BYTES, backends=[CADICAL], timeout=400, tiers=t,
          bound="%d-bit generator, every maximum of %d byte(s), %d draws of all ones, then free ones" % (b, w, k))
      for b, w, k, t in ((8, 1, 40, _BOTH), (16, 2, 40, _BOTH), (32, 3, 12, _BOTH), (64, 5, 9, _BOTH), (8, 1, 140, _DEEP), (64, 8, 60, _DEEP))],
     assumptions=["the source of bytes is a contract (pool_rand, decided by C33): successive bytes of one stream; after the free bytes it yields zeros, so retries beyond the second (third) draw are not explored"],
     explanation="Evenness is decided as a bijection: among the draws accepted at once, for any two results a fixed change of the drawn bits turns each draw giving the first into one giving the second; rejected draws leave no trace.")
prop("C35", [Job("double_any", "random.c", ["VP_SRCBYTES", "VP_FLOAT=53", "NSRC=7"], unwind=20, prep=_CUT_BYTES, bound="all 2^56 source values"),
             Job("float_any", "random.c", ["VP_SRCBYTES", "VP_FLOAT=24", "NSRC=3"], unwind=20, prep=_CUT_BYTES, bound="all 2^24 source values")] +
     [Job("double_bit%d" % k, "random.c", ["VP_SRCBYTES", "VP_FLOAT=53", "NSRC=7", "BIT=%d" % k], unwind=20, prep=_CUT_BYTES, witness=False,
          tiers=_BOTH if k % 11 == 3 or k < 4 or k == 55 else _DEEP, backends=[SAT, CADICAL],
          bound="effect of source bit %d, all other bits free" % k) for k in range(56)] +
     [Job("float_bit%d" % k, "random.c", ["VP_SRCBYTES", "VP_FLOAT=24", "NSRC=3", "BIT=%d" % k], unwind=20, prep=_CUT_BYTES, witness=False,
          tiers=_BOTH if k % 5 == 3 or k in (0, 23) else _DEEP, backends=[SAT, CADICAL],
          bound="effect of source bit %d, all other bits free" % k) for k in range(24)],
     assumptions=["the source of bytes is a contract (pool_rand, decided by C33): any bytes"],
     explanation="The grid value is decided to be a fixed linear map of the source bits, each grid bit driven by exactly one of them, hence each value by equally many sources.")
def _base(b, count, ln, nsrc, tiers=_BOTH):
    return Job("b%d_count%d_len%d" % (b, count, ln), "random.c", ["VP_SRCBYTES", "VP_BASE=%d" % b, "COUNT=%d" % count, "LEN=%d" % ln, "NSRC=%d" % nsrc],
               unwind=70, prep=_CUT_BYTES, backends=[CADICAL], timeout=300, tiers=tiers, bound="base%d of %d bytes into a %d byte buffer, any %d source bytes" % (b, count, ln, nsrc))
prop("C36",
     [Job("b%d_lengths" % b, "random.c", ["VP_SRCBYTES", "VP_BASE=%d" % b, "VP_HUGE", "NSRC=8"], unwind=70, prep=_CUT_BYTES, bound="base%d, every 64-bit count, empty buffer" % b) for b in (16, 32, 64)] +
     [_base(16, 0, 3, 8), _base(16, 1, 2, 8), _base(16, 3, 9, 8), _base(16, 8, 17, 16), _base(16, 9, 20, 16), _base(16, 9, 18, 16), _base(16, 20, 10, 16),
      _base(16, 9, 1, 8), _base(16, 16, 34, 24, _DEEP), _base(16, 17, 60, 24, _DEEP)] +
     [_base(32, c, 12, 8) for c in (0, 1, 2, 3, 4, 5)] + [_base(32, 3, 4, 8), _base(32, 5, 8, 8), _base(32, 7, 16, 16), _base(32, 1, 8, 8), _base(32, 7, 18, 16), _base(32, 8, 14, 16), _base(32, 10, 17, 16), _base(32, 30, 10, 16),
      _base(32, 14, 26, 24, _DEEP), _base(32, 11, 30, 24, _DEEP)] +
     [_base(64, c, 10, 8) for c in (0, 1, 2, 3, 4, 5)] + [_base(64, 2, 3, 8), _base(64, 3, 4, 8), _base(64, 4, 8, 8), _base(64, 5, 8, 8), _base(64, 8, 13, 12), _base(64, 7, 11, 12), _base(64, 30, 6, 8),
      _base(64, 11, 18, 16, _DEEP), _base(64, 10, 20, 16, _DEEP)],
     assumptions=["the source of bytes is a contract (pool_rand, decided by C33): any bytes"])
def _str(al, count, ln, tiers=_BOTH):
    return Job("alpha%d_count%d_len%d" % (al, count, ln), "random.c", ["VP_BOUNDED", "VP_STRING", "ALEN=%d" % al, "COUNT=%d" % count, "LEN=%d" % ln],
               unwind=70, prep=_CUT_BOUNDED, backends=[SAT, CADICAL], timeout=300, tiers=tiers, bound="any alphabet of %d distinct characters, %d characters into a %d byte buffer, any draws" % (al, count, ln))
prop("C37", [_str(*a) for a in ((0, 4, 6), (0, 4, 0), (1, 3, 6), (2, 0, 3), (2, 5, 8), (3, 4, 8), (3, 4, 5), (3, 6, 4), (3, 4, 0), (3, 4, 1), (7, 3, 5), (20, 4, 3))] +
     [Job("alpha300", "random.c", ["VP_BOUNDED", "VP_STRING", "LONGALPHA", "ALEN=300", "COUNT=2", "LEN=4"], unwind=310, prep=_CUT_BOUNDED, backends=[SAT, CADICAL],
          bound="an alphabet of 300 characters (299 a, one b), 2 characters, any draws")] +
     [_str(a, c, l, _DEEP) for a, c, l in ((5, 8, 10), (64, 2, 4), (10, 6, 4))],
     assumptions=["the bounded generator is a contract (decided by C32): any value in [0, maximum]"])
def _shuf(n, size, diff=0, tiers=_BOTH):
    return Job("n%d_size%d" % (n, size), "random.c", ["VP_BOUNDED", "VP_SHUFFLE", "N=%d" % n, "SIZE=%d" % size, "DIFF=%d" % diff],
               unwind=max(70, (n + 2) * size + 3), prep=_CUT_BOUNDED, backends=[SAT, CADICAL], timeout=300 if tiers == _BOTH else 800, tiers=tiers, bound="%d items of %d bytes with arbitrary distinct contents, any draws" % (n, size))
prop("C38", [_shuf(0, 4), _shuf(1, 4), _shuf(2, 1), _shuf(2, 8, 3), _shuf(2, 9, 8), _shuf(3, 3, 1), _shuf(3, 12, 5), _shuf(3, 16), _shuf(4, 4, 1), _shuf(4, 8, 7), _shuf(5, 1), _shuf(5, 4, 3),
      _shuf(6, 1, 0, _DEEP), _shuf(4, 24, 20, _DEEP), _shuf(5, 10, 9, _DEEP)],
     assumptions=["the bounded generator is a contract (decided by C32): any value in [0, maximum]"])
def _stream(name, lens, blocks, tiers=_BOTH):
    return Job(name, "random.c", ["VP_STREAM", "LENS={%s}" % ",".join(map(str, lens)), "MAXBLOCKS=%d" % blocks, "MAXREQ=%d" % max(lens)] + (["REKEY"] if sum(lens) > 468 else []),
               unwind=max(520, max(lens) + 10), opts=_FS, prep=_CUT_BLOCK, backends=[SAT], timeout=400, tiers=tiers, bound="requests of %s bytes, any keystream byte marked" % lens)
prop("C33", [_stream("small", [1, 2, 4, 8, 3], 8), _stream("edge467", [1, 467], 16), _stream("edge468", [5, 468, 8], 32), _stream("twice", [300, 300], 16), _stream("exact", [468 - 1, 1, 1], 24), _stream("whole", [5, 512, 44], 32),
      _stream("big", [600, 4], 32), _stream("drain", [440, 20, 8, 8], 16), _stream("mixed", [8, 460, 470, 2], 40, _DEEP), _stream("three", [400, 400, 400], 32, _DEEP)],
     assumptions=["the block function is a contract: every block is fresh (C39 decides what it computes)", "system bytes are fixed: nothing depends on them here"],
     explanation="One arbitrary keystream byte is marked; the solver decides that it is delivered at most once, never both delivered and used as key, and gone from the state once delivered.")
def _fetch(n, faults, tiers=_BOTH):
    return Job("strong_len%d_faults%d" % (n, faults), "random.c", ["VP_FETCH", "LEN=%d" % n, "VP_OSFAULTS=%d" % faults], unwind=60, opts=PATHS, prep=cut(_RS, []), backends=[SAT],
               tiers=tiers, timeout=800, bound="%d strong bytes, any of at most %d interruptions, short reads, failures (any kind) of getrandom/open/read" % (n, faults))
prop("C34", [_fetch(1, 3), _fetch(3, 2), _fetch(4, 3), _fetch(3, 4, _DEEP), _fetch(44, 1)] +
     [Job("seedfail%d%s" % (k, r), "random.c", ["VP_SEEDFAIL", "VP_OSFAULTS=%d" % k] + (["RESEED"] if r else []), unwind=520, opts=PATHS + _FS, prep=_CUT_BLOCK, backends=[SAT],
          tiers=t, timeout=800, bound="seeding%s with at most %d interruptions, short reads (1 byte, half, all but one) or failures" % (" and reseeding" if r else "", k)) for k, r, t in ((1, "", _BOTH), (2, "_reseed", _BOTH), (3, "", _DEEP), (3, "_reseed", _DEEP))] +
     [Job("key", "random.c", ["VP_SEEDKEY"], unwind=520, opts=_FS, prep=_CUT_BLOCK, backends=[SAT], bound="any system bytes, first output and output after a reseed")] +
     [Job("order_" + o, "random.c", ["VP_SEED", 'OPS="%s"' % o], unwind=520, opts=_FS, prep=_CUT_BLOCKPOOL, backends=[SAT], timeout=400, tiers=t,
          bound="two threads: %s (capital: draws bytes, small: reseeds, L/M: large requests)" % o) for o, t in (("AaA", _BOTH), ("ABaBA", _BOTH), ("aLbM", _BOTH), ("AbAaB", _BOTH), ("AaBbABM", _DEEP))],
     assumptions=["getrandom/open/read/close are stubs; open fails with ENOENT or EMFILE, reads with EIO or EBADF; read of 0 bytes and ENOSYS/EAGAIN included", "thread-local pools are given by a contract of pool_get in the order_* jobs"])
prop("C39", [Job(n, "random.c", ["VP_CHACHA", "LEN=%d" % l] + x, unwind=max(520, l + 20), opts=["--max-field-sensitivity-array-size", "4096"], backends=[SMT_CVC5, CADICAL], timeout=400, tiers=t, bound="all 2^352 seeds; " + b)
             for n, l, x, t, b in (("first64", 64, [], _BOTH, "the first 64 bytes of the stream"), ("pool", 467, [], _BOTH, "the first 467 bytes of the stream"),
                                   ("large500", 500, ["PARTIAL"], _BOTH, "4 bytes then a request of 500 bytes"),
                                   ("large700", 700, ["PARTIAL"], _BOTH, "4 bytes then a request of 700 bytes"), ("large2000", 2000, ["PARTIAL"], _DEEP, "4 bytes then a request of 2000 bytes"))],
     assumptions=["getrandom delivers all bytes (C34 covers its failures)"])

# ---------------------------------------------------------------- safe files
_CUT_CRC = cut("src/safew.c", ["crc_from_fhd"])
_ENDS = {0: "commit", 1: "rollback", 2: "checksummed commit"}
def _sw(name, mode, end, pre, defs, bound, **kw):
    kw.setdefault("prep", _CUT_CRC); kw.setdefault("opts", PATHS + _FS)
    return Job(name, "safew.c", [mode, "END=%d" % end, "PRE=%d" % pre] + defs, unwind=kw.pop("unwind", 16), cflags=["-I%s/src" % REPO], backends=[SAT], timeout=kw.pop("timeout", 300), bound=bound, **kw)
_PB = "files present at start: %s; the other contents arbitrary"
def _pre(p): return _PB % (", ".join(n for i, n in enumerate(("file", "temporary", "checksum", "temporary checksum")) if p >> i & 1) or "none")
_SWA = ["stdio and the file system are a model: named files of at most 8 bytes, buffered writes, directory operations durable in order, contents without fsync arbitrary after a crash",
        "the checksum is any function of the contents (C25 decides its computation)"]
prop("C22", [_sw("%s_pre%d" % (_ENDS[e].split()[0], p), "VP_ATOMIC", e, p, ["CRASHES=1"], "%s of 3 written bytes, a crash before any operation; %s" % (_ENDS[e], _pre(p)))
             for e in (0, 1, 2) for p in (0, 1, 3, 15)] +
     [_sw("%s_fault_pre%d_%d_%d" % (_ENDS[e].split()[0], p, w1, w2), "VP_ATOMIC", e, p, ["CRASHES=1", "FAULTS=%d" % f, "W1=%d" % w1, "W2=%d" % w2],
          "%s of %d+%d written bytes, a crash before any operation and up to %d failing operation(s); %s" % (_ENDS[e], w1, w2, f, _pre(p)), tiers=t, timeout=800)
      for e, p, w1, w2, f, t in ((0, 1, 2, 1, 1, _BOTH), (2, 5, 2, 1, 1, _BOTH), (1, 3, 2, 1, 1, _BOTH), (0, 1, 0, 0, 1, _BOTH), (0, 3, 4, 2, 2, _DEEP), (2, 7, 3, 2, 2, _DEEP), (1, 3, 3, 3, 2, _DEEP))],
     assumptions=_SWA)
prop("C23", [_sw("%s_pre%d_%d_%d" % (_ENDS[e].split()[0], p, w1, w2), "VP_FAULTY", e, p, ["FAULTS=2", "W1=%d" % w1, "W2=%d" % w2] + x,
                 "%s of %d+%d written bytes, at most 2 failing operations; %s" % (_ENDS[e], w1, w2, _pre(p)))
             for e, p, w1, w2, x in ((0, 0, 2, 1, []), (0, 1, 2, 1, []), (0, 3, 2, 0, []), (0, 1, 0, 0, []), (1, 1, 2, 1, []), (1, 0, 0, 2, []), (1, 3, 2, 1, []), (2, 0, 2, 1, []), (2, 5, 2, 1, []), (2, 5, 0, 2, []),
                                     (0, 3, 2, 2, ["UNLINKFAULTS"]), (2, 5, 4, 0, ["ITEMS", "UNLINKFAULTS"]), (0, 1, 3, 0, ["ITEMS"]), (1, 1, 1, 1, ["UNLINKFAULTS"]))] +
     [_sw("%s_deep_pre%d" % (_ENDS[e].split()[0], p), "VP_FAULTY", e, p, ["FAULTS=4", "W1=3", "W2=2", "UNLINKFAULTS"], "%s of 3+2 written bytes, at most 4 failing operations; %s" % (_ENDS[e], _pre(p)), tiers=_DEEP, timeout=800)
      for e in (0, 1, 2) for p in (1, 7)] +
     [_sw("length_%s" % n, "VP_PATHLEN", e, 0, ["PATHLO=%d" % a, "PATHHI=%d" % b], "%s with paths of %d..%d bytes" % (n, a, b), unwind=160) for n, e, a, b in
      (("commit", 0, 127, 128), ("crc", 2, 127, 128), ("check", 3, 127, 128), ("longer", 0, 129, 132), ("check_longer", 3, 131, 132), ("check_shorter", 3, 119, 120))],
     assumptions=_SWA)
prop("C24", [_sw("pre%d_torn%d" % (p, t), "VP_RECOVER", 2, p, ["CRASHES=2", "TORNLEN=%d" % t], "checksummed commit of 3 bytes, a crash at any point of it and one of the recovery, unsynchronised files become any %d bytes; %s" % (t, _pre(p)))
             for p, t in ((0, 4), (5, 0), (5, 3), (5, 4), (7, 4))] +
     [_sw("fault_pre%d" % p, "VP_RECOVER", 2, p, ["CRASHES=1", "FAULTS=1"], "checksummed commit with at most 1 failing operation, a crash at any point of it or of the recovery; %s" % _pre(p)) for p in (0, 5)] +
     [_sw("deep_pre%d_torn%d" % (p, t), "VP_RECOVER", 2, p, ["CRASHES=3", "TORNLEN=%d" % t], "checksummed commit, a crash at any point of it and two of the recovery; %s" % _pre(p), tiers=_DEEP, timeout=850)
      for p, t in ((0, 0), (0, 3), (0, 4), (5, 1), (5, 4))] +
     [_sw("deep_fault_pre%d" % p, "VP_RECOVER", 2, p, ["CRASHES=1", "FAULTS=2"], "checksummed commit with at most 2 failing operations and a crash; %s" % _pre(p), tiers=_DEEP, timeout=850) for p in (0, 5)],
     assumptions=_SWA)
_CHK = [(p, (1, 2, 4, 4), _BOTH) for p in range(16)] + [(p, l, _BOTH) for p in (5, 7, 9, 10, 11, 13, 14, 15) for l in ((1, 2, 3, 4), (2, 1, 4, 3), (0, 2, 4, 4), (2, 2, 4, 0))] + \
       [(p, (a, b, c, d), _DEEP) for p in (5, 7, 9, 10, 11, 13, 14, 15) for a in (0, 1, 4) for b in (0, 1, 4) for c in (0, 1, 2, 3, 4) for d in (0, 2, 3, 4)]
prop("C25", [_sw("pre%d_%d%d%d%d%s" % ((p,) + l + (("", "")[t == _DEEP],)), "VP_CHECK", 2, p, ["PL=%d" % l[0], "TL=%d" % l[1], "CL=%d" % l[2], "DL=%d" % l[3]] +
                 (["VALID"] if (p in (5, 7, 13) and l[2] == 4) or (p in (9, 10, 11, 13, 14) and l[3] == 4) or (p == 15 and 4 in l[2:]) else []),
                 "payload %d, temporary payload %d, checksum %d, temporary checksum %d bytes, any contents; %s" % (l + (_pre(p),)), tiers=t)
             for p, l, t in dict(((p, l), (p, l, t)) for p, l, t in reversed(_CHK)).values()] +
     [Job("crc%d" % n, "safew.c", ["VP_CRC", "LEN=%d" % n], unwind=20, cflags=["-I%s/src" % REPO], backends=[SAT, CADICAL, SMT_CVC5, SMT_Z3], bound="checksum of any %d bytes" % n) for n in (0, 1, 3, 5)],
     assumptions=_SWA)
