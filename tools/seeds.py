#!/usr/bin/env python3
"""Write and confirm planted bugs.  tools/seeds/*.py each define SEEDS entries; this
writes seeded/<id>/ and, with --confirm, checks them in a scratch copy of /repo.
usage: seeds.py [--confirm] [--check] [id...]"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ULOG = open(os.path.join(ROOT, "harness/include/ulog.h")).read()
DEMO = """#!/bin/bash
# exit 0 when the property holds, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
export ASAN_OPTIONS=detect_leaks=0 UBSAN_OPTIONS=halt_on_error=1
%s -w -g %s -D_FILE_OFFSET_BITS=64 -I"$d" -Iinclude "$d"/%s %s -o "$t/demo" %s -lpthread || exit 98
cd "$t" && timeout 120 ./demo
"""


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(ROOT, "tools/seeds/*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def patched(s):
    txt = open(os.path.join(REPO, s["file"])).read()
    for old, new in s["edits"]:
        assert txt.count(old) >= 1, (s["id"], "edit not found", old)
        if s.get("last"):
            i = txt.rindex(old)
            txt = txt[:i] + new + txt[i + len(old):]
        else:
            txt = txt.replace(old, new, 1)
    return txt


def write(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        a, b = os.path.join(t, "a", s["file"]), os.path.join(t, "b", s["file"])
        for p in (a, b):
            os.makedirs(os.path.dirname(p))
        shutil.copy(os.path.join(REPO, s["file"]), a)
        open(b, "w").write(patched(s))
        r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a/" + s["file"], "b/" + s["file"]], cwd=t, capture_output=True, text=True)
        open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
    cxx = s.get("cxx")
    demo = "demo.cpp" if cxx else "demo.c"
    open(os.path.join(d, demo), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(d, "ulog.h"), "w").write(ULOG)
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(DEMO % ("g++ -std=c++11" if cxx else "gcc -std=gnu17", s.get("san", "-fsanitize=address,undefined"), demo, " ".join(s.get("src", [])), s.get("ld", "")))
    os.chmod(p, 0o755)
    meta = {"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}
    old = os.path.join(d, "meta.json")
    if os.path.exists(old):
        c = json.load(open(old)).get("caught")
        if c:
            meta["caught"] = c
    json.dump(meta, open(old, "w"), indent=1)
    return d


def confirm(s, d):
    t = tempfile.mkdtemp(prefix="vpseed_")
    c = os.path.join(t, "repo")
    try:
        subprocess.run(["cp", "-a", REPO, c], check=True)
        def run(*a, **k):
            return subprocess.run(a, cwd=c, capture_output=True, text=True, **k)
        env = dict(os.environ)
        r = run(os.path.join(d, "demo.sh"))
        if r.returncode:
            return "demo fails on the unchanged tree (%d): %s" % (r.returncode, (r.stdout + r.stderr)[-1500:])
        r = run("git", "apply", "--check", os.path.join(d, "patch.diff"))
        if r.returncode:
            return "patch does not apply: " + r.stderr
        run("git", "apply", os.path.join(d, "patch.diff"))
        r = run(os.path.join(d, "demo.sh"))
        if r.returncode == 0 or r.returncode in (98, 99):
            return "demo with the patch: %d %s" % (r.returncode, (r.stdout + r.stderr)[-1500:])
        msg = (r.stdout + r.stderr).strip().splitlines()
        # build and stable tests run on /repo itself: scripts name it
        subprocess.run(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")], check=True)
        try:
            b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
            if b.returncode:
                return "build fails: " + (b.stdout + b.stderr)[-800:]
            o = os.path.join(t, "out.json")
            subprocess.run(["bash", "/opt/vp/test.sh", o], capture_output=True, text=True)
            res = json.load(open(o))
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            ok = set(res.get("passed", res.get("pass", [])))
            if not base <= ok:
                return "stable tests fail: %s" % sorted(base - ok)
            if "--check" in sys.argv:
                k = subprocess.run([os.path.join(ROOT, "check"), s["property"]], capture_output=True, text=True, cwd=ROOT)
                v = [l for l in k.stdout.splitlines() if l.startswith("VIOLATION")]
                caught = k.returncode == 1 and any("property=" + s["property"] in l for l in v)
                m = json.load(open(os.path.join(d, "meta.json")))
                m["caught"] = s["property"] if caught else "missed"
                json.dump(m, open(os.path.join(d, "meta.json"), "w"), indent=1)
                return "ok, check: %s %s" % ("CAUGHT" if caught else "MISSED rc=%d" % k.returncode, (v[:1] or k.stdout.splitlines()[-3:]))
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "--", "."], check=True)
            subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
        return "ok (%s)" % (msg[0][:100] if msg else "")
    finally:
        shutil.rmtree(t)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    seeds = load()
    for i, s in seeds.items():
        if args and i not in args:
            continue
        d = write(s)
        print(i, s["property"], confirm(s, d) if "--confirm" in sys.argv else "written", flush=True)


main()
