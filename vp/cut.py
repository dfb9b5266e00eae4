"""Preparation step: replace chosen functions of a source file by harness contracts.

The file is copied from /repo's working tree on every run; the definition of each
cut function is renamed to vp_orig_<name> and everything else is left as it is.
A function that is not found makes the job inconclusive, not a violation.
"""
import os, re


def strip_map(txt):
    """Same length text with comments, strings and character constants blanked."""
    out = list(txt)
    for m in re.finditer(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', txt, re.S):
        for i in range(m.start(), m.end()):
            if out[i] != "\n":
                out[i] = " "
    return "".join(out)


def rename_definition(txt, fn):
    t = strip_map(txt)
    depth, i, found = 0, 0, None
    for m in re.finditer(r"[{}]|\b%s\b" % re.escape(fn), t):
        s = m.group(0)
        if s == "{":
            depth += 1
        elif s == "}":
            depth -= 1
        elif depth == 0:
            j = m.end()
            while j < len(t) and t[j].isspace():
                j += 1
            if j < len(t) and t[j] == "(":
                k, d = j, 0
                while k < len(t):
                    if t[k] == "(":
                        d += 1
                    elif t[k] == ")":
                        d -= 1
                        if d == 0:
                            break
                    k += 1
                rest = t[k + 1:].lstrip()
                if rest.startswith("{"):
                    found = (m.start(), m.end(), k + 1)
                    break
    if not found:
        from vp.driver import CheckError
        raise CheckError("function %s, to be replaced by its contract, was not found" % fn)
    # keep the declaration where the definition was, so that callers still see it
    b = max(t.rfind(";", 0, found[0]), t.rfind("}", 0, found[0])) + 1
    line = t.rfind("\n#", 0, found[0])
    if line >= b:
        b = t.index("\n", line + 1) + 1
    decl = " ".join(t[b:found[2]].split())
    return txt[:b] + " " + decl + "; " + txt[b:found[0]] + "vp_orig_" + fn + txt[found[1]:]


def cut(path, fns):
    """prep function for a Job: harness includes VP_SRC instead of the file."""
    def prep(ctx, job):
        from vp import driver
        txt = open(os.path.join(driver.REPO, path)).read()
        for f in fns:
            txt = rename_definition(txt, f)
        copy = os.path.join(ctx.outdir, job.name + "_" + os.path.basename(path))
        with open(copy, "w") as h:
            h.write('#line 1 "%s"\n' % os.path.join(driver.REPO, path) + txt)
        wrap = os.path.join(ctx.outdir, job.name + "_wrap.c")
        with open(wrap, "w") as h:
            h.write('#define VP_SRC "%s"\n#define VP_CUT 1\n#include "%s"\n' % (copy, os.path.join(driver.HARN, job.harness)))
        return wrap
    return prep
