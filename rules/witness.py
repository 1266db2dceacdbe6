"""Compile-fail witnesses: each witness is one line of client code that the type checker has to accept or to reject."""
import os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import qa

CXX = "/usr/bin/clang++-18"


class Witness:
    __slots__ = ("code", "ok", "rule", "where")

    def __init__(self, code, ok, rule, where):
        self.code = code; self.ok = ok; self.rule = rule; self.where = where


def verdicts(pre, ws, release):
    """for every witness: the first error the compiler reports for it, or None"""
    with tempfile.TemporaryDirectory(prefix="witness") as td:
        src = os.path.join(td, "witness.cpp")
        head = pre.rstrip("\n").split("\n")
        with open(src, "w") as f:
            f.write("\n".join(head + [w.code.replace("@", "w%d" % i) for i, w in enumerate(ws)]) + "\n")
        fl = [x for x in qa.flags(release) if not x.startswith("-ferror-limit")]
        r = subprocess.run([CXX, "-fsyntax-only", "-ferror-limit=0", "-ftemplate-backtrace-limit=0", "-fno-caret-diagnostics", "-fno-color-diagnostics"] + fl + [src], capture_output=True, text=True, timeout=600)
    out = [None] * len(ws); stray = []
    cur, hit = None, False
    anyhit = False   # the compiler prints the way to an error only when it differs from that of the error before
    for ln in r.stderr.splitlines():
        m = re.match(r"(?:In file included from )?(.*?):(\d+):(?:\d+:)? ?(fatal error|error|note|warning)?:?(.*)", ln)
        if not m:
            continue
        if m.group(3) in ("error", "fatal error"):
            if cur is not None and not hit and not anyhit:
                stray.append(cur)
            cur, hit = ln, False
        if cur is None:
            continue
        if m.group(1) == src and m.group(3) in ("error", "fatal error", "note"):
            i = int(m.group(2)) - 1 - len(head)
            if 0 <= i < len(ws):
                hit = anyhit = True
                out[i] = out[i] or cur.split("error: ", 1)[-1][:200]
    if cur is not None and not hit and not anyhit:
        stray.append(cur)
    return out, stray, r.returncode


def decide(R, jobs):
    """jobs: (preamble, witnesses, release, label); witnesses that instantiate the same templates belong to different jobs"""
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: verdicts(*j[:3]), jobs))
    for (pre, ws, release, label), (out, stray, rc) in zip(jobs, res):
        if stray:
            raise qa.Broken("%s: errors outside the witnesses: %s" % (label, stray[0][:300]))
        if any(out) != (rc != 0):
            raise qa.Broken("%s: the compiler's verdict could not be attributed to witnesses" % label)
        for w, e in zip(ws, out):
            R.count("obligations"); R.count("witnesses to accept" if w.ok else "witnesses to reject")
            if w.ok and e:
                R.violation(w.where, w.rule, "%s: %s" % (label, w.code), "does not compile: " + e)
            elif not w.ok and not e:
                R.violation(w.where, w.rule, "%s: %s" % (label, w.code), "compiles")
