#!/usr/bin/env python3
"""Tries planted bugs: plant.py [-n] [id...]: applies each patch to /repo, builds, tests, runs its demo and the checks.

-n: only the checks (no build, test, demo).  Leaves /repo as it was."""
import json, os, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def restore():
    sh("git -C /repo checkout -- .")


def main():
    args = sys.argv[1:]
    quick = "-n" in args
    ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
    if sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip():
        sys.exit("/repo is not clean")
    base = None
    for i in ids:
        d = "%s/seeded/%s" % (ROOT, i)
        meta = json.load(open(d + "/meta.json"))
        out = [i, meta["property"]]
        try:
            if not quick:
                sh("bash /opt/vp/build.sh")
                r = sh("bash %s/demo.sh" % d, cwd="/repo")
                out.append("clean-demo=%d" % r.returncode)
                if r.returncode:
                    print(r.stderr[-600:])
            r = sh("git -C /repo apply %s/patch.diff" % d)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stderr[:300]); continue
            if not quick:
                r = sh("bash /opt/vp/build.sh")
                out.append("build=%d" % r.returncode)
                if r.returncode:
                    print(r.stderr[-800:])
                r = sh("bash /opt/vp/test.sh /tmp/plant.json")
                want = json.load(open("/opt/vp/BASELINE.json"))
                got = json.load(open("/tmp/plant.json"))
                out.append("tests=%s" % verdict(want, got))
                r = sh("bash %s/demo.sh" % d, cwd="/repo")
                out.append("bug-demo=%d" % r.returncode)
            r = sh("./check all", cwd=ROOT)
            hits = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
            out.append("checks=%d" % r.returncode)
            out.append("CAUGHT" if meta["property"] in hits else "MISSED")
            out.append(",".join(hits))
            if r.returncode not in (0, 1):
                out.append(r.stderr[-300:])
        finally:
            restore()
        print(*out, flush=True)
    if not quick:
        sh("bash /opt/vp/build.sh")


def verdict(want, got):
    def names(x, k):
        v = x.get(k) if isinstance(x, dict) else None
        return set(v) if isinstance(v, (list, dict)) else set()
    w = set()
    for k in ("stable", "passed", "pass", "tests"):
        w |= names(want, k)
    g = names(got, "passed") | names(got, "pass")
    return "ok" if w and w <= g else "missing:%d" % len(w - g)


main()
