"""Replays a rejected property against the real code: builds /repo's current tree together with the harness of
/verif/replay (through an overlay, nothing is written in /repo) and searches for an input that misbehaves.
The code under test runs as an unprivileged user in a scratch directory."""
import glob
import json
import os
import re
import shutil
import socket
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
UID = 65534


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", CGO_ENABLED="0")
    return e


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def build(tmp, scratch):
    """test binary and application with the release feed and the cache directory redirected"""
    port = free_port()
    cache = os.path.join(scratch, "cache")
    rep = {}
    for f in glob.glob(REPO + "/**/*.go", recursive=True):
        if f.endswith("_test.go"):
            continue
        s = open(f, encoding="utf-8", errors="surrogateescape").read()
        n = s.replace("https://api.github.com/repos/mashmb/1pass/releases", "http://127.0.0.1:%d/releases" % port).replace('"/tmp/1pass"', '"%s"' % cache)
        if n != s:
            g = os.path.join(tmp, "o%d.go" % len(rep))
            open(g, "w", encoding="utf-8", errors="surrogateescape").write(n)
            rep[f] = g
    for f in glob.glob(os.path.join(VERIF, "replay", "*_test.go")):
        rep[os.path.join(REPO, "1pass-app/test/verif", os.path.basename(f))] = f
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    mod = os.path.join(tmp, "go.mod")
    # copies, so that the tool never writes in /repo
    s = open(os.path.join(REPO, "1pass-app/go.mod")).read().replace("../1pass-", REPO + "/1pass-")
    open(mod, "w").write(s)
    shutil.copy(os.path.join(REPO, "1pass-app/go.sum"), os.path.join(tmp, "go.sum"))
    t, a = os.path.join(tmp, "replay.test"), os.path.join(tmp, "1pass")
    kw = dict(cwd=os.path.join(REPO, "1pass-app"), env=goenv(), capture_output=True, text=True, timeout=280)
    r1 = subprocess.Popen(["go", "build", "-modfile", mod, "-overlay", ov, "-o", a, "."], cwd=kw["cwd"], env=kw["env"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r2 = subprocess.run(["go", "test", "-vet=off", "-modfile", mod, "-overlay", ov, "-c", "-o", t, "./test/verif"], **kw)
    o1 = r1.communicate()[0]
    return t, a, port, cache, r1.returncode or r2.returncode, o1 + r2.stdout + r2.stderr


def replay(prop, seed, budget):
    """(failing input or None, log)"""
    tmp = tempfile.mkdtemp(prefix="verifreplay")
    try:
        os.chmod(tmp, 0o755)
        scratch = os.path.join(tmp, "scratch")
        os.mkdir(scratch)
        os.chown(scratch, UID, UID)
        t, a, port, cache, rc, log = build(tmp, scratch)
        if rc != 0:
            return None, "the harness does not build against this tree:\n" + log[-3000:]
        e = {"PATH": os.environ["PATH"], "HOME": scratch, "TMPDIR": scratch, "VERIF_SCRATCH": scratch, "VERIF_BIN": a, "VERIF_PORT": str(port), "VERIF_CACHE": cache,
             "VERIF_SEED": str(seed), "VERIF_BUDGET": str(budget), "TZ": "UTC", "TERM": "xterm"}
        try:
            r = subprocess.run([t, "-test.run", "^Test%s$" % prop, "-test.v", "-test.timeout", "%ds" % (budget * 2 + 60)], cwd=scratch, env=e, capture_output=True, text=True,
                               errors="replace", timeout=budget * 2 + 90, user=UID, group=UID, extra_groups=[], stdin=subprocess.DEVNULL)
            out = r.stdout + r.stderr
        except subprocess.TimeoutExpired as x:
            return None, "the harness did not end: %s" % x
        m = re.search(r"FAILING INPUT: (.*?)(?=\n--- FAIL|\nFAIL|\Z)", out, re.S)
        if m:
            return m.group(1).strip(), out[-6000:]
        cur = os.path.join(scratch, "current")
        if r.returncode != 0 and os.path.exists(cur) and "--- FAIL" not in out and "panic: test timed out" not in out:
            return open(cur, errors="replace").read() + "\n  the program ends itself: " + out.strip()[-300:], out[-6000:]
        if "no tests to run" in out:
            return None, "no replay harness for " + prop
        return None, out[-3000:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    import sys
    f, log = replay(sys.argv[1], int(os.environ.get("VERIF_SEED", "1")), int(sys.argv[2]) if len(sys.argv) > 2 else 20)
    print("failing input:", f)
    if f is None:
        print(log)
