"""Registers a planted bug: python3 tools/mkseed.py DESC.py
DESC.py defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (Go test source, package demo, test TestDemo)
or DEMO_SH, and optionally FILES {name: text}.  The change is confirmed in a scratch copy: it builds, the stable tests
pass, the demonstration passes without it and fails with it.  Writes /verif/seeded/<ID>."""
import json, os, shutil, subprocess, sys, tempfile

SH = r'''#!/bin/bash
# cwd: the repository. Exit 0: the behaviour is right; anything else: it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export DEMO_TMP="$tmp/scratch" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
mkdir -p "$DEMO_TMP"
printf '{"Replace":{"%s/1pass-app/test/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$repo" "$here" > "$tmp/o.json"
sed "s#\.\./1pass-#$repo/1pass-#" "$repo/1pass-app/go.mod" > "$tmp/go.mod"
cp "$repo/1pass-app/go.sum" "$tmp/go.sum"
cd "$repo/1pass-app" && go test -c -o "$tmp/demo.test" -vet=off -modfile "$tmp/go.mod" -overlay "$tmp/o.json" ./test/zzdemo &&
	cd "$DEMO_TMP" && timeout 200 "$tmp/demo.test" -test.run '^TestDemo$'
'''
# The same with the application binary built as well (release feed and cache redirected)
d = {}
exec(open(sys.argv[1]).read(), d)
ID = d["ID"]
out = "/verif/seeded/" + ID
tmp = tempfile.mkdtemp(prefix="seed")
try:
    work = tmp + "/repo"
    subprocess.run(["cp", "-a", "/repo", work], check=True)
    for f, old, new in d["EDITS"]:
        p = os.path.join(work, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    subprocess.run(["gofmt", "-l"] + [e[0] for e in d["EDITS"]], cwd=work)
    diff = subprocess.run(["git", "diff"], cwd=work, capture_output=True, text=True, check=True).stdout
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(d.get("DEMO_SH", SH))
    os.chmod(out + "/demo.sh", 0o755)
    if "DEMO" in d:
        open(out + "/demo_test.go", "w").write(d["DEMO"].lstrip())
    for n, t in d.get("FILES", {}).items():
        open(out + "/" + n, "w").write(t)
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
    ok = True
    for m in ("core", "parse", "up", "term", "app"):
        r = subprocess.run(["go", "build", "./..."], cwd=work + "/1pass-" + m, env=env, capture_output=True, text=True)
        if r.returncode:
            print("BUILD", m, r.stderr); ok = False
        r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-p", "1", "./..."], cwd=work + "/1pass-" + m, env=env, capture_output=True, text=True)
        if r.returncode:
            print("TESTS", m, r.stdout[-2000:]); ok = False
        subprocess.run(["git", "checkout", "-q", "assets"], cwd=work)
    r = subprocess.run([out + "/demo.sh"], cwd=work, capture_output=True, text=True)
    print("demo with the patch:", r.returncode, (r.stdout + r.stderr)[-700:])
    ok = ok and r.returncode != 0
    subprocess.run(["git", "checkout", "-q", "."], cwd=work)
    r = subprocess.run([out + "/demo.sh"], cwd=work, capture_output=True, text=True)
    print("demo without:", r.returncode, (r.stdout + r.stderr)[-700:] if r.returncode else "")
    ok = ok and r.returncode == 0
    print("OK" if ok else "NOT KEPT: " + ID)
    if not ok:
        shutil.rmtree(out)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
