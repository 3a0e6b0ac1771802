#!/usr/bin/env python3
"""plant.py BUGS.py [ids]: make and confirm planted bugs in scratch worktrees, keep the confirmed ones in seeded/.

BUGS.py defines BUGS = [(id, property, [(file, old, new)...], demo, needs, breaks)].
demo is the body of demo.sh; PRO below is put in front of it.
"""
import concurrent.futures, json, os, runpy, shutil, subprocess, sys, tempfile, threading
REPO = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRO = '''#!/bin/bash
# exit 0 when the property holds for this input, 1 when it is broken
export HOME=/root LANG=C.UTF-8 TZ=UTC PATH=/opt/veriftools/go1.24.13/bin:/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off
export GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=1
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3; trap '/bin/rm -rf "$T"' EXIT
go build -o "$T/gosec" ./cmd/gosec || exit 3
mkdir -p "$T/m" && cp go.sum "$T/m/go.sum" && cd "$T/m" && printf 'module m\\n\\ngo 1.24\\n' > go.mod || exit 3
'''
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.24.13/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="1")
L = threading.Lock()

def one(b):
    bid, prop, edits, demo, needs, breaks = b
    w = tempfile.mkdtemp(prefix="pw-", dir="/tmp")
    os.rmdir(w)
    with L:
        subprocess.run(["git", "-C", REPO, "worktree", "add", "-q", "--detach", w, "HEAD"], check=True)
    try:
        d = tempfile.mkdtemp(prefix="pd-", dir="/tmp")
        p = os.path.join(d, "demo.sh")
        open(p, "w").write(PRO + demo.lstrip("\n"))
        os.chmod(p, 0o755)
        for f, o, n in edits:
            s = open(os.path.join(w, f)).read()
            if s.count(o) != 1:
                return bid, "edit of %s matches %d times" % (f, s.count(o))
        r = subprocess.run([p], cwd=w, capture_output=True, text=True, timeout=300)
        if r.returncode != 0:
            return bid, "demo fails on the unchanged tree (%d): %s" % (r.returncode, (r.stdout + r.stderr)[-1500:])
        for f, o, n in edits:
            q = os.path.join(w, f)
            s = open(q).read()
            open(q, "w").write(s.replace(o, n))
        patch = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        r = subprocess.run(["go", "build", "./..."], cwd=w, env=ENV, capture_output=True, text=True)
        if r.returncode:
            return bid, "does not build: " + r.stderr[-800:]
        r = subprocess.run([p], cwd=w, capture_output=True, text=True, timeout=300)
        if r.returncode == 0:
            return bid, "demo passes with the patch: " + (r.stdout + r.stderr)[-1500:]
        if r.returncode == 3:
            return bid, "demo cannot run: " + (r.stdout + r.stderr)[-1500:]
        out = (r.stdout + r.stderr)[-300:]
        r = subprocess.run(["go", "test", "-vet=off", "./..."], cwd=w, env=ENV, capture_output=True, text=True)
        if r.returncode:
            return bid, "tests fail: " + "\n".join(x for x in r.stdout.split("\n") if "FAIL" in x or "Fail" in x)[-900:]
        k = os.path.join(V, "seeded", bid)
        os.makedirs(k, exist_ok=True)
        open(os.path.join(k, "patch.diff"), "w").write(patch)
        shutil.copy(p, os.path.join(k, "demo.sh"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(k, "meta.json"), "w"), indent=1)
        return bid, "KEPT " + out.replace("\n", " | ")
    except subprocess.TimeoutExpired:
        return bid, "timeout"
    finally:
        with L:
            subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", w])
        shutil.rmtree(d, ignore_errors=True)

bugs = runpy.run_path(sys.argv[1])["BUGS"]
if len(sys.argv) > 2:
    bugs = [b for b in bugs if b[0] in sys.argv[2:]]
with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for bid, msg in ex.map(one, bugs):
        print(bid, "::", msg, flush=True)
