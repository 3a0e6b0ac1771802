#!/usr/bin/env python3
"""seedtest.py [ids]: run the check of each planted bug's property on a worktree with the bug; prints what caught it."""
import concurrent.futures, json, os, subprocess, sys, tempfile, threading
REPO = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = threading.Lock()
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))

def one(i):
    prop = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="st-", dir="/tmp")
    os.rmdir(w)
    with L:
        subprocess.run(["git", "-C", REPO, "worktree", "add", "-q", "--detach", w, "HEAD"], check=True)
    try:
        r = subprocess.run(["git", "-C", w, "apply", os.path.join(V, "seeded", i, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return i, "PATCH DOES NOT APPLY " + r.stderr[-200:]
        r = subprocess.run([os.path.join(V, "check"), prop, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True, timeout=900)
        v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION property=" + prop)]
        return i, ("caught (%d) %s" % (len(v), v[0][:150]) if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-400:]))
    finally:
        with L:
            subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", w])

with concurrent.futures.ThreadPoolExecutor(2) as ex:
    for i, m in ex.map(one, ids):
        print(i, "::", m, flush=True)
