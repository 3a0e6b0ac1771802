"""C06: concurrent scans (spec: Pool.tla refining Scan.tla, PoolVal.tla)."""
import os, random, re, stat

KINDS = ["ok", "faulty", "broken", "empty", "missing", "dead"]

def make(ctx, name, kinds, rng):
    """A module with one directory per entry of kinds; returns (root, facts)."""
    files, want, nfiles, nlines = {}, {}, {}, {}
    for d, kind in kinds.items():
        want[d], nfiles[d], nlines[d] = [], 0, 0
        if kind == "missing":
            continue
        if kind == "empty":
            files[d + "/x.go"] = "//go:build neverever\n\npackage p\n"
            continue
        n = rng.randint(1, 3)
        for i in range(n):
            L = ["package p%s" % re.sub(r"\W", "", d), "", 'import "crypto/md5"', ""]
            fn = "f%d.go" % i
            for j in range(rng.randint(0, 3)):
                L += ["var V%d_%d = %d" % (i, j, j)]
            L += ["func F%d(n int) {" % i]
            for j in range(rng.randint(1, 3)):
                L += ["\t_ = md5.New()"]
                want[d].append({"dir": d, "file": fn, "rule": "G401", "line": len(L)})
            if kind == "ok":
                L += ["\t_ = int8(n)"]
                want[d].append({"dir": d, "file": fn, "rule": "G115", "line": len(L)})
            L += ["}"]
            if kind in ("faulty",) and i == 0:
                L += ["var Wrong int = \"text\""]
            if kind == "broken" and i == 0:
                files[d + "/other.go"] = "package completelyother\n"
            want[d].append({"dir": d, "file": fn, "rule": "G501", "line": 3})
            text = "\n".join(L) + "\n"
            files[d + "/" + fn] = text
            nfiles[d] += 1
            nlines[d] += len(L)
    root = ctx.module(name, files)
    for d in kinds:
        if kinds[d] == "empty":
            os.makedirs(os.path.join(root, d), exist_ok=True)
    return root, {"want": want, "files": nfiles, "lines": nlines}

def run(ctx):
    rng = ctx.rng
    cases = ctx.enumerate("Pool")
    if ctx.thorough:
        ctx.model("Pool", "Pool3.cfg", timeout=3000)
    # a packages driver which delays (or fails) the load of some directories
    drv = ctx.write("bin/pkgdriver", '#!/bin/sh\nfor d in $SLOW_DIRS; do case " $*" in *"$d/"*) sleep 0.$SLOW_BY;; esac; done\n'
                    'for d in $DEAD_DIRS; do case " $*" in *"$d/"*) echo "driver died" >&2; exit 3;; esac; done\ncat >/dev/null\necho \'{"NotHandled":true}\'\n')
    os.chmod(drv, 0o755)
    rng.shuffle(cases)
    multi = [c for c in cases if len(c["paths"]) > 1]
    jobs = []
    for c in multi[:ctx.pick(90, 1500)]:
        jobs.append((c["paths"], c["kinds"], rng.choice([1, 2, 3, 8])))
    for _ in range(ctx.pick(40, 500)):
        n = rng.choice([2, 4, 6, 9, 12])
        name = rng.choice(["q%02d", "q%02d/api", "q/%02d", "v%d.x/a-b"])
        kinds = {name % i: rng.choice(KINDS[:1] * 3 + KINDS) for i in range(n)}
        paths = [rng.choice(list(kinds)) for _ in range(rng.randint(1, n + 2))] if rng.random() < .4 else rng.sample(list(kinds), n)
        jobs.append((paths, kinds, rng.choice([1, 2, 3, 5, 8, 32])))
    # every position of one failing package among many, few workers
    for bad in ("broken", "dead", "faulty", "missing", "empty"):
        for pos in range(0, 7, ctx.pick(2, 1)):
            kinds = {"r%d" % i: "ok" for i in range(7)}
            kinds["r%d" % pos] = bad
            jobs.append((sorted(kinds), kinds, rng.choice([1, 2, 4])))
    n_big = ctx.pick(2, 8)
    for i in range(n_big):
        kinds = {"s%02d" % i: rng.choice(["ok", "ok", "ok", "faulty", "empty"]) for i in range(40)}
        jobs.append((sorted(kinds, key=lambda x: rng.random()), kinds, rng.choice([4, 16, 64])))
    ctx.cli()
    def one(job):
        n, (paths, kinds, k) = job
        r0 = random.Random("%d/%d" % (ctx.seed, n))
        root, facts = make(ctx, "c06_%d" % n, kinds, r0)
        dead = [d for d in kinds if kinds[d] == "dead"]
        env = {"GOPACKAGESDRIVER": drv, "DEAD_DIRS": " ".join("./" + d for d in dead) + " " + " ".join(dead), "SLOW_DIRS": "", "SLOW_BY": "1", "GOMAXPROCS": str(r0.choice([1, 2, 4, 8]))}
        if len(paths) > 1 and r0.random() < .5:
            env["SLOW_DIRS"] = " ".join(r0.sample(sorted(set(paths)), max(1, len(set(paths)) // 4)))
        spelled = []
        for p in paths:
            spelled.append(r0.choice(["./" + p, p, "./" + p, os.path.join(root, p)]) if paths.count(p) == 1 else "./" + p)
        if r0.random() < .3:
            spelled = [s + "/..." if kinds[p] != "missing" and r0.random() < .5 else s for s, p in zip(spelled, paths)]
        args = ["-include=G401,G115,G501", "-concurrency=%d" % k]
        rep, r = ctx.scan(root, args, paths=spelled, env=env, timeout=120)
        if rep is None:
            if r["timeout"]:
                ctx.fail("hang", "the scan of %s (%s) with %d workers does not terminate" % (paths, kinds, k), {"paths": paths, "kinds": kinds, "k": k})
            elif "No packages found" in r["err"]:
                return None
            else:
                ctx.fail("noreport", "the scan of %s (%s) with %d workers ends without a report: %s" % (paths, kinds, k, r["err"][-700:]), {"paths": paths, "kinds": kinds, "k": k})
            return None
        found = [{"dir": os.path.relpath(os.path.dirname(i["file"]), root), "file": os.path.basename(i["file"]), "rule": i["rule_id"], "line": int(i["line"].split("-")[0])} for i in rep["Issues"]]
        errs = set()
        for f, es in rep["Golang errors"].items():
            if f == "":
                for e in es:
                    m = re.search(r"^(\S+?)/[^/]*\.go:", e["error"], re.M)
                    if m:
                        errs.add(m.group(1))
                continue
            d = os.path.relpath(os.path.join(root, f), root)
            errs.add(d if d in kinds else os.path.dirname(d))
        ev = []
        for ln in r["err"].split("\n"):
            m = re.search(r"Import directory: (.*)$", ln)
            if m:
                ev.append({"ev": "import", "dir": os.path.relpath(m.group(1), root), "file": ""})
            m = re.search(r"Checking file: (.*)$", ln)
            if m:
                ev.append({"ev": "file", "dir": os.path.relpath(os.path.dirname(m.group(1)), root), "file": os.path.relpath(m.group(1), root)})
        if not (any(e["ev"] == "import" for e in ev) and any(e["ev"] == "file" for e in ev)):
            ev = []
        return dict(facts, paths=paths, kinds=kinds, found=found, errs=sorted(errs), numFiles=rep["Stats"]["files"],
                    numLines=rep["Stats"]["lines"], events=ev, finished=True, k=k)
    obs = [x for x in ctx.pool(one, list(enumerate(jobs)), workers=6) if x]
    bad = ctx.validate("PoolVal", obs)
    for i, why in bad.items():
        x = obs[i]
        ctx.fail("pool", "%s; paths %s of %s with %d workers" % ("; ".join(sorted(why))[:500], x["paths"], x["kinds"], x["k"]), {"why": why, "paths": x["paths"], "kinds": x["kinds"], "k": x["k"]})
    # the same under the race detector: state shared by the workers is guarded
    race = ctx.build_race()
    kinds = {"t%02d" % i: ("ok", "ok", "faulty", "broken", "empty")[i % 5] for i in range(20)}
    root, _ = make(ctx, "c06_race", kinds, rng)
    for args in (["-concurrency=8"], ["-concurrency=8", "-tags=foo,bar", "-tests"]) * ctx.pick(1, 5):
        r = ctx.gosec(root, ["-fmt=json"] + args + sorted("./" + k for k in kinds), binary=race, env={"GORACE": "halt_on_error=0"})
        if "DATA RACE" in r["err"]:
            ctx.fail("race", "data race between the workers: " + r["err"][r["err"].index("WARNING: DATA RACE"):][:1500], {"stderr": r["err"][:8000]})
        if r["timeout"]:
            ctx.fail("hang", "the scan of 20 packages does not terminate", {})
    ctx.sample({k: obs[0][k] for k in ("paths", "kinds", "k", "errs", "numFiles", "events")})
    return ctx.finish(scans=len(obs), enumerated=len(cases), race_runs=ctx.pick(2, 10))
