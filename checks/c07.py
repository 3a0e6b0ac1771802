"""C07: build tags (spec: BuildSel.tla, BuildSelVal.tla)."""
import os, random

def constraint(f):
    k = f[0]
    if k == "tag":
        return f[1]
    if k == "not":
        return "!" + (constraint(f[1]) if f[1][0] == "tag" else "(%s)" % constraint(f[1]))
    op = " && " if k == "and" else " || "
    return "(%s)%s(%s)" % (constraint(f[1]), op, constraint(f[2]))

def formula(rng, depth=2):
    r = rng.random()
    if depth == 0 or r < .45:
        return ["tag", rng.choice(["foo", "bar", "baz", "foo", "linux", "windows", "ignore"])]
    if r < .65:
        return ["not", formula(rng, depth - 1)]
    return [rng.choice(["and", "or"]), formula(rng, depth - 1), formula(rng, depth - 1)]

NAMES = [("", ["true"])] * 6 + [("_linux", ["tag", "linux"]), ("_windows", ["tag", "windows"]), ("_amd64", ["tag", "amd64"]), ("_linux_arm64", ["and", ["tag", "linux"], ["tag", "arm64"]])]

def run(ctx):
    rng = ctx.rng
    cases = ctx.enumerate("BuildSel")
    old = ctx.tlc("BuildSel", "BuildSel_old.cfg", expect_ok=False)
    if old["rc"] == 0:
        ctx.log("note: the shared-configuration design has no counterexample any more")
    combos = [(c["tags"], c["k"], c["n"]) for c in cases]
    extra = ctx.pick(40, 600)
    for _ in range(extra):
        combos.append((rng.sample(["foo", "bar", "baz", "linux", "windows", "ignore", "other"], rng.randint(0, 4)), rng.choice([1, 2, 3, 8, 32]), rng.randint(1, 7)))
    ctx.cli()
    def one(job):
        n, (tags, k, npk) = job
        r = random.Random("%d/c07/%d" % (ctx.seed, n))
        files, pkgs = {}, []
        name = "c07_%d" % n
        for p in range(npk):
            d = "p%d" % p
            fs = []
            for i in range(r.choice([0, 1, 2, 3, 5])):
                suffix, nf = r.choice(NAMES)
                c = ["true"] if r.random() < .25 else formula(r)
                fn = "f%d%s.go" % (i, suffix)
                head = "" if c == ["true"] else "//go:build %s\n\n" % constraint(c)
                files["%s/%s" % (d, fn)] = head + "package p%d\n\nimport \"crypto/md5\"\n\nfunc F%d() { _ = md5.New() }\n" % (p, i)
                fs.append({"name": fn, "c": c, "n": nf})
            # pairs of files which exclude each other, and declarations used across the selection
            if r.random() < .5:
                t = r.choice(["foo", "bar"])
                for neg in (False, True):
                    c = ["not", ["tag", t]] if neg else ["tag", t]
                    fn = "alt_%s%s.go" % ("no" if neg else "", t)
                    files["%s/%s" % (d, fn)] = "//go:build %s\n\npackage p%d\n\nimport \"crypto/md5\"\n\nfunc Alt() int { _ = md5.New(); return 1 }\n" % (constraint(c), p)
                    fs.append({"name": fn, "c": c, "n": ["true"]})
                files["%s/use.go" % d] = "package p%d\n\nimport \"crypto/md5\"\n\nvar X = Alt()\n\nfunc Use() { _ = md5.New() }\n" % p
                fs.append({"name": "use.go", "c": ["true"], "n": ["true"]})
                # and by a package which sees them only under the tag
                if r.random() < .6:
                    u = "u%d" % p
                    files["%s/u.go" % u] = "//go:build %s\n\npackage u\n\nimport (\n\t\"crypto/md5\"\n\tq \"%s/%s\"\n)\n\nvar X = q.Only%s()\n\nfunc F() { _ = md5.New() }\n" % (t, name, d, t)
                    files["%s/only.go" % d] = "//go:build %s\n\npackage p%d\n\nimport \"crypto/md5\"\n\nfunc Only%s() int { _ = md5.New(); return 1 }\n" % (t, p, t)
                    fs.append({"name": "only.go", "c": ["tag", t], "n": ["true"]})
                    pkgs.append({"dir": u, "files": [{"name": "u.go", "c": ["tag", t], "n": ["true"]}]})
            if fs:
                pkgs.append({"dir": d, "files": fs})
        if not pkgs:
            return None
        r.shuffle(pkgs)
        root = ctx.module(name, files)
        args = ["-include=G401", "-concurrency=%d" % k]
        if tags:
            args.append("-tags=" + ",".join(tags))
        whole = r.random() < .4
        paths = ["./..."] if whole else ["./" + p["dir"] for p in pkgs]
        rep = ctx.must_scan(root, args, paths=paths, env={"GOMAXPROCS": str(r.choice([1, 2, 8]))})
        if rep is None:
            return None
        return {"tags": tags, "pkgs": pkgs, "found": [os.path.relpath(i["file"], root) for i in rep["Issues"]],
                "errs": sum(len(v) for v in rep["Golang errors"].values()), "numFiles": rep["Stats"]["files"], "errtext": str(rep["Golang errors"])[:600], "args": args + paths}
    obs = [x for x in ctx.pool(one, list(enumerate(combos)), workers=7) if x]
    for i, why in ctx.validate("BuildSelVal", obs).items():
        x = obs[i]
        ctx.fail("tags", "%s; gosec %s; %s" % ("; ".join(sorted(why))[:500], " ".join(x["args"]), x["errtext"]), {"why": why, "obs": x})
    ctx.sample({k: obs[-1][k] for k in ("tags", "found", "numFiles", "args")})
    return ctx.finish(scans=len(obs), enumerated=len(cases), random=extra)
