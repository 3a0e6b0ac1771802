"""C12: path arguments (spec: Paths.tla, PathsVal.tla)."""
import os, random

def spell(r, top, rel, rec):
    """Ways to write the directory rel (below top, the working directory)."""
    p = "/".join(rel)
    forms = ["./" + p if p else ".", p or ".", os.path.join(top, p) if p else top]
    if p:
        forms += ["./" + p + "/", p + "/", "./" + rel[0] + "/../" + p, ".//" + p, os.path.join(top, p) + "/"]
    f = r.choice(forms)
    if rec:
        f = (f if f.endswith("/") else f + "/") + "..."
    return f

def regex(e):
    """the expression: "$" at the end stands for itself"""
    return "/".join(e[:-1]) + "$" if e[-1] == "$" else "/".join(e)

EXTRA_FILES = ["README.md", "x.go.txt", "go", "Makefile", "x.GO", "data.json", "xgo"]

def tree(ctx, n, r, go, dirs):
    top = os.path.join(ctx.scratch, "trees", str(n))
    os.makedirs(top)
    open(os.path.join(top, "go.mod"), "w").write("module t\n\ngo 1.24\n")
    for d in dirs:
        os.makedirs(os.path.join(top, *d), exist_ok=True)
        for f in r.sample(EXTRA_FILES, r.randint(0, 2)):
            open(os.path.join(top, *d, f), "w").write("x")
    for d in go:
        p = os.path.join(top, *d)
        os.makedirs(p, exist_ok=True)
        for i in range(r.randint(1, 3)):
            open(os.path.join(p, ["a.go", "z.go", "b.go"][i]), "w").write("package p\n\nimport \"crypto/md5\"\n\nfunc F%d() { _ = md5.New() }\n" % i)
    return top

def run(ctx):
    rng = ctx.rng
    cases = ctx.enumerate("Paths")
    rng.shuffle(cases)
    cases = cases[:ctx.pick(700, len(cases))]
    nm = {"a": "Qa", "b": "Qb"}     # expressions are not anchored: names which occur nowhere else
    ren = lambda ds: [[nm.get(x, x) for x in d] for d in ds]
    plans = [(ren(c["go"]), ren([c["root"]])[0], ren(c["excl"]), []) for c in cases]
    # no directory is named like a Go file: the existing tests pin that such a name makes its parent count
    names = ["a", "b", "vendor", "cmd", "internal", "test", "gen-x", "x.y", "sp ace", "é", "Vendo", "testdata", "_under", ".hidden", "deep"]
    for _ in range(ctx.pick(300, 4000)):
        dirs = [[]]
        for _ in range(rng.randint(1, 14)):
            base = rng.choice(dirs)
            if len(base) < 5:
                dirs.append(base + [rng.choice(names)])
        uniq = [list(x) for x in sorted({tuple(d) for d in dirs})]
        go = [d for d in uniq if rng.random() < .5]
        ex = []
        for _ in range(rng.randint(0, 2)):
            d = rng.choice(uniq)
            if d:
                i = rng.randrange(len(d))
                e = d[i:i + rng.randint(1, 2)]
                # expressions are not anchored: keep those which are no part of other names
                if all(x in ("cmd", "internal", "deep", "a-", "testdata", "vendor") for x in e):
                    ex.append(e + ["$"] if rng.random() < .4 else e)
        plans.append((go, rng.choice(uniq), ex, uniq))
    req, obs = [], []
    tops = {}
    for n, (go, root, ex, dirs) in enumerate(plans):
        r = random.Random("%d/c12/%d" % (ctx.seed, n))
        top = tree(ctx, n, r, [d for d in go], dirs)
        tops[n] = top
        rec = r.random() < .9
        # the driver changes into nothing: use absolute spellings and relative ones from the scratch directory
        p = os.path.join(top, *root)
        rel = os.path.relpath(p, ctx.scratch)
        arg = r.choice([p, rel, "./" + rel, p + "/", rel + "/", os.path.join(rel, "..", os.path.basename(p))])
        if rec:
            arg = (arg if arg.endswith("/") else arg + "/") + "..."
        req.append({"Root": arg, "Excludes": ["vendor", "\\.git/"] + [regex(e) for e in ex]})
        obs.append({"kind": "expand", "go": [list(d) for d in go], "root": list(root), "excl": [["vendor"]] + ex, "plain": not rec, "got": None, "arg": arg})
    resp, p = ctx.drive("paths", req, cwd=ctx.scratch)
    if resp is None:
        raise RuntimeError("driver failed: " + (p.stderr if p else "timeout"))
    good = []
    for n, (o, x) in enumerate(zip(obs, resp)):
        if x["err"]:
            ctx.fail("expand:error", "PackagePaths(%r) fails: %s" % (o["arg"], x["err"]), o)
            continue
        if o["plain"]:
            if x["paths"] != [o["arg"]]:
                ctx.fail("plain", "PackagePaths(%r) = %s, a path without ... stands for itself" % (o["arg"], x["paths"]), o)
        got = []
        for q in x["paths"]:
            rel = os.path.relpath(os.path.join(ctx.scratch, q), tops[n])
            got.append([] if rel == "." else rel.split("/"))
        o["got"] = got
        good.append(o)
    # the whole command: several arguments in several spellings
    nscan = ctx.pick(110, 900)
    ctx.cli()
    def one(n):
        r = random.Random("%d/c12s/%d" % (ctx.seed, n))
        go, root, ex, dirs = plans[(n * 7 + 3) % len(plans)] if n % 3 else plans[-1 - n]
        top = tree(ctx, "s%d" % n, r, go, dirs)
        alld = [[]] + [d for d in dirs]
        args, argv = [], []
        for _ in range(r.choice([1, 1, 2, 3])):
            d = root if r.random() < .5 else r.choice(alld)
            if not os.path.isdir(os.path.join(top, *d)):
                continue
            rec = r.random() < .75
            args.append({"root": d, "plain": not rec})
            argv.append(spell(r, top, d, rec))
        flags = []
        useR = not args
        if useR:
            args, argv = [{"root": [], "plain": False}], []
            flags.append("-r")
        for e in ex:
            flags.append("-exclude-dir=" + regex(e))
        real = [d for d in go if os.path.exists(os.path.join(top, *d, "a.go"))]
        o = {"kind": "scan", "go": [list(d) for d in real], "args": args, "excl": [["vendor"]] + ex, "got": [], "argv": flags + argv}
        rep, run = ctx.scan(top, ["-include=G501"] + flags, paths=argv)
        if rep is None:
            if "No packages found" not in run["err"]:
                ctx.fail("scan", "gosec %s fails: %s" % (flags + argv, run["err"][-600:]), o)
                return None
        else:
            dirs_seen = {}
            for i in rep["Issues"]:
                dirs_seen.setdefault(i["file"], 0)
                dirs_seen[i["file"]] += 1
            for f, k in dirs_seen.items():
                if os.path.basename(f) == "a.go":
                    rel = os.path.relpath(os.path.dirname(f), top)
                    o["got"] += [[] if rel == "." else rel.split("/")] * k
        return o
    good += [o for o in ctx.pool(one, list(range(nscan)), workers=7) if o]
    # version control and vendored trees are left out by default wherever they are
    top = tree(ctx, "defaults", rng, [["a"], [".git", "refs", "x"], ["a", ".git", "hooks"], ["vendor", "m"], ["a", "vendor"], ["b"]], [])
    rep = ctx.must_scan(top, ["-include=G501", "-exclude-dir=b"])
    if rep is not None:
        seen = sorted({os.path.relpath(os.path.dirname(i["file"]), top) for i in rep["Issues"]})
        if seen != ["a"]:
            ctx.fail("defaults", "with -exclude-dir=b the scan of {a, b, .git/refs/x, a/.git/hooks, vendor/m, a/vendor} analyses %s" % seen, seen)
    bad = ctx.validate("PathsVal", good)
    for i, why in bad.items():
        o = good[i]
        ctx.fail("paths:" + o["kind"], "%s; %s exclusions %s; dirs with Go files %s" % ("; ".join(sorted(why))[:400], o.get("arg") or o.get("argv"), o["excl"], o["go"]), o)
    ctx.sample(good[0])
    return ctx.finish(expansions=len(req), scans=nscan, enumerated=len(cases))
