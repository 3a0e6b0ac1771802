"""C23: no source text makes the scanner crash or hang (spec: Robust.tla, RobustVal.tla, Follow.tla, FollowVal.tla)."""
import glob, json, os, re
import compiling, declaring, mutate, samples, shapes, vk

CANARY = 'package %s\n\nimport canary "crypto/md5"\n\nvar _ = canary.New()\n\nfunc zconv%s(n int) int8 { return int8(n) }\n'
WHOLE = "G115"
def good_path(q):
    """import paths which the go command accepts"""
    try:
        p = json.loads(q) if q.startswith('"') else q.strip("`")
    except ValueError:
        return False
    return re.fullmatch(r"[A-Za-z0-9_~+][A-Za-z0-9._~+-]*(/[A-Za-z0-9_~+][A-Za-z0-9._~+-]*)*", p) is not None and p not in ("C", "main", "builtin", "unsafe/x")

def fault_kinds(x):
    """kinds of the files of one scanned directory, as far as they can be told from outside; None: not judged"""
    files = x["files"]
    heads = [f for f in files if f["head"]]
    pkgs = {f["pkg"] for f in files}
    bad = len(heads) < len(files) or len(pkgs) != 1 or not all(good_path(i) for f in files for i in f["imports"]) or not next(iter(pkgs)).isidentifier()
    if bad:
        return None
    return [("syntax" if not f["body"] else "type" if x["errors"] else "none") for f in files]

def explain(x):
    lines = x["detail"].split("\n")
    at = [l.strip() for l in lines if re.search(vk.REPO + r"/\S+\.go:\d+", l)]
    return "%s at %s" % (lines[0], " <- ".join(re.sub(r" \+0x\w+$", "", l.replace(vk.REPO + "/", "")) for l in at[:4]))

def run(ctx):
    for o in ("Crashes", "GivesUp", "Forgets"):
        if ctx.tlc("Robust", "Robust_%s.cfg" % o, expect_ok=False)["rc"] == 0:
            raise vk.CheckError("Robust.tla does not tell a scanner that %s from a good one" % o)
    if ctx.tlc("Follow", "Follow_Forgets.cfg", expect_ok=False)["rc"] == 0:
        raise vk.CheckError("Follow.tla does not tell a follower that forgets from a good one")
    trees = ctx.enumerate("Robust")
    out = ctx.path("tlc", "shapes.ndjson")
    ctx.tlc("Robust", env={"SHAPES": "1", "EMIT": out})
    every = [json.loads(l) for l in open(out)]
    graphs = ctx.enumerate("Follow")
    r = ctx.rng
    root = ctx.module("c23", {"go.sum": open(os.path.join(vk.REPO, "go.sum")).read()}, requires=("golang.org/x/crypto v0.37.0", "golang.org/x/sys v0.32.0 // indirect"))
    def put(rel, text):
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass"))
        return p
    obs, about = [], []
    def observe(o, what):
        obs.append(o); about.append(what)
    def scan(dirs, timeout, tests=False):
        ask = lambda ds: ctx.drive("robust", {"Dirs": ds, "Timeout": timeout, "Parallel": 8, "Tests": tests}, cwd=root, timeout=800)
        resp, p = ask(dirs)
        if resp is None:
            # a fatal error (stack overflow, out of memory, ...) cannot be caught: find the directory
            err = p.stderr if p else "no answer in time"
            left = list(dirs)
            while len(left) > 1:
                half = left[:len(left) // 2]
                one, q = ask(half)
                if one is None:
                    left, err = half, q.stderr if q else err
                else:
                    left = left[len(left) // 2:]
            files = {os.path.basename(f): open(f, errors="replace").read()[:50000] for f in glob.glob(left[0] + "/*.go")}
            ctx.fail("fatal", "the scanner died while scanning %s: %s" % (os.path.relpath(left[0], root), err[:1500]), {"stderr": err[:20000], "files": files})
        return resp

    # ---- unusual calls in unusual places
    def shape_dirs(lists, tag):
        dirs, spans = [], []
        for k, l in enumerate(lists):
            d = "%s%d" % (tag, k)
            put(d + "/zhelp.go", shapes.HELP)
            sp = {}
            for style, items in l.items():
                text, lines = shapes.source(style, items, "%d%s" % (k, style[0]))
                put("%s/%s.go" % (d, style), text)
                sp[style] = (lines, text.count("\n"))
            put(d + "/zcanary.go", CANARY % ("p", ""))
            dirs.append(os.path.join(root, d)); spans.append(sp)
        return dirs, spans
    def judge_shapes(resp, dirs, spans, lists, typed):
        for d, x, sp, l in zip(dirs, resp, spans, lists):
            names = sorted(sp) + ["zcanary"]
            fs = set(x["finds"])
            ast = [[1, i + 1] for i, s in enumerate(names) if ("%s.go:%d:G401" % (s, sp[s][1]) if s != "zcanary" else "zcanary.go:5:G401") in fs]
            if x["outcome"] == "done" and any(not f["body"] for f in x["files"]):
                raise vk.CheckError("shapes that do not parse: %s" % [f["name"] for f in x["files"] if not f["body"]])
            kind = "none" if typed and not x["errors"] else "odd"
            observe({"tree": [[kind] * len(names)], "outcome": x["outcome"], "ast": ast, "whole": [1] if "zcanary.go:7:G115" in fs else [], "errs": [], "exit": 1},
                    lambda d=d, x=x, l=l: (d, x, l))
    count = ctx.pick(7500, 60000)
    chosen = r.sample(every, count)
    styles = ["plain", "plain", "plain", "alias", "dot", "shadow"]
    lists, per = [], 60
    for k in range(0, count, per * 4):
        part = chosen[k:k + per * 4]
        l = {}
        for s in part:
            l.setdefault(r.choice(styles), []).append(s)
        lists.append(l)
    dirs, spans = shape_dirs(lists, "shape")
    resp = scan(dirs, 120)
    if resp is None:
        return ctx.finish()
    judge_shapes(resp, dirs, spans, lists, False)
    # once more without what does not type-check, so that the analyzers of whole packages run
    typed = lists
    for turn in range(4):
        nxt = []
        for x, sp, l in zip(resp, spans, typed):
            bad = set(x["lines"])
            m = {}
            for style, items in l.items():
                if style == "dot":
                    continue
                keep = [s for s, (a, b) in zip(items, sp[style][0]) if not any("%s.go:%d" % (style, n) in bad for n in range(a, b + 1))]
                if keep:
                    m[style] = keep
            if m:
                nxt.append(m)
        if turn == 0:
            # fewer, fuller packages
            merged = []
            for m in nxt:
                if merged and sum(map(len, merged[-1].values())) < 150:
                    for s, i in m.items():
                        merged[-1].setdefault(s, []).extend(i)
                else:
                    merged.append(m)
            nxt = merged
        typed = nxt
        dirs, spans = shape_dirs(typed, "typed%d_" % turn)
        resp = scan(dirs, 120)
        if resp is None:
            return ctx.finish()
        if not any(x["errors"] for x in resp):
            break
    judge_shapes(resp, dirs, spans, typed, True)
    well = sum(len(i) for l, x in zip(typed, resp) if not x["errors"] for i in l.values())
    if well < count // 50:
        raise vk.CheckError("only %d of %d shapes type-check: %s" % (well, count, [x["lines"][:5] for x in resp][:3]))

    # ---- calls which compile, with values come by in unusual ways
    for k in ("TYPED", "TYPEDBASES"):
        ctx.tlc("Robust", env={k: "1", "EMIT": ctx.path("tlc", k + ".ndjson")})
    calls, bases = [[json.loads(l) for l in open(ctx.path("tlc", k + ".ndjson"))] for k in ("TYPED", "TYPEDBASES")]
    calls = [c + ["%d/%d" % (ctx.seed, i)] for i, c in enumerate(r.sample(calls, ctx.pick(5000, 60000)))]
    groups = [calls[k:k + 80] for k in range(0, len(calls), 80)]
    for turn in range(4):
        dirs, spans = [], []
        for k, g in enumerate(groups):
            d = "typ%d_%d" % (turn, k)
            put(d + "/zhelp.go", compiling.HELP)
            text, lines = compiling.source(bases, g, "k")
            put(d + "/typed.go", text)
            put(d + "/zcanary.go", CANARY % ("p", ""))
            dirs.append(os.path.join(root, d)); spans.append((lines, text.count("\n")))
        resp = scan(dirs, 120)
        if resp is None:
            return ctx.finish()
        # what is used nowhere, or divides by zero for a constant, does not compile: without it
        left = []
        for x, (sp, end), g in zip(resp, spans, groups):
            bad = {int(y.split(":")[1]) for y in x["lines"] if y.startswith("typed.go:")}
            left.append([s for s, (a, b) in zip(g, sp) if not any(a <= n <= b for n in bad)])
        if turn == 0:
            compiled = sum(map(len, left))
        if not any(x["errors"] for x in resp):
            break
        groups = left
    if compiled < len(calls) * .9 or any(x["errors"] for x in resp):
        raise vk.CheckError("only %d of %d calls compile: %s" % (compiled, len(calls), [x["lines"][:8] for x in resp if x["errors"]][:3]))
    for d, x, (sp, end), g in zip(dirs, resp, spans, groups):
        fs = set(x["finds"])
        ast = [[1, i + 1] for i, f in enumerate(("typed.go:%d:G401" % end, "zcanary.go:5:G401")) if f in fs]
        observe({"tree": [["none", "none"]], "outcome": x["outcome"], "ast": ast, "whole": [1] if "zcanary.go:7:G115" in fs else [], "errs": [], "exit": 1}, lambda d=d, x=x: (d, x, None))

    # ---- declarations whose names and values do not fit
    ctx.tlc("Robust", env={"DECLARED": "1", "EMIT": ctx.path("tlc", "declared.ndjson")})
    decls = [json.loads(l) for l in open(ctx.path("tlc", "declared.ndjson"))]
    decls = r.sample(decls, ctx.pick(4000, len(decls)))
    dirs, ends = [], []
    for k in range(0, len(decls), 40):
        d = "decl%d" % (k // 40)
        put(d + "/zhelp.go", declaring.HELP)
        text, end = declaring.source(r, decls[k:k + 40], "d")
        put(d + "/decl.go", text)
        put(d + "/zcanary.go", CANARY % ("p", ""))
        dirs.append(os.path.join(root, d)); ends.append(end)
    resp = scan(dirs, 120)
    if resp is None:
        return ctx.finish()
    for d, x, end in zip(dirs, resp, ends):
        if x["outcome"] == "done" and any(not f["body"] for f in x["files"]):
            raise vk.CheckError("declarations which do not parse: %s %s" % ([f["name"] for f in x["files"] if not f["body"]], open(d + "/decl.go").read()))
        fs = set(x["finds"])
        ast = [[1, i + 1] for i, f in enumerate(("decl.go:%d:G401" % end, "zcanary.go:5:G401")) if f in fs]
        observe({"tree": [["odd", "none"]], "outcome": x["outcome"], "ast": ast, "whole": [1] if "zcanary.go:7:G115" in fs else [], "errs": [], "exit": 1}, lambda d=d, x=x: (d, x, None))

    # ---- mutations of the samples
    S = samples.load(vk.REPO)
    muts = []
    for k in range(ctx.pick(500, 6000)):
        s = r.choice(S)
        n = r.randrange(len(s["files"]))
        for j, f in enumerate(s["files"]):
            put("mut%d/s%d.go" % (k, j), mutate.mutate(r, f) if j == n else f)
        pk = (re.search(r"(?m)^\s*package (\w+)", s["files"][n]) or [0, "main"])[1]
        put("mut%d/zcanary.go" % k, CANARY % (pk, ""))
        muts.append(os.path.join(root, "mut%d" % k))
    # ---- trees of broken code which come with the Go toolchain, and the standard library
    goroot = "/opt/veriftools/go1.24.13"
    tests = sorted(glob.glob(goroot + "/src/internal/types/testdata/*/*.go") + glob.glob(goroot + "/src/cmd/compile/internal/syntax/testdata/*.go"))
    for k, f in enumerate(tests):
        put("tc%d/x.go" % k, open(f, "rb").read())
        muts.append(os.path.join(root, "tc%d" % k))
    resp = scan(muts, 120)
    if resp is None:
        return ctx.finish()
    judged = 0
    for d, x in zip(muts, resp):
        fs = set(x["finds"])
        kinds = fault_kinds(x)
        canary = "mut" in os.path.basename(d)
        if kinds is None or not canary:
            if x["outcome"] != "done" or not kinds:
                kinds = None
        if not canary or kinds is None:
            # only the outcome is judged
            observe({"tree": [["syntax"]], "outcome": x["outcome"], "ast": [], "whole": [], "errs": [1], "exit": 1}, lambda d=d, x=x: (d, x, None))
            continue
        judged += 1
        ast = [[1, i + 1] for i, f in enumerate(x["files"]) if f["name"] != "zcanary.go" or "zcanary.go:5:G401" in fs]
        observe({"tree": [kinds], "outcome": x["outcome"], "ast": ast, "whole": [1] if "zcanary.go:7:G115" in fs else [], "errs": [1] if x["errors"] else [], "exit": 1}, lambda d=d, x=x: (d, x, None))
    std = sorted({os.path.dirname(p) for p in glob.glob(goroot + "/src/**/*.go", recursive=True) if "/testdata/" not in p and "/cmd/" not in p})
    std = r.sample(std, ctx.pick(40, len(std)))
    resp, p = ctx.drive("robust", {"Dirs": std, "Timeout": 300, "Parallel": 8}, cwd=goroot + "/src", timeout=850)
    if resp is None:
        ctx.fail("fatal:std", "the scanner died on the standard library: %s" % (p.stderr[:1500] if p else "timeout"))
        return ctx.finish()
    for d, x in zip(std, resp):
        observe({"tree": [["syntax"]], "outcome": x["outcome"], "ast": [], "whole": [], "errs": [1], "exit": 1}, lambda d=d, x=x: (d, x, None))

    # ---- dependencies in circles and lattices
    follow = graph_dirs(ctx, r, put, root, graphs)
    resp = scan([f["dir"] for f in follow], 60)
    if resp is None:
        return ctx.finish()
    fobs = []
    for f, x in zip(follow, resp):
        kind = "odd" if x["errors"] else "none"
        observe({"tree": [[kind]], "outcome": x["outcome"], "ast": [[1, 1]] if any(y.endswith(":G401") for y in x["finds"]) else [], "whole": [1], "errs": [], "exit": 1}, lambda f=f, x=x: (f["dir"], x, None))
        if x["outcome"] == "done":
            lines = {(y.split(":")[1], y.split(":")[2]) for y in x["finds"]}
            for g, kind, sinks, at in f["cases"]:
                fobs.append({"g": g, "kind": kind, "sinks": sinks, "got": [(str(l), {"decl": "G204", "nonce": "G407"}[kind]) in lines for l in at]})
    bad = ctx.validate("FollowVal", fobs)
    for i, why in sorted(bad.items())[:20]:
        ctx.fail("follow:%s" % json.dumps(fobs[i])[:200], "values followed through %s: %s" % (json.dumps(fobs[i]), "; ".join(why)), fobs[i])

    # ---- whole trees, from the command line
    if not ctx.thorough:
        r.shuffle(trees)
        trees = trees[:110]
    def one(k):
        t = trees[k]
        files = {}
        rr = __import__("random").Random("%d/%d" % (ctx.seed, k))
        for i, p in enumerate(t):
            for j, kind in enumerate(p):
                files.update(tree_file(rr, i + 1, j + 1, kind, every))
        d = ctx.module("tree%d" % k, files)
        args = ["-fmt=json"] + ctx.noise(rr)
        x = ctx.gosec(d, args + ["./..."], timeout=120)
        return t, d, args, x
    for t, d, args, x in ctx.pool(one, range(len(trees))):
        ast, whole, errs, how = [], [], [], "done"
        if x["timeout"]:
            how = "hang"
        elif "goroutine " in x["err"] or x["rc"] not in (0, 1):
            how = "crash"
        else:
            try:
                rep = json.loads(x["out"][x["out"].index("{"):])
            except ValueError:
                rep, how = {"Issues": [], "Golang errors": {}}, "no report"
            for f in rep["Issues"] or []:
                m = re.search(r"/p(\d)/f(\d)\.go$", f["file"])
                if m and f["rule_id"] == "G401" and "canary.New()" in f["code"]:
                    ast.append([int(m[1]), int(m[2])])
                if m and f["rule_id"] == "G115" and "zconv" in f["code"]:
                    whole.append(int(m[1]))
            for f in rep["Golang errors"] or {}:
                m = re.search(r"/p(\d)(/|$)", f)
                if m:
                    errs.append(int(m[1]))
                else:
                    # errors without a file: tell the package by the message
                    for y in rep["Golang errors"][f]:
                        m = re.search(r"\bp(\d)\b", y["error"])
                        errs += [int(m[1])] if m else [1, 2]
        observe({"tree": t, "outcome": how, "ast": ast, "whole": whole, "errs": sorted(set(errs)), "exit": x["rc"] if x["rc"] is not None else -1},
                lambda t=t, d=d, args=args, x=x: (d, {"detail": x["err"][-3000:], "files": vk.list_files(d), "args": args}, None))
    bad = ctx.validate("RobustVal", obs)
    seen = set()
    for i, why in sorted(bad.items()):
        d, x, l = about[i]()
        msg = "; ".join(why)
        what = explain(x) if x["detail"] and "goroutine" in x["detail"] else x["detail"][:600]
        key = "%s|%s" % (why[0] if obs[i]["outcome"] != "done" else msg, what[:120])
        if key in seen:
            continue
        seen.add(key)
        data = {"observation": obs[i], "detail": x["detail"][:8000], "files": {}}
        for f in sorted(glob.glob(d + "/**/*.go", recursive=True))[:12] if d.startswith(ctx.scratch) else []:
            data["files"][os.path.relpath(f, d)] = open(f, encoding="utf-8", errors="replace").read()[:100000]
        ctx.fail("robust:" + key, "%s: %s; %s" % (os.path.relpath(d, root), msg, what), data)
    ctx.sample("shapes %d (%d type-check), mutants %d (%d with canaries judged), test files of the toolchain %d, packages of the standard library %d, graphs %d, trees %d" %
               (count, well, len(muts) - len(tests), judged, len(tests), len(std), len(fobs), len(trees)))
    return ctx.finish(declarations=len(decls), shapes=count, shapes_well_typed=well, mutants=len(muts) - len(tests), toolchain_files=len(tests), std_packages=len(std), graphs=len(fobs), trees=len(trees))

def graph_dirs(ctx, r, put, root, graphs):
    """packages whose declarations, functions and slices depend on each other as the graphs tell"""
    out = []
    per = 64
    gs = [sorted(map(list, g)) for g in graphs]
    for part in range(0, len(gs), per):
        chunk = gs[part:part + per]
        to = lambda g, a: [b for x, b in g if x == a]
        # variables
        t, cases = ["package p", "", 'import canary "crypto/md5"', 'import "os/exec"', "", "var _ = canary.New()", ""], []
        for k, g in enumerate(chunk):
            order = [1, 2, 3]
            r.shuffle(order)
            for a in order:
                terms = ["v%d_%d" % (k, b) for b in to(g, a)] * 2 or ['"x"', '"y"']
                r.shuffle(terms)
                t.append("var v%d_%d = %s" % (k, a, " + ".join(terms)))
            at = []
            for a in (1, 2, 3):
                t.append("var c%d_%d = exec.Command(%s)" % (k, a, r.choice(['v%d_%d', '"ls", v%d_%d']) % (k, a)))
                at.append(len(t))
            cases.append((g, "decl", [], at))
        d = "follow/d%d" % part
        put(d + "/a.go", "\n".join(t) + "\n")
        out.append({"dir": os.path.join(root, d), "cases": cases})
        # initialisation vectors
        t, cases = ["package p", "", 'import canary "crypto/md5"', 'import "crypto/cipher"', "", "var _ = canary.New()", ""], []
        for k, g in enumerate(chunk):
            sinks = sorted(r.sample([1, 2, 3], r.choice([0, 1, 1, 2])))
            for a in (1, 2, 3):
                t.append("func f%dx%dz(b cipher.Block, iv []byte) {" % (k, a))
                body = ["\tf%dx%dz(b, iv)" % (k, b) for b in to(g, a)] * 2
                if a in sinks:
                    body.append("\t_ = cipher.NewCTR(b, iv)")
                r.shuffle(body)
                t += body + ["}"]
            at = []
            for a in (1, 2, 3):
                t.append("func g%dx%dz(b cipher.Block) {" % (k, a))
                t.append("\tf%dx%dz(b, []byte(\"%d.%d\"))" % (k, a, k, a))
                at.append(len(t))
                t.append("}")
            cases.append((g, "nonce", sinks, at))
        d = "follow/n%d" % part
        put(d + "/a.go", "\n".join(t) + "\n")
        out.append({"dir": os.path.join(root, d), "cases": cases})
        # slices: only that it comes to an end
        t = ["package p", "", 'import canary "crypto/md5"', "", "var _ = canary.New()", ""]
        for k, g in enumerate(chunk):
            for a in (1, 2, 3):
                t.append("func s%d_%d(s, z []int) {" % (k, a))
                t.append("\tif len(s) %s %d || len(z) == 0 {\n\t\treturn\n\t}" % (r.choice(["<", "==", "<="]), r.randint(0, 3)))
                for b in to(g, a):
                    for _ in range(3):
                        x = ["s", "z"]
                        r.shuffle(x)
                        t.append("\ts%d_%d(%s[%s], %s[%s])" % (k, b, x[0], r.choice([":", "1:", "2:", ":2", "3:7"]), x[1], r.choice([":", "1:", "2:", ":3", "1:5"])))
                t.append("}")
            t.append("func m%d() {\n\tx, y := make([]int, 10), make([]int, 12)\n\ts%d_%d(x, y)\n\ts%d_%d(x[1:], y[2:9])\n}" % (k, k, r.randint(1, 3), k, r.randint(1, 3)))
        d = "follow/s%d" % part
        put(d + "/a.go", "\n".join(t) + "\n")
        out.append({"dir": os.path.join(root, d), "cases": []})
    # lattices
    n = 60
    t = ["package p", "", 'import canary "crypto/md5"', 'import "crypto/cipher"', 'import "os/exec"', "", "var _ = canary.New()", "", 'var v0 = "x"']
    t += ["var v%d = v%d + v%d" % (i + 1, i, i) for i in range(n)]
    t += ["var c = exec.Command(v%d)" % n]
    t += ["func f%dz(b cipher.Block, x, y []byte) {\n\tf%dz(b, x, y)\n\tf%dz(b, y, x)\n}" % (i + 1, i, i) for i in range(n)]
    t += ["func f0z(b cipher.Block, x, y []byte) {\n\t_ = cipher.NewCTR(b, x)\n\t_ = cipher.NewCTR(b, y)\n}"]
    t += ["func g(b cipher.Block) { f%dz(b, []byte(\"x\"), []byte(\"y\")) }" % n]
    t += ["func s%d(x, y []int) {\n\ts%d(x[1:], y)\n\ts%d(y[1:], x[:])\n\ts%d(y, x[1:])\n}" % (i + 1, i, i, i) for i in range(n)]
    t += ["func s0(x, y []int) { _ = x[1] }", "func h() {\n\tx := make([]int, 100)\n\ty := make([]int, 90)\n\ts%d(x, y)\n}" % n]
    t += ["func loop(s []int, a, b bool) {\n\tx := make([]int, 4)\n\tif len(x) > 2 {\n\t\tfor {\n" + "\t\t\tif a && b || len(s) > 3 {\n\t\t\t\tcontinue\n\t\t\t}\n" * 30 + "\t\t}\n\t}\n\t_ = x[3]\n}"]
    t += ["func conv(n int, a bool) int8 {\n" + "".join("\tif n > %d || a {\n\t\tn += %d\n\t}\n" % (i, i) for i in range(n)) + "\treturn int8(n)\n}"]
    put("follow/lattice/a.go", "\n".join(t) + "\n")
    out.append({"dir": os.path.join(root, "follow/lattice"), "cases": []})
    return out

def tree_file(r, p, f, kind, every):
    pkg = "p%d" % p
    canary = "import canary \"crypto/md5\"\n"
    body = "\nvar _ = canary.New()\n\nfunc zconv%d(n int) int8 { return int8(n) }\n" % f
    path = "p%d/f%d.go" % (p, f)
    if kind == "none":
        t = "package %s\n\n%s%s" % (pkg, canary, body)
    elif kind == "odd":
        text, _ = shapes.source(r.choice(["plain", "alias", "shadow"]), r.sample(every, r.randint(1, 25)), "q%d" % f)
        t = text.replace("package p\n", "package %s\n" % pkg, 1)
    elif kind == "type":
        t = "package %s\n\n%s%s\n%s\n" % (pkg, canary, body, r.choice(["var bad%d int = \"x\"", "func bad%d() { nosuch() }", "type bad%d struct{ bad%d }", "func bad%d() int { }", "var bad%d = bad%d"]).replace("%d", str(f)))
    elif kind == "missing":
        t = "package %s\n\n%simport \"example.com/nosuch/x%d\"\n%s\nvar _ = x%d.X\n" % (pkg, canary, f, body, f)
    elif kind == "syntax":
        t = "package %s\n\n%s%s\n%s" % (pkg, canary, body, r.choice(["func bad%d( {\n", "func bad%d() { x := }\n", "var = 1 %d\n", "}%d\n", "func bad%d() { if { } }\n", "type bad%d struct { x int, y int }\n", "func bad%d() { a b c }\n", "func bad%d() { \"abc }\n", "func bad%d() { '' }\n", "var x%d = `abc\n", "var bad%d = 0x\n"]) % f)
        if r.random() < .4:
            t = t.replace(body, "", 1) + body
    elif kind == "head":
        t = r.choice(["", "// nothing\n", "pakage %s\n" % pkg, "package %s import\n" % pkg, "package\n" + body, "package %s\n\nimport \"unfinished\n%s" % (pkg, body), "package 1\n" + body, "\x00\x01\x02", "package %s\n\nimport (\n\t\"fmt\"\n%s" % (pkg, body), "import \"fmt\"\n" + body, "{}", "package %s\n\n/* unfinished" % pkg, "package \"%s\"\n" % pkg])
    elif kind == "clash":
        t = "package other%d\n\n%s%s" % (f, canary, body)
    if kind in ("none", "type", "syntax") and r.random() < .3:
        t = t.replace("\n", "\r\n")
    if kind in ("none", "type", "syntax") and r.random() < .1:
        t = "\ufeff" + t
    return {path: t}
