"""C05: exit status and quiet mode (spec: Outcome.tla, OutcomeVal.tla)."""
import os

# statements whose only finding has the given severity (confidence high): G104 low, G402 high
def program(F, errs):
    body, imports = [], set()
    for i, f in enumerate(F):
        tail = " // #nosec" if f["supp"] else ""
        if f["sev"] == 0:
            imports.add('"os"')
            body.append('os.Remove("x%d")%s' % (i, tail))
        elif f["sev"] == 1:
            imports.add('"os"')
            body.append('_ = os.Chmod("x%d", 0777)%s' % (i, tail))
        else:
            imports.add('"crypto/tls"')
            body.append('_ = &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS13}%s' % tail)
    t = "package p\n\n" + "".join("import %s\n" % i for i in sorted(imports)) + "\nfunc F() {\n" + "\n".join(body) + "\n}\n"
    files = {"a/a.go": t, "b/b.go": "package b\n\nfunc G() int { return 1 }\n"}
    if errs:
        files["c/c.go"] = "package c\n\nvar X int = \"no\"\n"
    return files

LEVEL = ["low", "medium", "high"]
FMT = ["text", "json", "yaml", "csv", "junit-xml", "html", "sonarqube", "golint", "sarif"]

def run(ctx):
    rng = ctx.rng
    cases = ctx.enumerate("Outcome")
    roots = {}
    for c in cases:
        k = str(c["content"])
        if k not in roots:
            roots[k] = ctx.module("c05_%d" % len(roots), program(c["content"]["F"], c["content"]["errs"]))
    rng.shuffle(cases)
    cases = cases[:ctx.pick(420, len(cases))]
    # medium severities and confidence thresholds
    for _ in range(ctx.pick(60, 400)):
        F = [{"sev": rng.randint(0, 2), "conf": 2, "supp": rng.random() < .4} for _ in range(rng.randint(0, 3))]
        content = {"F": F, "errs": int(rng.random() < .3)}
        k = str(content)
        if k not in roots:
            roots[k] = ctx.module("c05_%d" % len(roots), program(F, content["errs"]))
        cases.append({"content": content, "opts": {"minSev": rng.randint(0, 2), "minConf": rng.randint(0, 2), "noFail": rng.random() < .2,
                      "quiet": rng.random() < .5, "show": rng.random() < .3, "track": rng.random() < .3, "off": rng.random() < .3}})
    def one(job):
        n, c = job
        o = c["opts"]
        args = ["-severity", LEVEL[o["minSev"]], "-confidence", LEVEL[o["minConf"]]]
        for flag, key in (("-no-fail", "noFail"), ("-quiet", "quiet"), ("-show-ignored", "show"), ("-track-suppressions", "track"), ("-nosec", "off")):
            if o[key]:
                args.append(flag)
        r0 = ctx_rng = __import__("random").Random("%d/%d" % (ctx.seed, n))
        fmt = r0.choice(FMT)
        args += ["-fmt", fmt]
        if r0.random() < .2:
            args.append("-terse")
        if r0.random() < .3:
            args += ["-sort=false"]
        out = None
        how = r0.random()
        if how < .3:
            out = ctx.path("out/%d" % n)
            args += ["-out", out]
            if how < .15:
                args += ["-stdout", "-verbose", r0.choice(FMT)]
        if r0.random() < .3:
            args += ["-log", ctx.path("log/%d" % n)]
        r = ctx.gosec(roots[str(c["content"])], args + ["./..."])
        if r["timeout"] or "panic:" in r["err"] or r["rc"] not in (0, 1):
            ctx.fail("crash", "gosec %s ended with %s: %s" % (" ".join(args), r["rc"], r["err"][-800:]), {"args": args})
            return None
        fileprinted = out is not None and os.path.exists(out) and os.path.getsize(out) > 0
        printed = len(r["out"].strip()) > 0
        shown = fileprinted if out else printed
        # csv and golint reports of no finding are empty documents
        if not shown and (fmt in ("csv", "golint")):
            listed = [f for f in c["content"]["F"] if (not f["supp"] or o["off"]) and f["sev"] >= o["minSev"] and f["conf"] >= o["minConf"]]
            if not listed:
                shown = not (o["quiet"] and c["content"]["errs"] == 0 and not any((not f["supp"] or o["off"] or o["show"] or o["track"]) and f["sev"] >= o["minSev"] and f["conf"] >= o["minConf"] for f in c["content"]["F"]))
        return {"kind": "exit", "F": c["content"]["F"], "errs": c["content"]["errs"], "opts": o, "status": r["rc"], "printed": shown, "args": " ".join(args)}
    obs = [x for x in ctx.pool(one, list(enumerate(cases))) if x]
    bad = ctx.validate("OutcomeVal", obs)
    for i, why in bad.items():
        x = obs[i]
        ctx.fail("outcome", "; ".join(why) + " for findings %s, %d errors: gosec %s" % (x["F"], x["errs"], x["args"]), x)
    # arguments the command cannot honour are failures too
    some = list(roots.values())[0]
    for args, name in ((["-severity", "urgent"], "severity"), (["-conf", "/nonexistent.json"], "conf"), (["-out", "/nonexistent-dir/x", "-fmt", "json"], "out"),
                       (["-fmt", "nosuch"], None)):
        r = ctx.gosec(some, args + ["./..."])
        if name and r["rc"] != 1:
            ctx.fail("refuse:" + name, "gosec %s exits with %s" % (" ".join(args), r["rc"]), {"args": args})
    r = ctx.gosec(some, [])
    if r["rc"] != 1:
        ctx.fail("refuse:nopath", "gosec without a path exits with %s" % r["rc"], {})
    ctx.sample(obs[0])
    return ctx.finish(runs=len(obs))
