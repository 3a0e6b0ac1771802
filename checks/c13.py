"""C13: test, generated and cgo files (spec: Kinds.tla, KindsVal.tla)."""
import os, random

GEN = "// Code generated by tool. DO NOT EDIT."

def text(pkg, i, f, r):
    m = f["marker"]
    head, after = [], []
    if m == "top":
        head = [r.choice([GEN, "// Code generated by protoc-gen-go v1.2. DO NOT EDIT.", "// Code generated (x) from y.z; see DO NOT EDIT. DO NOT EDIT."]), ""]
    elif m == "afterdoc":
        head = ["// Copyright someone.", "//", GEN, "", "// Package doc."]
    elif m == "tagged":
        head = ["//go:build linux || !linux", "", GEN, ""]
    elif m == "empty":
        head = ["// Code generated  DO NOT EDIT.", ""]
    elif m == "body":
        after = [GEN]
    elif m == "block":
        head = ["/*", "Code generated by tool. DO NOT EDIT.", "*/", ""]
    elif m == "nodot":
        head = ["// Code generated by tool. DO NOT EDIT", ""]
    elif m == "lower":
        head = ["// code generated by tool. Do not edit.", ""]
    elif m == "indented":
        head = ["// This Code generated by tool. DO NOT EDIT.", ""]
    elif m == "trailing":
        head = ["// Code generated by tool. DO NOT EDIT. Really", ""]
    L = head + ["package " + pkg, ""]
    if f["cgo"]:
        L += ["// int f(void) { return 1; }", 'import "C"', ""]
    L += ['import "crypto/md5"', ""]
    want = [["G501", len(L) - 1]]
    L += after
    for k in range(r.randint(1, 2)):
        L += ["func F%d_%d(n int) int8 {" % (i, k)]
        L += ["\t_ = md5.New()"]
        want.append(["G401", len(L)])
        L += ["\treturn int8(n)"]
        want.append(["G115", len(L)])
        L += ["}"]
    if f["cgo"]:
        L += ["func C%d() int { return int(C.f()) }" % i]
    L += ["// end"] * r.randint(0, 3)
    if f["test"] != "no" and r.random() < .5:
        L[L.index('import "crypto/md5"')] = 'import ("crypto/md5"; "testing")'
        L += ["func TestX%d(t *testing.T) { F%d_0(3) }" % (i, i)]
    return L, want

def run(ctx):
    rng = ctx.rng
    cases = ctx.enumerate("Kinds")
    rng.shuffle(cases)
    plans = [([c["f1"], c["f2"]], c["tests"], c["exgen"]) for c in cases[:ctx.pick(110, len(cases))]]
    markers = ["none", "none", "top", "afterdoc", "tagged", "body", "block", "nodot", "lower", "indented", "trailing", "empty"]
    for _ in range(ctx.pick(50, 600)):
        plans.append(([{"test": rng.choice(["no", "no", "in", "ext"]), "marker": rng.choice(markers), "cgo": rng.random() < .08} for _ in range(rng.randint(1, 6))],
                      rng.random() < .6, rng.random() < .6))
    ctx.cli()
    def one(job):
        n, (fs, tests, exgen) = job
        r = random.Random("%d/c13/%d" % (ctx.seed, n))
        files, meta = {}, []
        fs = [dict(f) for f in fs]
        if any(f["test"] == "ext" for f in fs) and not any(f["test"] == "no" for f in fs):
            fs.append({"test": "no", "marker": "none", "cgo": False})
        where = r.choice(["p", "p/q", "gen.pb", "x_test"])
        for i, f in enumerate(fs):
            if f["test"] != "no":
                f["cgo"] = False
            pkg = "pp" + ("_test" if f["test"] == "ext" else "")
            name = "%s/f%d%s.go" % (where, i, "_test" if f["test"] != "no" else r.choice(["", "", ".pb", "_gen", "_tests"]))
            L, want = text(pkg, i, f, r)
            files[name] = "\n".join(L) + "\n"
            meta.append(dict(f, name=name, lines=len(L), want=[[name] + w for w in want]))
        root = ctx.module("c13_%d" % n, files)
        args = ["-include=G401,G115,G501", "-concurrency=2"] + (["-tests"] if tests else []) + (["-exclude-generated"] if exgen else [])
        paths = r.choice([["./..."], ["./" + where], ["./" + where, "./..."]])
        rep = ctx.must_scan(root, args, paths=paths)
        if rep is None:
            return None
        if rep["Golang errors"]:
            ctx.fail("errors", "errors for a correct package: %s" % str(rep["Golang errors"])[:500], {"files": files})
        found = [[os.path.relpath(i["file"], root), i["rule_id"], int(i["line"].split("-")[0])] for i in rep["Issues"]]
        return {"files": meta, "tests": tests, "exgen": exgen, "found": found, "numFiles": rep["Stats"]["files"], "numLines": rep["Stats"]["lines"],
                "numFound": rep["Stats"]["found"], "args": args + paths}
    obs = [x for x in ctx.pool(one, list(enumerate(plans)), workers=7) if x]
    for i, why in ctx.validate("KindsVal", obs).items():
        x = obs[i]
        ctx.fail("kinds", "%s; gosec %s of %s" % ("; ".join(sorted(why))[:500], " ".join(x["args"]), [(f["name"], f["test"], f["marker"], f["cgo"]) for f in x["files"]]), {"why": why, "obs": x})
    ctx.sample({k: obs[0][k] for k in ("tests", "exgen", "found", "numFiles", "numLines")})
    return ctx.finish(scans=len(obs), enumerated=len(cases))
