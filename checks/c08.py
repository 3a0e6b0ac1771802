"""C08: errors are recorded and contained (spec: Errors.tla, ErrorsVal.tla)."""
import os, random, re

# fault -> (lines appended at top level, offset of the planted error line or None)
FAULTS = {
    "type": (['var Wrong int = "text"'], 0), "undef": (["func Un() { nosuchthing() }"], 0),
    "unused": (["func Us() { unusedVar := 1 }"], 0), "unusedimport": None,
    "noreturn": (["func No() int {", "}"], 1), "dup": (["func Dup() {}", "func Dup() {}"], 1),
    "syntax": (["func Sy() { x := }"], 0), "unterminated": (['var S = "abc'], 0), "eof": (["func Ef() {"], None),
    "badimport": None, "badtoken": (["var T = 3 $ 4"], 0), "none": ([], None),
    "many": (["func Many() {"] + ["\t_ = undefined%d + undef%d" % (i % 7, i) for i in range(8)] + ["}"], 1),
    "conv": (["var Cv = int(\"x\")", "var Cw string = 5 + 'a'"], 0), "missarg": (["func Ma(a, b int) { Ma(1) }"], 0),
}

def fault_file(pkg, i, fault, rng, tag=""):
    imp = ['import "crypto/md5"']
    must = []
    if fault == "unusedimport":
        imp.append('import "fmt"')
    if fault == "badimport":
        imp.append('import "no.such/module/x"')
    L = ["package " + pkg, ""] + imp + [""]
    if fault in ("unusedimport", "badimport"):
        must.append(4)
    pad = rng.randint(0, 4)
    L += ["// pad"] * pad
    L += ["func F%s%d() {" % (tag, i), "\t_ = md5.New()", "}"]
    hit = len(L) - 1
    hits = [["G401", hit], ["G501", 3]]
    late = []
    fl = FAULTS.get(fault) or ([], None)
    if fl[1] is not None:
        must.append(len(L) + 1 + fl[1])
    L += fl[0]
    if rng.random() < .5 and fault != "eof":
        L += ["func G%s%d() {" % (tag, i), "\t_ = md5.New()", "}"]
        late.append(["G401", len(L) - 1])
    return "\n".join(L) + "\n", must, hits, late

SYNTAX = {"syntax", "unterminated", "eof", "badtoken"}

def run(ctx):
    rng = ctx.rng
    cases = ctx.enumerate("Errors")
    rng.shuffle(cases)
    plans = []
    for c in cases[:ctx.pick(70, len(cases))]:
        plans.append(([["p", [c["f1"]]], ["q", [c["f2"], "none"]]], c["tests"]))
    for _ in range(ctx.pick(50, 700)):
        pk = []
        for p in range(rng.randint(1, 4)):
            name = rng.choice(["d%d", "d%d/sub", "d:%d", "d %d", "d%d-x", "dé%d", "d.%d", "d:7:%d"]) % p
            pk.append([name, [rng.choice(list(FAULTS)) for _ in range(rng.randint(1, 3))]])
        if rng.random() < .3:
            pk.append(["bad%d" % len(pk), [rng.choice(["noclause", "twopkgs"])]])
        plans.append((pk, rng.random() < .4))
    ctx.cli(); ctx.driver()
    def one(job):
        n, (pk, tests) = job
        r = random.Random("%d/c08/%d" % (ctx.seed, n))
        files, groups, must, want, may, refused = {}, [], [], [], [], []
        for d, faults in pk:
            pkg = "p" + re.sub(r"\W", "", d, flags=re.A)
            if faults[0] in ("noclause", "twopkgs"):
                files[d + "/a.go"] = "package a\n\nfunc A() {}\n"
                files[d + "/b.go"] = "package b\n" if faults[0] == "twopkgs" else "func B() {}\n"
                refused.append(d)
                continue
            g = []
            for i, f in enumerate(faults):
                fn = "%s/f%d.go" % (d, i)
                text, m, hits, late = fault_file(pkg, i, f, r)
                files[fn] = text
                g.append(fn)
                # a type checker stops early only on syntax errors and broken imports
                if not any(x in SYNTAX or x == "badimport" for x in faults):
                    must += [{"file": fn, "line": l} for l in m]
                elif f in SYNTAX:
                    must += [{"file": fn, "line": l} for l in m]
                want += [[fn] + h for h in hits]
                (may if f in SYNTAX else want).extend([fn] + h for h in late)
            if tests:
                for x in ("", "_test"):
                    if r.random() < .5:
                        fn = "%s/t%s_test.go" % (d, x)
                        text, m, hits, late = fault_file(pkg + x, 9, r.choice(["none", "none", "type", "undef", "syntax"]), r, "T" + x)
                        files[fn] = text
                        g.append(fn)
                        want += [[fn] + h for h in hits]
                        may += [[fn] + h for h in late]
            groups.append((d, g))
        root = ctx.module("c08_%d" % n, files)
        ds = [d for d, _ in pk]
        # spelled as gosec spells them, so that messages quoting the path are the same
        spelled = {d: r.choice(["./" + d, d, os.path.join(root, d)]) for d in ds}
        args = ["-include=G401,G501", "-concurrency=%d" % r.choice([1, 2, 4])] + (["-tests"] if tests else [])
        rep = ctx.must_scan(root, args, paths=[spelled[d] for d in ds])
        if rep is None:
            return None
        # files of test packages go after the others, test files of the package before external ones
        req = []
        for d, g in groups:
            order = sorted([f for f in g if not f.endswith("_test.go")]) + [f for f in g if f.endswith("/t_test.go")] + [f for f in g if f.endswith("/t_test_test.go")]
            req.append([os.path.normpath(os.path.join(spelled[d], os.path.basename(f))) for f in order])
        resp, p = ctx.drive("load", {"Root": root, "Groups": req, "Tests": tests}, cwd=root)
        if resp is None:
            raise RuntimeError("driver failed: " + (p.stderr if p else "timeout"))
        tc = []
        for res in resp:
            for e in res["errors"]:
                m = re.match(r"^(.+?):(\d+)(?::(\d+))?$", e["pos"])
                f, l, c = (m.group(1), int(m.group(2)), int(m.group(3) or 0)) if m else (e["pos"], 0, 0)
                tc.append({"file": os.path.relpath(f, root) if f.startswith("/") else f, "line": l, "col": c, "msg": e["msg"].strip()})
        # the go command names some files relative to the working directory: an alias of the same file
        report = {}
        for f, es in rep["Golang errors"].items():
            key = f
            if f.startswith("/"):
                f = os.path.relpath(f, root)
            elif f in spelled.values():
                f = os.path.normpath(f)
            new = [{"line": e["line"], "col": e["column"], "msg": e["error"]} for e in es]
            if f in report:
                if [e for e in new if new.count(e) > 1]:
                    ctx.fail("errors", "an error is reported twice under %s" % key, {"errors": es})
                report[f] = sorted(report[f] + [e for e in new if e not in report[f]], key=lambda e: (e["line"], e["col"]))
            else:
                report[f] = new
        report = [{"file": f, "errs": v} for f, v in report.items()]
        found = [[os.path.relpath(i["file"], root), i["rule_id"], int(i["line"].split("-")[0])] for i in rep["Issues"]]
        return {"report": report, "toolchain": tc, "must": must, "refused": refused, "want": want, "may": may, "found": found, "plan": str(pk), "tests": tests}
    obs = [x for x in ctx.pool(one, list(enumerate(plans)), workers=7) if x]
    for i, why in ctx.validate("ErrorsVal", obs).items():
        ctx.fail("errors", "%s; packages %s tests=%s" % ("; ".join(sorted(why))[:600], obs[i]["plan"], obs[i]["tests"]), {"why": why, "obs": obs[i]})
    ctx.sample({k: obs[0][k] for k in ("plan", "report", "must")})
    return ctx.finish(scans=len(obs), enumerated=len(cases))
