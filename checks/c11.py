"""C11: deterministic, ordered reports (spec: Order.tla, OrderMC.tla, OrderVal.tla)."""
import hashlib, json, os, random
import corpus

def same_line(i):
    """Many findings which agree in severity, text, file and line."""
    return ('package p%d\n\nimport (\n\t"crypto/md5"\n\t"crypto/sha1"\n\t"crypto/des"\n\t"crypto/rc4"\n\t"math/rand"\n\t"os"\n)\n\n'
            'func F(n int, m uint64) {\n'
            '\t_, _, _, _ = md5.New(), sha1.New(), md5.Sum(nil), sha1.Sum(nil)\n'
            '\t_, _, _ = rand.Int(), rand.Intn(n), rand.Int63()\n'
            '\t_, _, _, _ = int8(n), int16(n), int8(m), int32(m)\n'
            '\tos.Remove("a"); os.Remove("b"); os.Remove("a"); os.Mkdir("c", 0777); os.Mkdir("d", 0777)\n'
            '\t_, _ = des.NewCipher(nil); _, _ = rc4.NewCipher(nil); _, _ = des.NewTripleDESCipher(nil)\n'
            '\tx := []int{1, 2}; _, _ = x[5], x[6]; y := make([]int, 3); _, _, _ = y[4], y[5], y[6] // #nosec G115\n'
            '}\n\n'
            'func G(n int) { _ = int8(n) /* #nosec G115 -- one */; _ = md5.New() } // #nosec -- two\n') % i

SEV = {"LOW": 0, "MEDIUM": 1, "HIGH": 2}

def run(ctx):
    rng = ctx.rng
    ctx.model("OrderMC")
    if ctx.tlc("OrderMC", "OrderMC_old.cfg", expect_ok=False)["rc"] == 0:
        ctx.log("note: the old comparison has no counterexample any more")
    ctx.cli()
    files = {"p%d/a.go" % i: same_line(i) for i in range(6)}
    files.update({"p%d/b.go" % i: same_line(i).replace("func F(", "func FB(").replace("func G(", "func GB(") for i in range(0, 6, 2)})
    for r, t in corpus.FILES.items():
        files["all%d/%s.go" % (sum(map(ord, r)) % 3, r.lower())] = t
    files["e1/e.go"] = "package e1\n\nvar A int = \"x\"; var B int = \"y\"\nfunc F() { a := 1; b := 2; undefined1(); undefined2() }\n"
    files["e2/e.go"] = "package e2\n\nfunc F() { x := ; y := }\n"
    files["e2/f.go"] = "package e2\n\nvar Z string = 5\n"
    # constants, credentials and queries assembled in several ways
    files["m1/m.go"] = ('package m1\n\nimport (\n\t"database/sql"\n\t"fmt"\n\t"os/exec"\n)\n\nfunc Q(db *sql.DB, a, b string) {\n\tpassword, secret := "f62e5bcda4fae4f82370da0c6f20697b8f8447ef", "63d1c5a2e5f7b0a9c8d4e3f2a1b0c9d8e7f6"\n'
                        '\t_, _ = db.Query("SELECT * FROM t WHERE x = " + a + " AND y = " + b); _, _ = db.Exec(fmt.Sprintf("DELETE FROM t WHERE x = \'%s\'", a))\n'
                        '\t_, _ = exec.Command(a, b), exec.Command("ls", b)\n\tfmt.Println(password, secret)\n}\n')
    root = ctx.module("c11", files, requires=corpus.REQUIRES)
    dirs = sorted({"./" + f.split("/")[0] for f in files})
    conf = ctx.write("c11.json", json.dumps(corpus.CONF))
    n = ctx.pick(12, 60)
    optsets = [("default", []), ("track", ["-track-suppressions"]), ("show", ["-show-ignored"]), ("deselect", ["-track-suppressions", "-exclude=G104,G501"]), ("tests", ["-tests"]), ("unsorted", ["-sort=false"])]
    obs = []
    def one(job):
        tag, args, i = job
        r = random.Random("%d/c11/%s/%d" % (ctx.seed, tag, i))
        k = [1, 2, 8, 64][i % 4]
        ds = list(dirs)
        if i:
            r.shuffle(ds)
        if i % 3 == 2:
            ds = ["./..."]
        rep = ctx.must_scan(root, args + ["-conf", conf, "-concurrency=%d" % k], paths=ds, env=dict(corpus.ENV, GOMAXPROCS=str(r.choice([1, 2, 8]))))
        if rep is None:
            return None
        errs = json.dumps(rep["Golang errors"], sort_keys=True)
        return tag, {"tag": "%s#%d (%d workers, %s)" % (tag, i, k, "./..." if i % 3 == 2 else "dirs"),
                "list": [{"sev": SEV[x["severity"]], "id": json.dumps(x, sort_keys=True)} for x in rep["Issues"]]}, errs
    jobs = [(t, a, i) for t, a in optsets for i in range(n if t in ("default", "track") else n // 2)]
    res = [x for x in ctx.pool(one, jobs, workers=6) if x]
    for t, a in optsets:
        runs = [x[1] for x in res if x[0] == t]
        if runs:
            obs.append({"kind": "runs", "sorted": t != "unsorted", "runs": runs})
        es = {x[2] for x in res if x[0] == t}
        if len(es) > 1:
            ctx.fail("errors", "the errors of the same tree differ between runs (%s)" % t, sorted(es))
    # sorting neither drops nor alters findings
    d = [x[1] for x in res if x[0] == "default"][:1] + [x[1] for x in res if x[0] == "unsorted"][:1]
    obs.append({"kind": "runs", "sorted": False, "runs": d})
    fmts = ["text", "json", "yaml", "csv", "junit-xml", "html", "sonarqube", "golint", "sarif"]
    def doc(job):
        fmt, i = job
        ds = list(dirs)
        random.Random(i).shuffle(ds)
        # the roots of the report follow the order of the arguments: keep one root, vary the rest
        r = ctx.gosec(root, ["-fmt", fmt, "-color=false", "-track-suppressions", "-quiet", "-conf", conf, "-concurrency=%d" % [1, 8, 3][i % 3], "./..."], env=dict(corpus.ENV, GOMAXPROCS=str([1, 8][i % 2])))
        return fmt, i, r["out"]
    docs = ctx.pool(doc, [(f, i) for f in fmts for i in range(ctx.pick(4, 12))], workers=6)
    for f in fmts:
        mine = [(i, o) for g, i, o in docs if g == f]
        if not mine[0][1].strip():
            ctx.fail("doc:" + f, "no %s report" % f, {})
        obs.append({"kind": "docs", "format": f, "docs": [{"tag": "run %d" % i, "digest": hashlib.sha256(o.encode()).hexdigest()} for i, o in mine]})
    for i, why in ctx.validate("OrderVal", obs).items():
        ctx.fail("order:" + obs[i].get("format", "runs"), "; ".join(sorted(why))[:1500], {"why": why})
    ctx.sample({"runs": [r["tag"] for r in obs[0]["runs"]][:4], "findings": len(obs[0]["runs"][0]["list"])})
    return ctx.finish(runs=len(res), documents=len(docs), findings_per_run=len(obs[0]["runs"][0]["list"]))
