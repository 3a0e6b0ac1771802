"""C10: SARIF documents (spec: Report.tla, ReportMC.tla, ReportVal.tla)."""
import json, os, random
import corpus, formats
from checks import c09

IDS = ["G101", "G102", "G103", "G104", "G201", "G304", "G401", "G402", "G501", "G602", "G115", "G99", "g1", "X1", "G1010"]

def run(ctx):
    rng = ctx.rng
    enum = ctx.enumerate("ReportMC", env={"N": str(ctx.pick(4, 5))})
    if ctx.tlc("ReportMC", "ReportMC_old.cfg", expect_ok=False)["rc"] == 0:
        ctx.log("note: the old writers have no counterexample any more")
    cases = []
    for e in enum:
        three = sorted(rng.sample(IDS, 3), key=lambda x: x.encode())
        fs = []
        for r, s in zip(e["rules"], e["supp"]):
            f = c09.finding(rng, [three[r - 1]], rng.random() < .5, ["/r"])
            f["Supp"] = [["inSource", "j%d" % s]] * s
            fs.append(f)
        cases.append({"fs": fs, "roots": ["/r"], "formats": rng.choice([["sarif"], ["text", "sarif"], ["sarif", "csv", "sarif"]])})
    for _ in range(ctx.pick(500, 6000)):
        roots = rng.sample(["/r", "/r/a", "/r/ab", "/r/a b", "/", "/other", "/r/a/c"], rng.randint(0, 3))
        rules = rng.sample(IDS, rng.randint(1, 9))
        fs = [c09.finding(rng, rules, rng.random() < .5, roots or ["/r"]) for _ in range(rng.choice([1, 3, 5, 8, 14, 25]))]
        cases.append({"fs": fs, "roots": roots, "formats": ["sarif"]})
    res = c09.render(ctx, cases)
    obs, info = [], []
    for c, r in zip(cases, res):
        rank = c09.rank_of({f["Rule"] for f in c["fs"]})
        for f, d in zip(c["formats"], r["docs"]):
            if f == "sarif":
                o, why = c09.observe(ctx, f, d["out"], d["err"], c["fs"], c["roots"], rank, True)
                obs.append(o)
                info.append((why or "", {"roots": c["roots"], "formats": c["formats"], "findings": [c09.wire(x) for x in c["fs"]], "doc": d["out"][:4000].decode("utf-8", "replace"), "why": why}))
    # the real command over the corpus: orders produced by sorting and by scanning
    files = {"all/%s.go" % r.lower(): t for r, t in corpus.FILES.items()}
    files.update({"b%d/x.go" % i: t.replace("package all", "package b%d" % i) for i, t in enumerate(corpus.FILES.values()) if i % 4 == ctx.seed % 4})
    root = ctx.module("c10", files, corpus.REQUIRES)
    json.dump(corpus.CONF, open(ctx.path("c10conf.json"), "w"))
    jobs = [(a, p) for a in ([], ["-track-suppressions", "-exclude", "G104,G304"], ["-sort=false"], ["-severity", "medium"]) for p in (["./..."], ["./all", "./b1", "./b2/..."], ["-r"])]
    ctx.cli()
    def one(j):
        a, p = j
        base = a + ["-quiet", "-concurrency", "1", "-conf", ctx.path("c10conf.json")]
        out = ctx.path("c10-%d.sarif" % random.getrandbits(40))
        r = ctx.gosec(root, base + ["-fmt", "sarif", "-out", out, "-stdout", "-verbose", "json"] + p, env=corpus.ENV)
        return r, open(out, "rb").read() if os.path.exists(out) else b""
    for (a, p), (r, doc) in zip(jobs, ctx.pool(one, jobs)):
        fs = c09.cli_findings(json.loads(r["out"]))
        roots = ["./..."] if p == ["-r"] else p
        roots = [os.path.normpath(os.path.join(root, x[:-3] if x.endswith("...") else x)) for x in roots]
        o, why = c09.observe(ctx, "sarif", doc, None, fs, roots, c09.rank_of({f["Rule"] for f in fs}), True)
        obs.append(o)
        info.append((why or "gosec %s %s" % (a, p), {"args": a + p, "why": why, "doc": doc[:3000].decode("utf-8", "replace")}))
    c09.judge(ctx, obs, info)
    ctx.sample({"rules": [f["Rule"] for f in cases[7]["fs"]]})
    return ctx.finish(documents=len(obs))
