"""C03: rule selection (spec: Select.tla, SelectVal.tla)."""
import json, os
import corpus

MAP = {"A": "G401", "B": "G115", "C": "G404", "X": "G999"}
SMALL = {"a.go": 'package p\n\nimport (\n"crypto/md5"\n"math/rand"\n)\n\nfunc F(n int) {\n_ = md5.New()\n_ = int8(n)\n_ = rand.Int()\n_ = int16(n)\n}\n'}

def finds(rep):
    return [{"rule": i["rule_id"], "at": "%s:%s:%s" % (os.path.basename(i["file"]), i["line"], i["column"]), "open": not i.get("suppressions")} for i in rep["Issues"] or []]

def run(ctx):
    rng = ctx.rng
    cases = ctx.enumerate("Select")
    roots = {"small": ctx.module("c03s", SMALL), "all": ctx.module("c03all", corpus.files(), corpus.REQUIRES)}
    base_conf = ctx.write("base.json", json.dumps(corpus.CONF))
    base = {}
    for k, root in roots.items():
        rep = ctx.must_scan(root, ["-conf", base_conf], env=corpus.ENV, key="base")
        if rep is None:
            return ctx.finish()
        base[k] = finds(rep)
    offered = corpus.RULES
    for r in offered:
        if not any(f["rule"] == r and f["at"].startswith(r.lower() + ".go") for f in base["all"]):
            ctx.fail("default:" + r, "rule %s reports nothing in its sample when no rules are selected" % r, {"sample": corpus.FILES[r]})
    rng.shuffle(cases)
    todo = []
    two = [c for c in cases]
    for c in two[:ctx.pick(260, 1500)]:
        todo.append(("small", {k: [MAP[x] for x in v] for k, v in c.items()}, rng.random() < 0.25))
    for r in offered:
        todo.append(("all", {"incFlag": [r], "incConf": [], "excFlag": [], "excConf": []}, False))
        todo.append(("all", {"incFlag": [], "incConf": [], "excFlag": [r], "excConf": []}, False))
    for _ in range(ctx.pick(60, 600)):
        def sub(p):
            if rng.random() > p:
                return []
            return rng.sample(offered + ["G999"], rng.randint(1, len(offered)))
        todo.append(("all", {"incFlag": sub(.5), "incConf": sub(.5), "excFlag": sub(.4), "excConf": sub(.4)}, rng.random() < 0.3))

    def one(job):
        n, (which, lists, track) = job
        conf = dict(corpus.CONF)
        g = {}
        if lists["incConf"]:
            g["include"] = ",".join(lists["incConf"])
        if lists["excConf"]:
            g["exclude"] = ",".join(lists["excConf"])
        if g:
            conf["global"] = g
        cf = ctx.write("conf/%d.json" % n, json.dumps(conf))
        args = ["-conf", cf] + (["-track-suppressions"] if track else [])
        if lists["incFlag"]:
            args.append("-include=" + ",".join(lists["incFlag"]))
        if lists["excFlag"]:
            args.append("-exclude=" + ",".join(lists["excFlag"]))
        rep, r = ctx.scan(roots[which], args, env=corpus.ENV)
        refused = rep is None and r["rc"] == 1 and not r["timeout"] and "panic" not in r["err"] and "goroutine" not in r["err"]
        if rep is None and not refused:
            ctx.fail("crash", "scan ended with %s: %s" % (r["rc"], r["err"][-800:]), {"args": args, "conf": conf})
            return None
        o = dict(lists)
        o.update({"track": track, "all": offered, "refused": refused, "base": base[which], "got": finds(rep) if rep else [], "args": " ".join(args[2:]), "confglobals": g, "which": which})
        return o
    obs = [o for o in ctx.pool(one, list(enumerate(todo))) if o]
    bad = ctx.validate("SelectVal", obs)
    for i, why in bad.items():
        o = obs[i]
        ctx.fail("selection", "; ".join(why[:4]) + " with flags [%s] config %s" % (o["args"], o["confglobals"]), {k: o[k] for k in ("args", "confglobals", "which", "refused")})
    # values that are no rule list are refused
    rep, r = ctx.scan(roots["small"], ["-exclude=-G401"])
    if rep is not None or r["rc"] == 0:
        ctx.fail("badflag", "an exclude value starting with '-' was accepted", {})
    ctx.sample({"flags": obs[0]["args"], "config": obs[0]["confglobals"], "findings": len(obs[0]["got"])})
    return ctx.finish(selections=len(obs), enumerated=len(cases), rules=len(offered))
