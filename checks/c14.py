"""C14: configuration (spec: Config.tla, ConfigVal.tla)."""
import json

TAGS = ["", "nosec", "mytag", "alt", "other", "True", "1", "true", "enabled", "false", "disabled", "<nil>", "#mytag", "nil", " heading"]
NAME = {"nosec": "nosec", "show": "show-ignored", "audit": "audit", "alt": "#nosec"}
SHOWN = {"null": "<null>", "true": "true", "false": "false", "1": "1"}
BAD = ["", "{", "[]", "[1]", "\"x\"", "12", "{\"global\":{}} x", "{\"global\":{},}", "{'global':{}}", "nosec=true", "\x00", "{\"global\":{}}{}", "tru"]

def program():
    L = ["package p", "", "import (", '\t"crypto/md5"', '\t"os"', ")", "", "func F() {"]
    probes = []
    for i, t in enumerate(TAGS):
        L += ["", "\t_ = md5.New()" + (" // #%s" % t if t else "")]
        probes.append({"id": "G401:%d" % len(L), "tag": t, "audit": False})
    for t in ("", "nosec", "alt"):
        for a, code in ((True, '\t_ = os.Remove("x")'), (False, '\tos.Remove("x")')):
            L += ["", code + (" // #%s" % t if t else "")]
            probes.append({"id": "G104:%d" % len(L), "tag": t, "audit": a})
    return "\n".join(L + ["}", ""]), probes

def doc_of(case, rng):
    """(document text, document for the specification)"""
    g, ents = {}, []
    for k, v in case.items():
        if v == "-":
            continue
        if v.startswith("json:"):
            g[NAME[k]] = json.loads(v[5:])
            ents.append({"k": NAME[k], "v": SHOWN[v[5:]]})
        else:
            g[NAME[k]] = v
            ents.append({"k": NAME[k], "v": v})
    if not g and rng.random() < .5:
        return "{}", {"has": False, "glob": [], "rules": []}
    return json.dumps({"global": g}), {"has": True, "glob": ents, "rules": []}

def history(ops, rng):
    """ops of the specification -> (driver steps, specification steps)"""
    drv, sp = [], []
    for o in ops:
        if o["op"] == "read":
            d = o["doc"]
            t, g, r = {}, [], []
            for k, v in (d["glob"] or {}).items():
                val = {"<null>": None, "true": rng.choice(["true", True]), "1": rng.choice(["1", 1])}.get(v, v)
                if isinstance(v, str) and v.startswith("num:"):
                    val = json.loads(v[4:])
                    v = v[4:]
                t[k] = val
                g.append({"k": k, "v": v})
            doc = {"global": t} if d["has"] else {}
            for k, v in (d["rules"] or {}).items():
                doc[k] = json.loads(v)
                r.append({"k": k, "v": v})
            drv.append({"Op": "read", "Text": rng.choice(["", " ", "\n"]) + json.dumps(doc, indent=rng.choice([None, 2])) + rng.choice(["", "\n"])})
            sp.append({"op": "read", "doc": {"has": d["has"], "glob": g, "rules": r}})
        else:
            drv.append({"Op": o["op"], "K": o.get("k", ""), "V": o.get("v", "")})
            sp.append(o)
    return drv, sp

def random_history(rng):
    opts = ["a", "b", "nosec", "show-ignored", "#nosec", "include", "exclude", "audit"]
    vals = ["true", "enabled", "false", "x", "", "a\"b<c>&d", "é", "<null>", "num:12", "num:1.5", "num:false", "num:-3", "TRUE", "Enabled", "true "]
    secs = ["R", "S", "G301"]
    jsons = ['"0o600"', "1", "null", "{\"a\":[\"b\",1]}", "[true]", "\"\"", "{\"pattern\":\"x\\u003cy\"}"]
    ops = []
    for _ in range(rng.randint(3, 10)):
        w = rng.random()
        if w < .35:
            has = rng.random() < .6
            ops.append({"op": "read", "doc": {"has": has, "glob": {k: rng.choice(vals) for k in rng.sample(opts, rng.randint(0, 4))} if has else {},
                                              "rules": {k: rng.choice(jsons) for k in rng.sample(secs, rng.randint(0, 2))}}})
        elif w < .65:
            ops.append({"op": "global", "k": rng.choice(opts), "v": rng.choice([v for v in vals if not v.startswith(("num:", "<null"))])})
        elif w < .8:
            ops.append({"op": "section", "k": rng.choice(secs), "v": rng.choice(jsons)})
        else:
            ops.append({"op": "reload"})
    return ops

def run(ctx):
    rng = ctx.rng
    cases = ctx.enumerate("Config", env={"HIST": str(ctx.pick(2, 3))})
    hist = [c["ops"] for c in cases if c["kind"] == "api"]
    cli = [(c["doc"], c["flags"]) for c in cases if c["kind"] == "cli"]
    hist += [random_history(rng) for _ in range(ctx.pick(700, 6000))]
    pairs = [history(h, rng) for h in hist]
    opts = ["a", "b", "nosec", "show-ignored", "#nosec", "include", "exclude", "audit", "ssa"]
    secs = ["R", "S", "G301", "G999"]
    obs = []
    resp, p = ctx.drive("config", {"Histories": [d for d, _ in pairs], "Opts": opts, "Secs": secs, "Docs": BAD})
    if resp is None:
        ctx.fail("crash", "the configuration object crashes: " + (p.stderr[-1500:] if p else "timeout"), {})
    else:
        for d in resp["accepted"]:
            ctx.fail("malformed:" + d, "the malformed configuration %r is accepted" % d, {})
        for (d, sp), got in zip(pairs, resp["histories"]):
            obs.append({"kind": "api", "steps": [{"op": o, "refused": g["refused"], "after": {"opts": g["opts"], "secs": g["secs"]}} for o, g in zip(sp, got)], "drv": json.dumps(d)})
    # the command
    text, probes = program()
    root = ctx.module("c14", {"a.go": text})
    rng.shuffle(cli)
    jobs = cli[:ctx.pick(230, 5000)]
    dom = {k: sorted({c[0][k] for c in cli}) for k in NAME}
    fdom = {k: sorted({c[1][k] for c in cli}) for k in ("nosec", "show", "audit", "tag")}
    for _ in range(ctx.pick(60, 1500)):
        jobs.append(({k: rng.choice(v) for k, v in dom.items()}, {k: rng.choice(v) for k, v in fdom.items()}))
    seeds = [rng.getrandbits(40) for _ in jobs]
    import random
    def one(job):
        n, (doc, flags) = job
        r0 = random.Random(seeds[n])
        t, d = doc_of(doc, r0)
        args = []
        if t != "{}" or r0.random() < .5:
            args = ["-conf", ctx.write("c14/%d.json" % n, t)]
        for k, fl in (("nosec", "-nosec"), ("show", "-show-ignored"), ("audit", "-enable-audit")):
            if flags[k] == "true":
                args.append(r0.choice([fl, fl + "=true"]))
            elif flags[k] == "false":
                args.append(fl + "=false")
        if flags["tag"]:
            args.append("-nosec-tag=" + flags["tag"])
        fl = dict(flags, track=r0.random() < .4)
        if fl["track"]:
            args.append("-track-suppressions")
        args += ["-include=G401,G104"] + ctx.noise(r0)
        rep, r = ctx.scan(root, args)
        if rep is None:
            ctx.fail("cli:noreport", "no report with %s and configuration %s: %s" % (args, t, r["err"][-600:]), {"args": args, "conf": t})
            return None
        got = [{"id": "%s:%s" % (i["rule_id"], i["line"]), "nosec": i["nosec"], "supp": bool(i["suppressions"])} for i in rep["Issues"] or []]
        return {"kind": "cli", "conf": d, "flags": fl, "probes": probes, "got": got, "found": rep["Stats"]["found"], "honoured": rep["Stats"]["nosec"], "rc": r["rc"],
                "drv": "%s with configuration %s" % (" ".join(args), t)}
    obs += [x for x in ctx.pool(one, list(enumerate(jobs))) if x]
    # malformed configuration files are refused before anything is scanned
    for n, t in enumerate(BAD + ["{\"global\":[]}", "{\"global\":\"nosec\"}", "{\"global\":1}"]):
        f = ctx.write("c14/bad%d.json" % n, t)
        rep, r = ctx.scan(root, ["-conf", f])
        if rep is not None or r["rc"] == 0:
            ctx.fail("cli:malformed:" + t, "gosec accepts the malformed configuration file %r" % t, {})
    rep, r = ctx.scan(root, ["-conf", ctx.path("no/such.json")])
    if rep is not None or r["rc"] == 0:
        ctx.fail("cli:missing", "gosec accepts a configuration file which does not exist", {})
    bad = ctx.validate("ConfigVal", obs)
    for i, why in bad.items():
        ctx.fail(obs[i]["kind"], "%s: %s" % ("; ".join(sorted(why))[:400], obs[i]["drv"][:500]), {"why": why, "how": obs[i]["drv"]})
    ctx.sample(obs[-1]["drv"] if obs else "none")
    return ctx.finish(histories=len(pairs), scans=len(jobs))
