"""C26: rules are fully described and label their findings (spec: Catalogue.tla, CatalogueVal.tla)."""
import os, re
import corpus, formats, pieces, samples, vk
from checks.c22 import parts_text, REQ

CONFIGS = [{}, {"G101": {"pattern": "(?i)x", "ignore_entropy": True}, "G301": "0o700", "G302": "0o400", "G306": "0o400", "G307": "0o600", "global": {"audit": "enabled", "nosec": "true"}}]

def run(ctx):
    for o in ("Hasty", "LastBuilt"):
        if ctx.tlc("Catalogue", "Catalogue_%s.cfg" % o, expect_ok=False)["rc"] == 0:
            raise vk.CheckError("the specification does not tell a %s system from a good one" % o)
    ctx.model("Catalogue")
    r = ctx.rng
    obs = []
    foreign = ["", "G", "G100", "G105", "G113", "G000", "G999", "G1010", "g101", " G101", "G101 ", "101", "G10", "G408", "G508", "G603", "CWE-22", "22"]
    resp, p = ctx.drive("catalogue", {"Foreign": foreign})
    if resp is None:
        ctx.fail("crash", "listing the rules aborted: %s" % (p.stderr[-1500:] if p else "timeout"))
        return ctx.finish()
    for d in resp["defs"]:
        obs.append({"what": "defs", "kind": d["kind"], "rules": d["rules"]})
    obs.append({"what": "weak", "entries": resp["entries"]})
    obs.append({"what": "foreign", "ids": resp["foreign"]})
    lib = {x["id"]: x["text"] for d in resp["defs"] for x in d["rules"]}
    for args in (["-h"], ["-track-suppressions", "-h"]):
        u = ctx.gosec(ctx.scratch, args)
        text = u["out"] + u["err"]
        obs.append({"what": "list", "from": "usage", "rules": [{"id": i, "text": t, "same": lib.get(i) == t} for i, t in re.findall(r"^\t(G\w+): ?(.*)$", text.split("RULES:")[-1], re.M)]})
    readme = open(os.path.join(vk.REPO, "README.md"), encoding="utf-8").read()
    sect = re.search(r"^### Available rules\n(.*?)^###? ", readme, re.S | re.M)
    obs.append({"what": "list", "from": "documentation", "rules": [{"id": i, "text": t, "same": True} for i, t in re.findall(r"^- (G\w+): *(.*)$", sect.group(1) if sect else "", re.M)]})
    # programs
    root = ctx.module("c26", {"go.sum": open(os.path.join(vk.REPO, "go.sum")).read()}, requires=REQ)
    dirs = []
    def put(rel, text):
        q = os.path.join(root, rel)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, "w").write(text)
    for k, (imp, text) in enumerate(pieces.P):
        d = "pieces%d" % (k % 4)
        t, _ = parts_text(imp, [("x", text.replace("\0", "1_%d" % k))])
        put("%s/x%d.go" % (d, k), t)
    for k, i in enumerate(sorted({i for q in pieces.P for i in q[0]} | set(pieces.IMPORTS))):
        put("pieces%d/i%d.go" % (k % 4, k), parts_text([i], [])[0])
    for k in range(4):
        put("pieces%d/zhelp.go" % k, pieces.HELP)
        dirs.append("pieces%d" % k)
    for rel, text in corpus.files().items():
        put(rel, text)
        d = os.path.dirname(rel)
        if d not in dirs:
            dirs.append(d)
    ss = [s for s in samples.load(vk.REPO) if not any('import "C"' in f or "golang.org" in f or "github.com" in f for f in s["files"])]
    by = {}
    for s in ss:
        by.setdefault(s["name"], []).append(s)
    pick = []
    for n in sorted(by):
        r.shuffle(by[n])
        pick += by[n][:ctx.pick(4, 1000)]
    wdirs = []
    for k, s in enumerate(pick):
        for j, f in enumerate(s["files"]):
            put("w%d/s%d.go" % (k, j), f)
        wdirs.append("w%d" % k)
    env = {"GOSECGOVERSION": "go1.21"}
    ids = sorted(lib)
    sess, keys = [], []
    def session(ds, inc, conf):
        keys.append((ds, tuple(inc), conf))
        sess.append({"Ops": [{"Op": "scan", "Paths": [os.path.join(root, d)]} for d in ds], "Config": CONFIGS[conf], "Include": list(inc), "Tests": False, "Track": False, "Concurrency": 1})
    for conf in (0, 1):
        session(tuple(dirs), (), conf)
        for d in range(0, len(wdirs), 20):
            session(tuple(wdirs[d:d + 20]), (), conf)
    for i in ids:
        for conf in ctx.pick([r.randint(0, 1) if i != "G307" else 1], [0, 1]):
            session(tuple(dirs), (i,), conf)
    for _ in range(ctx.pick(16, 100)):
        session(tuple(r.sample(dirs + wdirs, min(6, len(dirs)))), tuple(sorted(r.sample(ids, r.randint(2, len(ids) - 1)))), r.choice([0, 1]))
    # samples of a rule with this rule alone
    for k, s in enumerate(pick):
        if s["name"].upper() in lib:
            session(("w%d" % k,), (s["name"].upper(),), 0)
    resp, p = ctx.drive("history", {"Sessions": sess, "Parallel": 8}, env=env, cwd=root, timeout=800)
    if resp is None:
        ctx.fail("crash", "the scanner aborted: %s" % (p.stderr[-1500:] if p else "timeout"))
        return ctx.finish()
    seen, last = {}, {}
    for (ds, inc, conf), steps in zip(keys, resp):
        for st in steps:
            if st["Panic"] or st["Err"]:
                ctx.fail("crash", "scanning %s: %s%s" % (ds, st["Panic"], st["Err"]), {})
        finds = steps[-1]["Issues"]
        if any(d.startswith("pieces") and steps[-1]["Errors"] for d in ds) and not any(d.startswith("w") for d in ds):
            raise vk.CheckError("the programs do not compile: %s" % steps[-1]["Errors"])
        sc = sorted({(f["Rule"], f["Cwe"], f["Sev"] + " " + f["Conf"], bool(f["What"].strip()) and "%!" not in f["What"],
                      bool(f["File"].startswith(root)) and bool(re.fullmatch(r"[1-9]\d*(-[1-9]\d*)?", f["Line"])) and bool(re.fullmatch(r"[1-9]\d*", f["Col"]))) for f in finds})
        for f in sc:
            seen.setdefault(f[0], set()).add(f[2])
        obs.append({"what": "finds", "sel": list(inc), "dirs": list(ds)[:8], "finds": [dict(zip(("rule", "cwe", "sc", "text", "place"), f)) for f in sc]})
        last[ds, inc, conf] = ["%s:%s:%s %s %s %s" % (os.path.relpath(f["File"], root) if f["File"] else "", f["Line"], f["Col"], f["Rule"], f["Sev"] + f["Conf"], f["What"]) for f in finds]
    alld = last[tuple(dirs), (), 0]
    for i in ids:
        for conf in (0, 1):
            if (tuple(dirs), (i,), conf) in last:
                obs.append({"what": "alone", "rule": i, "alone": sorted(last[tuple(dirs), (i,), conf]), "all": sorted(e for e in last[tuple(dirs), (), conf] if e.split()[1:2] == [i])})
    unseen = [i for i in ids if i not in seen]
    ctx.extra["rules_with_findings"] = len(seen)
    if unseen:
        ctx.log("no findings of", *unseen)
    # what reports say
    for fmt, reader in formats.READERS.items():
        out = ctx.path("report." + fmt)
        g = ctx.gosec(root, ["-quiet", "-fmt", fmt, "-out", out, "-no-fail"] + ["./" + d for d in dirs], env=env)
        doc = open(out, "rb").read() if os.path.exists(out) else b""
        try:
            recs, extra = reader(doc, [])
        except Exception as e:
            ctx.fail("report " + fmt, "unreadable: %r" % e, {})
            continue
        if fmt == "html":
            recs = [{"rule": x["rule_id"], "cwe": x["cwe"]["id"] if x["cwe"] else ""} for x in extra["data"]["Issues"]]
        fs = {(x.get("rule"), x["cwe"]) for x in recs if x.get("rule") is not None and "cwe" in x}
        if fmt == "sarif":
            fs = {(i, c) for i, cs in zip(extra["rules"], extra["relations"]) for c in cs} | {(i, "none") for i, cs in zip(extra["rules"], extra["relations"]) if len(cs) != 1}
            fs |= {(x["rule"], "none") for x in recs if x["rule"] not in extra["rules"] or extra["rules"][x["ruleIndex"]] != x["rule"]}
        if fmt in ("json", "sarif") and {a for a, _ in fs} != {e.split()[1] for e in alld}:
            ctx.fail("report " + fmt, "names the rules %s instead of %s" % (sorted({a for a, _ in fs}), sorted({e.split()[1] for e in alld})), {})
        if fs:
            obs.append({"what": "report", "fmt": fmt, "finds": [{"rule": a, "cwe": c} for a, c in sorted(fs)]})
    for i, why in ctx.validate("CatalogueVal", obs, chunk=200).items():
        o = obs[i]
        ctx.fail("%s %s" % (o["what"], o.get("rule") or o.get("fmt") or o.get("kind") or o.get("from") or ""), "; ".join(sorted(why))[:900] if not isinstance(why, str) else why[:900], o)
    ctx.sample({"findings": len(alld), "rules": sorted(seen)})
    return ctx.finish()
