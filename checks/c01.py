"""C01: in-source suppression (spec: Suppress.tla, SuppressCases.tla, SuppressVal.tla)."""
import json
import supp

def run(ctx):
    rng = ctx.rng
    ctx.model("Suppress", "Suppress3.cfg" if ctx.thorough else "Suppress.cfg", timeout=3000)
    cases = ctx.enumerate("SuppressCases")
    if not ctx.thorough:
        singles = [c for c in cases if len(c["annots"]) < 2]
        pairs = [c for c in cases if len(c["annots"]) == 2]
        cases = singles + pairs
    fns = []
    for c in cases:
        fn = supp.shape("@")
        pl = {p["id"]: p for p in fn.places}
        fns.append((fn, [supp.annotation(rng, pl[a["place"]], a["rules"]) for a in c["annots"]], []))
    nrand = ctx.pick(500, 5000)
    for _ in range(nrand):
        fn = supp.random_fn(rng, "@")
        k = rng.randint(0, min(6, len(fn.places)))
        chosen = supp.settle(rng.sample(fn.places, k))
        used = {p["id"] for p in chosen}
        rest = [p for p in fn.places if p["id"] not in used and p["line"] not in {q["line"] for q in chosen}]
        dec = []
        rest = [p for p in rest if p["kind"] == "trail" and p["s"] <= p["line"]]
        if rest and rng.random() < 0.5:
            dec.append((rng.choice(rest), rng.choice(supp.DECOYS)))
        fns.append((fn, [supp.annotation(rng, p, rng.choice([[], ["A"], ["B"], ["A", "B"], ["Z"], ["A", "Z"]])) for p in chosen], dec))
    root, loc = supp.build(ctx, "c01", fns)
    conf_alt = ctx.write("alt.json", json.dumps({"global": {"#nosec": "falsepositive"}}))
    conf_off = ctx.write("off.json", json.dumps({"global": {"nosec": "true"}}))
    conf_en = ctx.write("en.json", json.dumps({"global": {"nosec": "enabled"}}))
    none = {"track": False, "show": False, "off": False, "deselected": []}
    off = dict(none, off=True)
    runs = [("default", [], none, False), ("alt-flag", ["-nosec-tag=falsepositive"], none, True),
            ("alt-conf", ["-conf", conf_alt], none, True), ("off-flag", ["-nosec"], off, True),
            ("off-conf", ["-conf", conf_off], off, True), ("off-enabled", ["-conf", conf_en, "-nosec-tag=falsepositive"], off, True)]
    reps = ctx.pool(lambda r: ctx.must_scan(root, ["-include=G401,G115"] + r[1], key=r[0]), runs)
    for (tag, args, opts, alt), rep in zip(runs, reps):
        if rep is None:
            continue
        obs = supp.observe(ctx, rep, loc, fns, opts, alt, tag)
        bad = ctx.validate("SuppressVal", obs)
        supp.report_bad(ctx, bad, obs, fns)
    ctx.sample({"function": supp.render(fns[-1][0], 0, fns[-1][1], fns[-1][2])[0], "annotations": [{k: a[k] for k in ("s", "e", "rules", "just")} for a in fns[-1][1]]})
    return ctx.finish(functions=len(fns), enumerated=len(cases), random=nrand, runs=len(runs))
