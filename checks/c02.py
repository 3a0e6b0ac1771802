"""C02: suppression accounting (spec: Suppress.tla Accounting/Listed/Records, SuppressVal.tla)."""
import itertools, json
import supp

SELECT = [("", []), ("-include=G401,G115", []), ("-exclude=G401", ["A"]), ("-exclude=G115", ["B"]), ("-include=G401", ["B"]),
          ("-include=G115", ["A"]), ("-exclude=G401,G115", ["A", "B"]), ("-include=G401,G115 -exclude=G115", ["B"])]

def run(ctx):
    rng = ctx.rng
    ctx.model("Suppress")
    cases = ctx.enumerate("SuppressCases")
    singles = [c for c in cases if len(c["annots"]) < 2]
    pairs = [c for c in cases if len(c["annots"]) == 2]
    rng.shuffle(pairs)
    fns = []
    for c in singles + pairs[:ctx.pick(120, 1080)]:
        fn = supp.shape("@")
        pl = {p["id"]: p for p in fn.places}
        fns.append((fn, [supp.annotation(rng, pl[a["place"]], a["rules"]) for a in c["annots"]], []))
    for _ in range(ctx.pick(120, 1500)):
        fn = supp.random_fn(rng, "@")
        chosen = supp.settle(rng.sample(fn.places, rng.randint(1, min(7, len(fn.places)))))
        fns.append((fn, [supp.annotation(rng, p, rng.choice([[], [], ["A"], ["B"], ["A", "B"], ["Z"]])) for p in chosen], []))
    root, loc = supp.build(ctx, "c02", fns)
    runs = []
    for (track, show, off), (sel, des) in itertools.product(itertools.product([False, True], repeat=3), SELECT):
        args = (["-track-suppressions"] if track else []) + (["-show-ignored"] if show else []) + (["-nosec"] if off else []) + sel.split()
        runs.append((" ".join(args) or "plain", args + ["-nosec-tag=falsepositive"], {"track": track, "show": show, "off": off, "deselected": des}))
    reps = ctx.pool(lambda r: ctx.must_scan(root, r[1], key="scan"), runs)
    allobs = []
    for (tag, args, opts), rep in zip(runs, reps):
        if rep is None:
            continue
        allobs += supp.observe(ctx, rep, loc, fns, opts, True, tag)
    bad = ctx.validate("SuppressVal", allobs, timeout=1800)
    supp.report_bad(ctx, bad, allobs, fns)
    ctx.sample({"run": runs[-1][0], "observation": allobs[-2] if allobs else None})
    return ctx.finish(functions=len(fns), runs=len(runs))
