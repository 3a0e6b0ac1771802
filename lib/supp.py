"""Programs with findings and annotations, for the suppression checks (C01, C02)."""
RULE = {"A": "G401", "B": "G115", "Z": "G304"}
INV = {v: k for k, v in RULE.items()}
HEADER = """package %s

import "crypto/md5"

func use%s(v ...interface{}) {}
"""

class Fn:
    """One function; lines carry comments above/trailing; logical lines number code lines only."""
    def __init__(self):
        self.lines = []      # text
        self.finds = []      # (s, e, rule)
        self.places = []     # dict(id, kind, line, s, e)
        self.n = 0

    def emit(self, text):
        self.lines.append(text)
        return len(self.lines)

    def place(self, kind, line, s, e, name=None):
        self.places.append({"id": name or "%s%d" % (kind, line), "kind": kind, "line": line, "s": s, "e": e})

def stmt(fn, kind, suf, name=None):
    """kind: AB, A, B, N, multiA"""
    if kind == "multiA":
        a = fn.emit("use%s(md5.Sum(" % suf)
        b = fn.emit("[]byte(\"x\"),")
        c = fn.emit("))")
        fn.finds.append((a, c, "A"))
        fn.place("above", a, a, c, name and name + "Above")
        fn.place("trail", a, a, a, name and name + "Open")
        fn.place("trail", b, b, b, name and name + "Arg")
        fn.place("trail", c, a, c, name and name + "Close")
        return
    text = {"AB": "use%s(md5.Sum(nil), int8(p))", "A": "use%s(md5.Sum(nil))", "B": "use%s(int8(p))", "N": "use%s(p)"}[kind] % suf
    l = fn.emit(text)
    if "A" in kind:
        fn.finds.append((l, l, "A"))
    if "B" in kind:
        fn.finds.append((l, l, "B"))
    fn.place("above", l, l, l, name and name + "Above")
    fn.place("trail", l, l, l, name and name + "Trail")

def shape(suf):
    """The fixed shape of SuppressCases.tla."""
    fn = Fn()
    fn.emit("func F%d(p int, c bool) {")
    stmt(fn, "AB", suf, "s1")
    i = fn.emit("if c {")
    stmt(fn, "multiA", suf, "s2")
    stmt(fn, "B", suf, "s3")
    j = fn.emit("}")
    stmt(fn, "A", suf, "s4")
    e = fn.emit("}")
    fn.place("above", 1, 1, e, "funcAbove"); fn.place("trail", 1, 2, 2, "funcOpen"); fn.place("trail", e, 1, e, "funcClose")
    fn.place("above", i, i, j, "ifAbove"); fn.place("trail", i, i + 1, i + 3, "ifOpen"); fn.place("trail", j, i, j, "ifClose")
    return fn

def settle(chosen):
    """Go's comment association sends a comment behind an opening brace to the preceding statement
    when another comment follows on the next line; keep such ambiguous layouts out."""
    above = {p["line"] for p in chosen if p["kind"] == "above"}
    return [p for p in chosen if not (p["kind"] == "trail" and p["s"] > p["line"] and p["line"] + 1 in above)]

def random_fn(rng, suf):
    fn = Fn()
    fn.emit("func F%d(p int, c bool) {")
    def block(depth):
        first = None
        for _ in range(rng.randint(1, 3)):
            k = rng.choice(["AB", "A", "B", "N", "multiA", "if", "for"] if depth < 3 else ["AB", "A", "B", "N", "multiA"])
            if k in ("if", "for"):
                i = fn.emit("if c {" if k == "if" else "for c {")
                fs, fe = block(depth + 1)
                j = fn.emit("}")
                fn.place("above", i, i, j); fn.place("trail", i, fs, fe); fn.place("trail", j, i, j)
                first = first or (i, j)
            else:
                i = len(fn.lines) + 1
                stmt(fn, k, suf)
                first = first or (i, len(fn.lines))
        return first
    fs, fe = block(0)
    e = fn.emit("}")
    fn.place("above", 1, 1, e); fn.place("trail", 1, fs, fe); fn.place("trail", e, 1, e)
    return fn

JUST = ["", "", "", "false positive", "see G401 and G115", "a-b c", "why, because: x"]
DECOYS = ["// see #nosec G401", "// gosec:disable", "// nosec", "//gosec:disabled G401", "// #NOSEC", "// G401 G115", "/* not #nosec */"]

def annotation(rng, place, rules, alt="falsepositive", form=None):
    """Spell an annotation; returns dict(lines, alt, just)."""
    ids = [RULE[r] for r in sorted(rules)]
    rng.shuffle(ids)
    sep = rng.choice([" ", ",", ", "])
    args = (" " + sep.join(ids)) if ids else ""
    just = rng.choice(JUST)
    jt = ""
    if just:
        jt = rng.choice([" -- ", " --- ", " --"]) + just
    f = form if form is not None else rng.choice(["nosec", "nosec", "tight", "block", "directive", "alt", "second", "mentioned"])
    if f in ("second", "mentioned") and place["kind"] != "above":
        f = "nosec"
    if f == "directive" and args == "" and jt:
        pass
    if f == "nosec":
        lines = ["// #nosec" + args + jt]
    elif f == "tight":
        lines = ["//#nosec" + args + jt]
    elif f == "block":
        lines = ["/* #nosec" + args + jt + " */"]
    elif f == "directive":
        lines = ["//gosec:disable" + args + jt]
    elif f == "alt":
        lines = ["// #" + alt + args + jt]
    elif f == "second":
        lines = ["// G999 some words", "// #nosec" + args + jt]
    else:
        # the lines before the annotation only talk about annotations
        talk = rng.choice(["see #nosec", "a #nosec G401 hides it", "like #nosec G115 -- but not here", "no #nosec -- really", "not -- a #nosec"])
        lines = rng.choice([["// " + talk, "// #nosec" + args + jt], ["/* " + talk, "#nosec" + args + jt + " */"],
                            ["// " + talk, "// " + talk, "//", "//   #nosec" + args + jt]])
    return {"lines": lines, "alt": f == "alt", "just": just, "s": place["s"], "e": place["e"], "rules": sorted(rules), "place": place}

def render(fn, num, annots, decoys=()):
    """-> (text lines, map logical line -> physical offset)"""
    above, trail = {}, {}
    for a in annots:
        (above if a["place"]["kind"] == "above" else trail).setdefault(a["place"]["line"], []).extend(a["lines"])
    for place, text in decoys:
        (above if place["kind"] == "above" else trail).setdefault(place["line"], []).append(text)
    out, phys = [], {}
    for i, t in enumerate(fn.lines, 1):
        for c in above.get(i, []):
            out.append(c)
        if i == 1:
            t = t % num
        tr = trail.get(i, [])
        out.append(t + (" " + " ".join(tr) if tr else ""))
        phys[i] = len(out)
    return out, phys

def build(ctx, name, fns, per_file=60, pkg="p"):
    """fns: list of (fn, annots, decoys). Returns root, locator {(file, line-range, rule): (fn index, finding index)}."""
    files, loc = {}, {}
    root_files = {}
    for base in range(0, len(fns), per_file):
        k = base // per_file
        fname = "f%03d.go" % k
        lines = (HEADER % (pkg, k)).split("\n")
        for idx in range(base, min(base + per_file, len(fns))):
            fn, annots, decoys = fns[idx]
            text, phys = render(fn, idx, annots, decoys)
            start = len(lines)
            lines += [t.replace("use@(", "use%d(" % k) for t in text] + [""]
            for fi, (s, e, r) in enumerate(fn.finds):
                ps, pe = start + phys[s], start + phys[e]
                loc[(fname, "%d" % ps if ps == pe else "%d-%d" % (ps, pe), RULE[r])] = (idx, fi)
        # a comment behind the last declaration of a file belongs to the whole file: end with plain code
        lines += ["func last%d() {}" % k]
        root_files[fname] = "\n".join(lines) + "\n"
    return ctx.module(name, root_files), loc

def observe(ctx, rep, loc, fns, opts, alt_on, tag):
    """Turn a report into observations for SuppressVal."""
    got = {}
    extra = []
    import os
    for i in rep["Issues"] or []:
        key = (os.path.basename(i["file"]), i["line"], i["rule_id"])
        if key not in loc:
            if i["rule_id"] not in INV:
                continue
            extra.append(key)
            continue
        got.setdefault(loc[key], []).append(i)
    for key in extra:
        ctx.fail("invented", "finding reported where the program has none: %s (%s)" % (key, tag), {"finding": key, "run": tag})
    obs = []
    for idx, (fn, annots, _) in enumerate(fns):
        act = [a for a in annots if alt_on or not a["alt"]]
        g = []
        for fi in range(len(fn.finds)):
            iss = got.get((idx, fi), [])
            rec = {"listed": len(iss), "nosec": False, "ins": [], "ext": 0}
            if iss:
                rec["nosec"] = bool(iss[0]["nosec"])
                for s in iss[0].get("suppressions") or []:
                    if s["kind"] == "inSource":
                        rec["ins"].append(s["justification"])
                    elif s["kind"] == "external" and s["justification"] == "Globally suppressed.":
                        rec["ext"] += 1
                    else:
                        rec["ext"] += 100
            g.append(rec)
        obs.append({"kind": "fn", "annots": [{"s": a["s"], "e": a["e"], "rules": a["rules"], "just": a["just"]} for a in act],
                    "finds": [{"s": s, "e": e, "rule": r} for s, e, r in fn.finds], "opts": opts, "got": g, "run": tag, "fn": idx})
    issues = rep["Issues"] or []
    nopen = sum(1 for i in issues if not i["nosec"] and not i.get("suppressions"))
    total = sum(len([a for a in an if alt_on or not a["alt"]]) for _, an, _ in fns)
    obs.append({"kind": "count", "annots": total, "off": opts["off"], "nosec": rep["Stats"]["nosec"], "found": rep["Stats"]["found"], "open": nopen, "run": tag})
    return obs

def report_bad(ctx, bad, obs, fns):
    for i, why in bad.items():
        o = obs[i]
        src = None
        if o["kind"] == "fn":
            fn, annots, decoys = fns[o["fn"]]
            src = "\n".join(render(fn, o["fn"], annots, decoys)[0])
        ctx.fail("%s:%s" % (o["kind"], o["run"].split()[0] if o["run"] else ""), "; ".join(why) + (" in\n" + src if src else ""), {"observation": o, "source": src})
