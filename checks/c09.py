"""C09: report formats (spec: Report.tla, ReportMC.tla, ReportVal.tla)."""
import base64, json, os, random
import corpus, formats
from formats import norm

FMTS = ["json", "yaml", "csv", "junit-xml", "html", "text", "sonarqube", "golint", "sarif"]
CWES = ["", "798", "200", "22", "78", "327", "276", "9999"]
NASTY = ['"', "'", "<", ">", "&", ",", ";", "\t", "]]>", "</script>", "<!--", "&amp;", "%", "#", "\\", "\\n", "{{.}}", "${x}", "é", "日本", "\U0001f600", "\u2028", "\ufeff",
         "\x07", "\x00", "\x1b", "\x7f", "\u0085", "\ud7ff", "=1+1", "- ", ": ", "|", "~", "null", "1e3", "`", "*", "[x]", "(y)", "<script>alert(1)</script>", "  ", "\ufffe"]
BREAKS = ["\n", "\r\n", "\r", "\n\n"]

def text(rng, n, breaks, raw=False):
    parts = []
    for _ in range(rng.randint(1, n)):
        x = rng.random()
        parts.append(rng.choice(NASTY) if x < .55 else rng.choice(BREAKS) if breaks and x < .7 else rng.choice(["abc", "x y", "Use of", "p.q", "Z"]))
    b = "".join(parts).encode("utf-8")
    if raw and rng.random() < .3:
        b = b + b"\xff" + b"z"
    return b

def seps(s):
    # a path component as the file systems and gosec's own line-oriented formats can hold it
    return s.replace(b"/", b"_").replace(b"\x00", b"_")

def code(rng, start, end):
    L = []
    for n in range(max(1, start - 1), end + 2):
        L.append("%d: " % n + rng.choice(["", "\t"]) + dec1(text(rng, 4, False)))
    return ("\n".join(L) + "\n").encode()

def dec1(b):
    return b.decode("utf-8", "replace").replace("\n", " ").replace("\r", " ")

def finding(rng, rules, safe, roots):
    """safe: no line breaks or terminal codes where line-oriented formats would need them escaped."""
    start = rng.choice([1, 2, 9, 10, 11, 99, 100, 4096])
    end = start if rng.random() < .6 else start + rng.randint(1, 4)
    comps = [seps(text(rng, 2, not safe, True)) for _ in range(rng.randint(1, 3))]
    comps = [c if c not in (b"", b".", b"..") else b"d" for c in comps]
    root = rng.choice(roots + ["/other", "/r"]).encode()
    f = root + b"/" + b"/".join(comps) + b".go"
    what = text(rng, 4, not safe, True)
    fix = b"" if rng.random() < .6 else text(rng, 5, not safe)
    if safe:
        clean = lambda b: b.replace(b"\x1b", b"").replace(b"\xc2\x85", b"").replace(b"\xe2\x80\xa8", b"")
        f, what, fix = clean(f), clean(what), clean(fix)
    else:
        pass
    # the YAML library writes unreadable block scalars for texts which start with white space and
    # hold line breaks: a known finding with its own case below
    if not safe:
        f = f if f.strip() == f and not f.startswith(b"\xc2\x85") else b"/r" + f
        what, fix = (x if x[:1].strip() and not x.startswith((b"\xc2\x85", b"\xe2\x80\xa8")) else b"w" + x for x in (what, fix or b"-"))
    what = what or b"w"
    if not what.strip():
        what = b"w" + what
    supp = []
    if rng.random() < .25:
        supp = [[rng.choice(["inSource", "external"]), dec1(text(rng, 3, False))] for _ in range(rng.randint(1, 2))]
    return {"Sev": rng.randrange(3), "Conf": rng.randrange(3), "Rule": rng.choice(rules), "What": what, "File": f, "Code": code(rng, start, end),
            "Line": str(start) if end == start else "%d-%d" % (start, end), "Col": str(rng.choice([1, 2, 14, 200])), "Cwe": rng.choice(CWES), "NoSec": rng.random() < .15,
            "Supp": supp, "Fix_": fix, "safe": safe}

def wire(f):
    d = {k: v for k, v in f.items() if k != "safe"}
    for k in ("What", "File", "Code", "Fix_"):
        d[k] = base64.b64encode(d[k]).decode()
    return d

def given(fmt, f, T, rank):
    r = formats.rng(f["Line"])
    return {"rule": rank[f["Rule"]], "sev": f["Sev"], "conf": f["Conf"], "file": formats.path_ids(T, norm(fmt, f["File"])), "start": r["start"], "end": r["end"], "col": int(f["Col"]),
            "what": T(norm(fmt, f["What"])), "code": T(norm(fmt, f["Code"])), "cwe": int(f["Cwe"] or 0), "nosec": f["NoSec"], "fix": T(norm(fmt, f["Fix_"])),
            "supp": [T(json.dumps(s)) for s in f["Supp"]], "snip": T(snippet(norm(fmt, f["Code"]), r["start"], r["end"]))}

def snippet(code, start, end):
    """The code of the lines start..end as SARIF shows it."""
    L = []
    for ln in code.split("\n"):
        n, _, t = ln.partition(":")
        if n.isdigit() and start <= int(n) <= end:
            L.append(t.strip())
    return L[0] if len(L) == 1 and start == end else "".join(x + "\n" for x in L)

def observe(ctx, fmt, doc, err, fs, roots, rank, deep=False, color=False, shown=None):
    """One observation for ReportVal; fs as in finding()."""
    T = formats.Interner()
    gs = [given(fmt, f, T, rank) for f in fs]
    o = {"kind": "doc", "fmt": fmt, "wellformed": False, "records": [], "findings": gs, "roots": [formats.path_ids(T, r.rstrip("/")) for r in roots], "deep": deep,
         "doc": {}}
    why = err
    if not err:
        try:
            plain = [{"code": norm(fmt, f["Code"]), "fix": norm(fmt, f["Fix_"])} for f in fs]
            if fmt == "html":
                recs, extra = formats.html_cards(shown), None
            elif fmt == "text":
                recs, extra = formats.read_text(doc, plain, color)
            else:
                recs, extra = formats.READERS[fmt](doc, plain)
            for r in recs:
                for k in ("what", "code", "fix", "snip"):
                    if k in r:
                        r[k] = T(r[k])
                if "file" in r:
                    r["file"] = formats.path_ids(T, r["file"])
                if "rule" in r:
                    r["rule"] = rank.get(r["rule"], 0)
                if "cwe" in r:
                    r["cwe"] = int(r["cwe"] or 0)
                if "supp" in r:
                    r["supp"] = [T(json.dumps(s)) for s in r["supp"]]
                if "marked" in r:
                    r["marked"] = [int(x.split(":")[0]) for x in r["marked"]]
            o["records"] = recs
            o["wellformed"] = True
            if fmt == "sarif" and deep:
                o["doc"] = {"rules": [rank.get(x, 0) for x in extra["rules"]], "taxa": [int(x) for x in extra["taxa"]],
                            "relations": [int(x[0] or -1) if x else 0 for x in extra["relations"]], "loose": extra["loose"], "sameGuids": extra["sameGuids"], "supported": extra["supported"],
                            "levels": [x or "" for x in extra["ruleLevels"]], "described": [sorted({T(y) for y in x}) for x in extra["described"]], "nulls": extra["nulls"], "badUris": extra["badUris"], "badValues": extra["badValues"],
                            "objects": [{"kind": k, "has": list(h)} for k, h in extra["objects"]],
                            "results": [{"rule": r["rule"], "ruleIndex": r["ruleIndex"]} for r in recs]}
        except Exception as e:
            why = "%s: %s" % (type(e).__name__, e)
    return o, why

def rank_of(rules):
    return {r: i + 1 for i, r in enumerate(sorted(rules, key=lambda x: x.encode()))}

def render(ctx, cases):
    """Runs the writers; returns the driver's answer with decoded documents."""
    parts = [cases[i::8] for i in range(8) if cases[i::8]]
    ctx.driver()
    def one(p):
        resp, pr = ctx.drive("report", [{"Findings": [wire(f) for f in c["fs"]], "Roots": c["roots"], "Formats": c["formats"], "Color": c.get("color", False), "Fail": c.get("fail", []),
                                         "Stats": [3, 30, 1, len(c["fs"])], "Errors": c.get("errors", {})} for c in p])
        if resp is None:
            raise RuntimeError("driver failed: %s" % (pr and pr.stderr[-2000:]))
        return resp
    res = ctx.pool(one, parts)
    out = [None] * len(cases)
    for k, r in enumerate(res):
        for j, x in enumerate(r):
            for d in x["docs"]:
                d["out"] = base64.b64decode(d["out"])
            out[k + 8 * j] = x
    return out

def judge(ctx, obs, info):
    for i, why in ctx.validate("ReportVal", obs).items():
        o = obs[i]
        ctx.fail("%s:%s" % (o.get("fmt", "fault"), sorted(map(str, why))[0][:40]), "%s -- %s" % (sorted(map(str, why))[:4], info[i][0]), {"case": info[i][1], "observation": o})

def showpages(ctx, todo):
    """todo: list of documents; returns what each page shows."""
    pages, at, out = [], [], [None] * len(todo)
    for i, doc in enumerate(todo):
        try:
            _, ex = formats.read_html(doc, [])
            if len(ex["script"]) != 1:
                raise ValueError("page script")
            pages.append(ex)
            at.append(i)
        except Exception as e:
            out[i] = {"error": "%s: %s" % (type(e).__name__, e)}
    for i, s in zip(at, formats.show_html(pages) if pages else []):
        out[i] = s
    return out

def cli_findings(rep):
    inv = formats.SEV
    out = []
    for i in rep["Issues"]:
        out.append({"Sev": inv[i["severity"]], "Conf": inv[i["confidence"]], "Rule": i["rule_id"], "What": i["details"].encode(), "File": i["file"].encode(), "Code": i["code"].encode(),
                    "Line": i["line"], "Col": i["column"], "Cwe": (i["cwe"] or {}).get("id", ""), "NoSec": i["nosec"], "Supp": [[s["kind"], s["justification"]] for s in i["suppressions"] or []],
                    "Fix_": b""})
    return out

def cli_runs(ctx):
    """The real command: every format, printed, saved and both, from several roots."""
    rng = ctx.rng
    files = {}
    for r, t in sorted(corpus.FILES.items()):
        files["all/%s.go" % r.lower()] = t
    files["sub/a b#1%41.go"] = 'package sub\n\nimport "crypto/md5"\n\nfunc F() {\n\t_ = md5.New() // <b>&"quoted"</b>, é ]]> </script>\n\t_ = md5.New() // #nosec G401 -- because <x> & "y"\n}\n'
    files["sub/deep/c.go"] = 'package deep\n\nimport "os"\n\nfunc G() { _, _ = os.Create("x"); _ = os.Mkdir("d", 0o777) }\n'
    files["subsidiary/d.go"] = files["sub/deep/c.go"].replace("package deep", "package subsidiary")
    root = ctx.module("c09", files, corpus.REQUIRES)
    plans = []
    argsets = [[], ["-track-suppressions"], ["-show-ignored"]]
    pathsets = [["./..."], ["-r"], ["./sub/...", "./subsidiary"], ["./all", "./sub/..."], [root + "/sub/...", "sub/deep"], [root + "/..."]]
    for a in argsets:
        for p in pathsets:
            plans.append((a, p))
    rng.shuffle(plans)
    plans = plans[:ctx.pick(5, len(plans))]
    if not any(p == ["-r"] for a, p in plans):
        plans.append((argsets[1], ["-r"]))
    jobs = []
    for k, (a, p) in enumerate(plans):
        jobs.append((k, a, p, "json", None))
        for f in FMTS:
            jobs.append((k, a, p, f, None))
        for _ in range(2):
            jobs.append((k, a, p, rng.choice(FMTS), rng.choice(FMTS)))
    ctx.cli()
    def one(j):
        k, a, p, f, v = j
        args = list(a) + ["-quiet", "-fmt", f, "-conf", ctx.path("c09conf.json")]
        out = None
        if v:
            out = ctx.path("out%d-%d" % (k, random.getrandbits(40)))
            args += ["-out", out, "-stdout", "-verbose", v]
        r = ctx.gosec(root, args + p, env=corpus.ENV)
        docs = [(v or f, r["raw"])]
        if v:
            docs.append((f, open(out, "rb").read() if os.path.exists(out) else b""))
        return docs, r
    json.dump(corpus.CONF, open(ctx.path("c09conf.json"), "w"))
    res = ctx.pool(one, jobs)
    base = {}
    for j, (docs, r) in zip(jobs, res):
        if j[3] == "json" and j[4] is None and j[0] not in base:
            base[j[0]] = cli_findings(json.loads(docs[0][1]))
    html = [d for (docs, _) in res for f, d in docs if f == "html"]
    shown = iter(showpages(ctx, html))
    obs, info = [], []
    for j, (docs, r) in zip(jobs, res):
        fs = base[j[0]]
        rank = rank_of({f["Rule"] for f in fs})
        roots = ["./..."] if j[2] == ["-r"] else j[2]
        roots = [os.path.normpath(os.path.join(root, x[:-3] if x.endswith("...") else x)) for x in roots]
        for f, d in docs:
            sh = next(shown) if f == "html" else None
            o, why = observe(ctx, f, d, None, fs, roots, rank, True, f == "text", sh)
            obs.append(o)
            info.append((why or "gosec %s %s as %s" % (" ".join(j[1]), " ".join(j[2]), f), {"args": j[1] + j[2], "fmt": j[3], "verbose": j[4], "why": why, "doc": d[:3000].decode("utf-8", "replace"), "err": r["err"][-500:]}))
    judge(ctx, obs, info)
    return len(obs)

def known(ctx):
    """The listed finding: suggestions of several lines which start with white space."""
    base = {"Sev": 1, "Conf": 1, "Rule": "G101", "What": b"w", "File": b"/r/a.go", "Code": b"1: x\n", "Line": "1", "Col": "1", "Cwe": "798", "NoSec": False, "Supp": [], "safe": True}
    for fix in (b"\n\n[x]\n\n", b"\n\n", b"\nuse x", b"  a\nb"):
        fs = [dict(base, Fix_=fix)]
        r = render(ctx, [{"fs": fs, "roots": ["/r"], "formats": ["yaml"]}])[0]
        o, why = observe(ctx, "yaml", r["docs"][0]["out"], r["docs"][0]["err"], fs, ["/r"], rank_of({"G101"}))
        for i, w in ctx.validate("ReportVal", [o]).items():
            ctx.fail("yaml-leading-white-space", "the YAML report of a suggestion %r cannot be read back: %s %s" % (fix, w, why or ""), {"fix": repr(fix), "doc": r["docs"][0]["out"].decode()[-400:]})

def run(ctx):
    rng = ctx.rng
    cases = []
    enum = ctx.enumerate("ReportMC")
    if ctx.tlc("ReportMC", "ReportMC_old.cfg", expect_ok=False)["rc"] == 0:
        ctx.log("note: the old writers have no counterexample any more")
    for n in range(ctx.pick(700, 8000)):
        safe = rng.random() < .6
        roots = rng.sample(["/r", "/r/a", "/r/ab", "/r/a b", "/", "/other", "/r/a/c"], rng.randint(1, 3))
        rules = rng.sample(["G101", "G102", "G201", "G304", "G401", "G402", "G501", "G602", "G115", "G99", "X1"], rng.randint(1, 5))
        fs = [finding(rng, rules, safe, roots) for _ in range(rng.choice([0, 1, 1, 2, 3, 3, 5, 8]))]
        # texts which differ only in what XML cannot hold would make one test suite of two
        names = {}
        for x in fs:
            if names.setdefault(formats.xmlsafe(x["What"].decode("utf-8", "replace")), x["What"]) != x["What"]:
                x["What"] += b"%d" % len(names)
        if fs and rng.random() < .3:
            fs.append(dict(rng.choice(fs)))
        fm = [f for f in FMTS if safe or f not in ("text", "golint")]
        rng.shuffle(fm)
        c = {"fs": fs, "roots": roots, "formats": fm, "color": safe and rng.random() < .3, "safe": safe}
        if rng.random() < .3:
            c["fail"] = [rng.randrange(1 << 20) for _ in fm]
        if rng.random() < .2:
            c["errors"] = {"f<&>.go": [{"Line": 1, "Column": 2, "Err": "expected '<' & \"x\""}]}
        cases.append(c)
    rng.shuffle(enum)
    for e in enum[:ctx.pick(150, len(enum))]:
        fs = []
        for r, s in zip(e["rules"], e["supp"]):
            f = finding(rng, ["R%d" % r], True, ["/r"])
            f["Supp"] = [["inSource", "j"]] * s
            fs.append(f)
        fm = list(FMTS)
        rng.shuffle(fm)
        cases.append({"fs": fs, "roots": ["/r"], "formats": fm, "safe": True})
    res = render(ctx, cases)
    html = []
    for c, r in zip(cases, res):
        for f, d in zip(c["formats"], r["docs"]):
            if f == "html":
                html.append(d["out"])
    shown = iter(showpages(ctx, html))
    obs, info = [], []
    for c, r in zip(cases, res):
        rank = rank_of({f["Rule"] for f in c["fs"]})
        for f, d in zip(c["formats"], r["docs"]):
            sh = next(shown) if f == "html" else None
            o, why = observe(ctx, f, d["out"], d["err"], c["fs"], c["roots"], rank, False, c.get("color", False), sh)
            obs.append(o)
            info.append((why or "", {"formats": c["formats"], "roots": c["roots"], "findings": [wire(x) for x in c["fs"]], "doc": d["out"][:4000].decode("utf-8", "replace"), "why": why}))
        for k, told in enumerate(r.get("fails") or []):
            obs.append({"kind": "fault", "told": told})
            info.append((c["formats"][k % len(c["formats"])], {"fail": c["fail"][k], "fmt": c["formats"][k % len(c["formats"])], "findings": [wire(x) for x in c["fs"]]}))
    judge(ctx, obs, info)
    known(ctx)
    n = cli_runs(ctx)
    ctx.sample({"case": info[0][1]["formats"]})
    return ctx.finish(documents=len(obs), command_documents=n, formats=9)
