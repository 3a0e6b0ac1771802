"""C15: locations and snippets (spec: Locate.tla, LocateVal.tla)."""
import json, os, random, re
import marked

FILL = ["", "// plain", "\t", "/* é ü € 𝄞 */", "var Unused%d = \"x\\n\"", "// %% 100%%s", "/* two\n   lines */", "// \"quoted\" <&>", "func G%d() {}", "const C%d = `raw\n\n string`", "// //line no.go:1", "    "]
MID = ["/* x */ ", "/* é€𝄞 */ ", "/* one\n two */ ", "/*\t*/\t", "/* a */ /* b */ "]

def build(s, n, r):
    """(text with marks) of a sample in a random layout"""
    one = r.random() < .15          # the whole file on as few lines as possible
    nl = "; " if one else "\n"
    imps = [("import " + x if '"' in x else 'import "%s"' % x) for x in s["imports"]]
    ind = "" if one else r.choice(["", "\t", "    ", "\t\t \t"])
    body = nl.join(ind + x for x in s["body"].split("\n")) if s["body"] else ""
    tail = ""
    if body:
        tail = "func F%d() {%s%s%s}" % (n, " " if one else "\n", body, " " if one else "\n")
    parts = ["package all"] + imps + ([s["top"]] if s["top"] else []) + ([tail] if tail else [])
    text = ""
    filled = False
    for i, p in enumerate(parts):
        text += p
        if i < len(parts) - 1:
            text += nl
            if not one and i >= len(imps):
                for _ in range(r.choice([0, 0, 1, 2, 5])):
                    k = r.choice(FILL)
                    text += (k % r.getrandbits(40) if "%" in k and "%%" not in k else k.replace("%%", "%")) + "\n"
    # breaks and comments before the construct
    if r.random() < .08:   # a very long line next to the construct or on it
        i = text.index("«")
        j = text.rfind("\n", 0, i) + 1
        text = text[:j] + "/* %s */" % ("x" * r.choice([70000, 66000, 131072])) + r.choice(["\n", " "]) + text[j:]
    out = ""
    for ch in text:
        if ch == "¶":
            out += r.choice(["", "\n", "\n\n", " // c\n", "\r\n" if 0 else "\n\t"]) if r.random() < .6 else ""
        elif ch == "§":
            out += r.choice(MID) if r.random() < .5 else ""
        else:
            out += ch
    text = out
    if not one and r.random() < .3:
        text = r.choice(["// head\n", "\n\n", "/* a\nb */\n", "//go:build !never\n\n", "/* x */ "]) + text
    if not one and r.random() < .12:
        i = text.index("\n", text.index("package all"))
        text = text[:i] + "\n//line other.go:%d" % r.randint(1, 900) + text[i:]
    if r.random() < .6:
        text += "\n" + r.choice(["", "\n", "// end\n", "// end"])
    if r.random() < .2:
        text = text.replace("\n", "\r\n")
    if r.random() < .05:
        text = "\ufeff" + text
    return text

def facts(text):
    a, b = text.index("«"), text.index("»")
    frm = len(text[:a].encode())
    to = len(text[:b].replace("«", "").encode())
    clean = text.replace("«", "").replace("»", "")
    raw = clean.encode().split(b"\n")
    if raw[-1] == b"" and len(raw) > 1:
        raw.pop()
        ends = [1] * len(raw)
    else:
        ends = [1] * (len(raw) - 1) + [0]
    # a line can be pointed at behind its last byte too
    lines = [{"text": (x[:-1] if x.endswith(b"\r") else x).decode(), "len": len(x) + 1} for x in raw]
    return clean, lines, frm, to

def run(ctx):
    rng = ctx.rng
    ctx.model("Locate")
    conf = ctx.write("conf.json", json.dumps({"G307": "0o600"}))
    obs, n = [], 0
    rounds = ctx.pick(9, 120)
    jobs = []
    for k in range(rounds):
        files, info = {}, {}
        for i, s in enumerate(marked.S):
            n += 1
            r = random.Random("%s/%d/%d" % (ctx.seed, k, i))
            text = build(s, n, r)
            clean, lines, frm, to = facts(text)
            name = r.choice(["s%d.go", "s %d.go", "sé%d.go", "s%d_x.go", "a/b%d/f.go"]) % n
            if "/" in name:
                # a package of its own
                pass
            files[name] = clean
            info[name] = {"rule": s["rule"], "lines": lines, "from": frm, "to": to, "flow": s["flow"]}
        jobs.append((k, files, info))
    def one(job):
        k, files, info = job
        root = ctx.module("c15_%d" % k, files, ("golang.org/x/crypto v0.37.0",))
        r0 = random.Random("n%s/%d" % (ctx.seed, k))
        rep = ctx.must_scan(root, ["-conf", conf] + ctx.noise(r0))
        if rep is None:
            return []
        if rep["Golang errors"]:
            raise __import__("vk").CheckError("generated sample does not compile: %s" % json.dumps(rep["Golang errors"])[:800])
        out = []
        for name, i in info.items():
            full = os.path.join(root, name)
            got, others = [], []
            for x in rep["Issues"]:
                if x["file"] != full:
                    continue
                a, b = (int(v) for v in (x["line"].split("-") * 2)[:2]) if "-" not in x["line"] else map(int, x["line"].split("-"))
                g = {"file": os.path.relpath(x["file"], root), "line": x["line"], "col": x["column"], "code": x["code"], "a": a, "b": b, "colN": int(x["column"])}
                (got if x["rule_id"] == i["rule"] else others).append(g)
            out.append(dict(i, name=name, got=got, others=others, text=files[name]))
        known = {os.path.join(root, nm) for nm in info}
        for x in rep["Issues"]:
            if x["file"] not in known:
                ctx.fail("file", "a finding of %s names the file %r, which was not scanned" % (x["rule_id"], x["file"]), x)
        return out
    for o in ctx.pool(one, jobs):
        obs += o
    bad = ctx.validate("LocateVal", [{k: v for k, v in o.items() if k != "text"} for o in obs])
    for i, why in bad.items():
        o = obs[i]
        ctx.fail(o["rule"], "%s %s: %s in %r" % (o["rule"], o["name"], "; ".join(sorted(why))[:500], o["text"][:700]), {"why": why, "text": o["text"]})
    ctx.sample({k: obs[0][k] for k in ("rule", "name", "from", "to", "got")} if obs else "none")
    return ctx.finish(constructs=len(obs))
