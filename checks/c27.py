"""C27: hard-coded credentials (spec: Secrets.tla, SecretsVal.tla)."""
import base64, json, os, shutil, string
import vk

DEFAULT = {"fold": True, "words": ["passwd", "pass", "password", "pwd", "secret", "token", "pw", "apiKey", "bearer", "cred"]}
PARTS = ["pass", "Password", "PASSWD", "pwd", "mySecret", "Token", "pW", "apikey", "ApiKey", "API_KEY", "api", "Key", "bearer", "Credential", "cred", "CRED", "user", "name", "toke", "secre", "pas", "p_w", "auth", "Auth", "login", "salt", "s", "x", "id", "conf", "crypt", "hash", "ssword", "key", "Nonce"]
KEYWORDS = {"type", "var", "func", "string", "len"}
FAULTS = ("OwnValue", "AnyName", "AllBinds")
BASE = '''package p

type box struct{ v string }

var (
	zxs []string
	zbs []byte
	zmm map[string]string
	zbx box
)

func f(a ...string) string { return "" }
func use(...any)           {}
'''

def codes(s):
    return [ord(c) for c in s]

def expand(cls):
    out, i = "", 0
    while i < len(cls):
        if i + 2 < len(cls) and cls[i + 1] == "-":
            out += "".join(chr(c) for c in range(ord(cls[i]), ord(cls[i + 2]) + 1))
            i += 3
        else:
            out += cls[i]
            i += 1
    return out

class Pattern:
    def __init__(self, fold, words):
        self.fold = fold
        self.words = [{"start": w.startswith("^"), "text": w.strip("^$"), "end": w.endswith("$")} for w in words]
        self.text = ("(?i)" if fold else "") + "|".join(words)
    def match(self, n):
        n = n.lower() if self.fold else n
        for w in self.words:
            t = w["text"].lower() if self.fold else w["text"]
            if w["start"] and not n.startswith(t) or w["end"] and not n.endswith(t) or t not in n or (w["start"] and w["end"] and n != t):
                continue
            return True
        return False
    def spec(self):
        return {"fold": self.fold, "words": [dict(w, text=codes(w["text"])) for w in self.words]}

def instance(r, fm):
    """a string of the format, or one whose part cut is a character short"""
    out = ""
    for i, p in enumerate(fm["parts"], 1):
        if p["cls"] == "":
            t = p["text"]
            if i == fm["cut"]:
                k = r.randrange(len(t))
                t = t[:k] + t[k + 1:]
            out += t
        else:
            n = r.choice([p["min"], p["max"], r.randint(p["min"], p["max"])])
            if i == fm["cut"]:
                n = p["min"] - 1
            out += "".join(r.choice(expand(p["cls"])) for _ in range(n))
    if not fm["cut"] and r.random() < .3:
        out = r.choice(["", ".", " ", "=", "x: "]) + out + r.choice(["", " ", ".", ";"])
    return out

def plain(r):
    """a string of no known format"""
    k = r.random()
    if k < .1: return ""
    if k < .25: return r.choice(["password", "secret", "admin", "changeme", "123456", "letmein", "user", "test", "aaaaaaaaaaaaaaaaaaaa", "correct horse battery staple", "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"])
    if k < .4: return "".join(r.choice(string.digits) for _ in range(r.randint(1, 30)))
    if k < .5: return "".join(r.choice("äöüßéñ漢字") for _ in range(r.randint(1, 12)))
    alpha = r.choice([string.ascii_lowercase, string.ascii_letters + string.digits, string.ascii_letters + string.digits + "!$%&()*+,;<>?[]^_{}"])
    return "".join(r.choice(alpha) for _ in range(r.randint(1, 40)))

def quote(r, s):
    def one(t):
        if "`" not in t and "\\" not in t and r.random() < .3:
            return "`%s`" % t
        return json.dumps(t, ensure_ascii=r.random() < .5)
    u = r.random()
    if u < .2 and len(s) > 1:
        k = r.randrange(1, len(s))
        a = one(s[:k]) if k < 2 or r.random() < .7 else "(%s)" % one(s[:k])
        t = "%s + %s" % (a, one(s[k:]))
        return t if r.random() < .5 else "(%s)" % t
    return "(%s)" % one(s) if u < .3 else one(s)

class Values:
    """values with the strength the library measures"""
    def __init__(self, ctx, r, formats):
        self.ctx, self.r, self.memo = ctx, r, {}
        self.formats = [f for f in formats if not f["cut"]]
        self.near = [f for f in formats if f["cut"]]
        self.good = [(f["id"], 0, instance(r, f)) for f in self.formats for _ in range(6)]
        self.miss = [(f["id"], f["cut"], instance(r, f)) for f in self.near for _ in range(2)]
        self.plain = [("", 0, plain(r)) for _ in range(300)]
    def all(self):
        return self.good + self.miss + self.plain
    def measure(self, n):
        todo = sorted({self.cut(v[2], n) for v in self.all()} - set(self.memo))
        for i in range(0, len(todo), 500):
            resp, p = self.ctx.drive("entropy", [base64.b64encode(t).decode() for t in todo[i:i + 500]])
            if resp is None:
                raise vk.CheckError("the driver measured nothing: %s" % (p.stderr[-500:] if p else "timeout"))
            self.memo.update(zip(todo[i:i + 500], resp))
    def cut(self, s, n):
        return s.encode()[:n]
    def facts(self, v, c):
        t = self.cut(v[2], c["truncate"])
        e, n = self.memo[t], len(t)
        return {"ge": e >= c["T"], "half": e >= c["T"] / 2, "per": n > 0 and e / n >= c["P"], "empty": v[2] == "", "format": v[0], "cut": v[1]}

def configs(ctx, r, vals):
    out = [{"json": {}, "T": 80.0, "P": 3.0, "truncate": 16, "ignore": False, "pattern": Pattern(**DEFAULT)},
           {"json": {"ignore_entropy": True}, "T": 80.0, "P": 3.0, "truncate": 16, "ignore": True, "pattern": Pattern(**DEFAULT)}]
    for _ in range(ctx.pick(4, 30)):
        c = {"json": {}, "T": 80.0, "P": 3.0, "truncate": 16, "ignore": False, "pattern": Pattern(**DEFAULT)}
        if r.random() < .7:
            c["truncate"] = r.choice([0, 1, 4, 8, 12, 20, 40, 100])
            c["json"]["truncate"] = str(c["truncate"])
        vals.measure(c["truncate"])
        es = [(vals.memo[vals.cut(v[2], c["truncate"])], len(vals.cut(v[2], c["truncate"]))) for v in vals.all()]
        es = [x for x in es if x[1]] or [(10.0, 5)]
        if r.random() < .7:     # often exactly what some value has
            c["T"] = r.choice([r.choice(es)[0], 2 * r.choice(es)[0], float(r.randint(1, 120))])
            c["json"]["entropy_threshold"] = repr(c["T"])
        if r.random() < .7:
            e, n = r.choice(es)
            c["P"] = r.choice([e / n, float(r.randint(0, 6)), 2.5])
            c["json"]["per_char_threshold"] = repr(c["P"])
        if r.random() < .25:
            c["ignore"] = r.random() < .6
            c["json"]["ignore_entropy"] = c["ignore"]
        if r.random() < .6:
            ws = r.sample(["auth", "login", "key", "Key", "salt", "id", "name", "pass", "x", "Nonce", "API"], r.randint(1, 4))
            ws = [r.choice(["", "", "^"]) + w + r.choice(["", "", "$"]) for w in ws]
            c["pattern"] = Pattern(r.random() < .5, ws)
            c["json"]["pattern"] = c["pattern"].text
        out.append(c)
    return out

def name(r, pat, want):
    for _ in range(60):
        n = "".join(r.choice(PARTS) for _ in range(r.choice([1, 1, 2, 3]))) + r.choice(["", "", "1", "_", "X"])
        if n in KEYWORDS or not n.isidentifier():
            continue
        if pat.match(n) == want:
            return n
    return n

def pick(r, pool, vals, c, high):
    for _ in range(25):
        v = r.choice(pool)
        f = vals.facts(v, c)
        if (c["ignore"] or f["ge"] or (f["half"] and f["per"])) == high:
            break
    return v, f

class Files:
    def __init__(self, r):
        self.r, self.lines, self.sites, self.consts, self.top = r, [], {}, [], set()
    def add(self, binds, vals, c, form=None):
        r = self.r
        n = len(binds)
        fields = any(b["target"] == "field" for b in binds)
        computed = any(b["kind"] == "computed" for b in binds)
        forms = ["assign"] if fields else ["assign", "define", "define", "var", "var", "topvar"] + ([] if computed else ["const", "topconst"])
        if n == 1:
            forms += ["eq", "neq", "revised"] * 2 + ["op"]
        form = form or r.choice(forms)
        names, out, texts = [], [], []
        for b in binds:
            nm = name(r, c["pattern"], b["match"])
            while nm in names or form.startswith("top") and nm in self.top:
                nm = r.choice("abcdefgh") + nm + r.choice("0123456789abcdefgh")
            v = b.get("value")
            if v is None:
                v, _ = pick(r, vals.good if b["format"] else vals.plain + vals.miss, vals, c, b["high"])
            fa = vals.facts(v, c)
            if b["target"] == "name" and form in ("assign", "define", "var") and (n > 1 or form != "define") and not c["pattern"].match("_") and not b["match"] and r.random() < .1:
                nm = "_"
                names.append("blank%d" % len(names))
            else:
                names.append(nm)
            if b["kind"] == "literal":
                t = quote(r, v[2])
            elif b["kind"] == "named":
                k = "k%d" % len(self.consts)
                self.consts.append("const %s = %s" % (k, json.dumps(v[2])))
                t = k
            else:
                q = json.dumps(v[2], ensure_ascii=False)
                t = r.choice(["f()", "f(%s)" % q, "zxs[0]", "%s + f()" % q, "f() + %s" % q, "string(zbs)", 'zmm[%s]' % q, "zbx.v", "func() string { return %s }()" % q, "string([]byte(%s))" % q, "f([]string{%s}...)" % q])
            texts.append((nm, t))
            out.append(dict(fa, target=b["target"], name=codes(nm), kind=b["kind"]))
        pre, tg, post = [], [], []
        for b, (nm, t) in zip(binds, texts):
            if nm == "_":
                tg.append("_")
            elif b["target"] == "field":
                u = r.choice(["field", "index", "deref"])
                if u == "field":
                    pre.append("var o%d struct{ %s string }" % (len(tg), nm)); tg.append("o%d.%s" % (len(tg), nm))
                elif u == "index":
                    tg.append("zmm[%s]" % json.dumps(nm))
                else:
                    pre.append("%s := new(string)" % nm); tg.append("*" + nm)
            else:
                if form in ("assign", "op", "eq", "neq", "revised"):
                    pre.append("var %s string" % nm)
                if not form.startswith("top"):
                    post.append("_ = " + nm)
                tg.append("(%s)" % nm if form == "assign" and r.random() < .08 else nm)
        L, R = ", ".join(tg), ", ".join(t for _, t in texts)
        if form == "define" and all(x == "_" for x in tg):
            form = "assign"
        if form in ("eq", "neq", "revised"):
            op = {"eq": "==", "neq": "!="}.get(form) or r.choice(["==", "!="])
            a, b = (tg[0], texts[0][1]) if form != "revised" else (texts[0][1], tg[0])
            if binds[0]["target"] != "field" and tg[0] == "_":
                raise AssertionError
            if r.random() < .1:
                a = "(%s)" % a
            e = "%s %s %s" % (a, op, b)
            st = r.choice(["_ = E", "if E { use() }", "use(E)", "switch { case E: }", "for E { break }", "_ = len(zxs) > 0 && E", "_ = !(E)", "func() bool { return E }()"])
            st = st.replace("E", "\0").replace("\0", e) if st.count("E") == 1 else st
        elif form == "op":
            st = "%s += %s" % (tg[0], R)
        elif form == "assign":
            st = "%s = %s" % (L, R)
            if r.random() < .15:
                st = r.choice(["if %s; true { use() }", "for %s; false; { }", "switch %s; { }"]) % st if "{" not in st else st
        elif form == "define":
            st = "%s := %s" % (L, R)
        elif form == "var":
            st = r.choice(["var %s = %s", "var %s string = %s", "var ( %s = %s )"]) % (L, R)
        elif form == "const":
            st = r.choice(["const %s = %s", "const %s string = %s", "const ( %s = %s )"]) % (L, R)
        else:
            st = "%s %s%s = %s" % (form[3:], L, r.choice(["", " string"]), R)
            self.top.update(nm for nm, _ in texts)
            self.lines.append(st)
            self.sites[len(self.lines)] = (out, st)
            return
        self.lines.append("func t%d() {" % len(self.lines))
        self.lines += ["\t" + x for x in pre]
        self.lines.append("\t" + st)
        self.sites[len(self.lines)] = (out, st)
        self.lines += ["\t" + x for x in post] + ["}"]

def run(ctx):
    for o in FAULTS:
        if ctx.tlc("Secrets", "Secrets_%s.cfg" % o, expect_ok=False)["rc"] == 0:
            raise vk.CheckError("the specification does not tell a walker without %s from a good one" % o)
    cases = ctx.enumerate("Secrets")
    r = ctx.rng
    formats = [c for c in cases if c["id"]]
    stmts = [c["binds"] for c in cases if not c["id"]]
    vals = Values(ctx, r, formats)
    vals.measure(16)
    obs = []
    for n, c in enumerate(configs(ctx, r, vals)):
        vals.measure(c["truncate"])
        fs = Files(r)
        todo = list(stmts)
        r.shuffle(todo)
        if n:
            todo = todo[:ctx.pick(900, len(todo))]
        for b in todo:
            fs.add(b, vals, c)
        for v in vals.good + vals.miss:
            if n == 0 or r.random() < .4:
                fs.add([{"target": "name", "match": r.random() < .2, "kind": "literal", "high": True, "format": True, "value": v}], vals, c)
        shutil.rmtree(os.path.join(ctx.scratch, "mods", "c27"), ignore_errors=True)
        root = ctx.module("c27", {"p/base.go": BASE, "p/consts.go": "\n".join(["package p"] + fs.consts + [""]), "p/a.go": "\n".join(["package p"] + fs.lines + [""])})
        args = ["-include=G101"] + ctx.noise(r)
        if c["json"] or r.random() < .5:
            args += ["-conf", ctx.write("conf27_%d.json" % n, json.dumps({"G101": c["json"]} if c["json"] else {}))]
        rep = ctx.must_scan(root, args, paths=["./p"])
        if rep is None:
            continue
        if rep["Golang errors"]:
            raise vk.CheckError("the programs do not compile: %s" % str(rep["Golang errors"])[:1500])
        got = set()
        for i in rep["Issues"]:
            if os.path.basename(i["file"]) == "consts.go":
                continue
            a, b = vk.line_range(i["line"])
            if os.path.basename(i["file"]) != "a.go" or a - 1 not in fs.sites:
                ctx.fail("elsewhere", "report at %s:%s, where nothing is bound to a name" % (i["file"], i["line"]), {"code": i["code"]})
            got.add(a - 1)
        for line, (out, text) in fs.sites.items():
            obs.append({"binds": out, "pattern": c["pattern"].spec(), "ignore": c["ignore"], "got": line in got, "text": text, "conf": c["json"]})
    for i, why in ctx.validate("SecretsVal", obs, chunk=4000).items():
        o = obs[i]
        ctx.fail("%s" % why, "%s: %s under %s" % (why, o["text"], json.dumps(o["conf"])), o)
    ctx.sample({"stmt": obs[0]["text"], "got": obs[0]["got"]})
    ctx.extra["reported"] = sum(o["got"] for o in obs)
    return ctx.finish()
