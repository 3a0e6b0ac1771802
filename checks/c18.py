"""C18: integer conversions (spec: Ranges.tla, RangesVal.tla)."""
import json, os, random
import vk

TYPES = ["int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte", "rune"]
SIZE = {"int": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "rune": 32, "uint": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "byte": 8}
OPS = ["<", "<=", ">", ">=", "==", "!="]

def signed(t):
    return t in ("int", "int8", "int16", "int32", "int64", "rune")

def bounds(t):
    n = SIZE[t]
    return (-1000 * (n - 1), 1000 * (n - 1) - 1) if signed(t) else (0, 1000 * n - 1)

def value(c):
    """the number a code of the specification stands for"""
    a, s = abs(c), -1 if c < 0 else 1
    if a <= 100:
        return c
    k = (a + 500) // 1000
    return s * (2 ** k + a - 1000 * k)

NAMED = {}
for _n in (8, 16, 32, 64):
    NAMED[2 ** (_n - 1) - 1] = "math.MaxInt%d" % _n
    NAMED[-2 ** (_n - 1)] = "math.MinInt%d" % _n
    NAMED[2 ** _n - 1] = "math.MaxUint%d" % _n

def spell(r, c, t, f):
    """a constant expression for a code, usable with type t"""
    v = value(c)
    w = r.random()
    if v in NAMED and w < .4:
        f["math"] = True
        e = NAMED[v]
    elif w < .6 or abs(c) <= 100:
        e = str(v)
    elif w < .75:
        e = ("-" if v < 0 else "") + hex(abs(v))
    else:
        a, s = abs(c), "-" if c < 0 else ""
        k = (a + 500) // 1000
        d = a - 1000 * k
        e = "%s(1<<%d%s)" % (s, k, "" if d == 0 else "%+d" % d)
    w = r.random()
    if w < .1:
        f["k"] += 1
        f["top"].append("const zk%d_%d = %s" % (f["n"], f["k"], e)); e = "zk%d_%d" % (f["n"], f["k"])
    elif w < .2:
        e = "%s(%s)" % (t, e)
    return e

def constant(r, src, dst, small):
    lo, hi = bounds(src)
    dl, dh = bounds(dst)
    for _ in range(40):
        c = r.choice([dl, dh, dl - 1, dh + 1, dl + 1, dh - 1, 0, 1, -1, 5, 100, lo, hi, lo + 1, hi - 1, r.randint(-100, 100), r.choice([7, 8, 15, 16, 31, 32, 62]) * 1000 + r.randint(-2, 2)])
        if lo <= c <= hi:
            return c
    return lo

def atom(r, src, dst):
    return {"k": "cmp", "op": r.choice(OPS), "c": constant(r, src, dst, False), "flip": r.random() < .3}

def cond(r, src, dst, depth=2):
    w = r.random()
    if depth == 0 or w < .45:
        return atom(r, src, dst) if r.random() < .9 else {"k": "other"}
    if w < .55:
        return {"k": "not", "a": cond(r, src, dst, depth - 1)}
    return {"k": r.choice(["and", "or"]), "a": cond(r, src, dst, depth - 1), "b": cond(r, src, dst, depth - 1)}

def bounded(r, src, dst):
    """a condition which is likely to confine the value to the destination"""
    dl, dh = bounds(dst)
    lo, hi = bounds(src)
    parts = []
    j = lambda: r.choice([0, 0, 0, 0, 1, -1, 2, -2])
    if lo < dl:
        c = dl + j()
        op = r.choice([">=", ">=", ">"])
        if lo <= c <= hi:
            parts.append({"k": "cmp", "op": op, "c": c if op == ">=" else max(lo, c - 1), "flip": False})
    if hi > dh:
        c = dh + j()
        op = r.choice(["<=", "<=", "<"])
        if lo <= c <= hi:
            parts.append({"k": "cmp", "op": op, "c": c if op == "<=" else min(hi, c + 1), "flip": False})
    for p in parts:
        if r.random() < .3:
            p["flip"] = True
            p["op"] = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[p["op"]]
    r.shuffle(parts)
    return parts

NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
def negated(a):
    return dict(a, op=NEG[a["op"]])

def steps(r, src, dst, can_clamp):
    out = []
    style = r.random()
    if style < .45:
        parts = bounded(r, src, dst)
        if not parts:
            parts = [atom(r, src, dst)]
        how = r.choice(["and", "or", "list", "list2"])
        if how == "and" and len(parts) == 2:
            out.append({"f": "pass", "t": True, "a": {"k": "and", "a": parts[0], "b": parts[1]}})
        elif how == "or" and len(parts) == 2:
            out.append({"f": "pass", "t": False, "a": {"k": "or", "a": negated(parts[0]), "b": negated(parts[1])}})
        else:
            for p in parts:
                if r.random() < .5:
                    out.append({"f": "pass", "t": True, "a": p})
                else:
                    out.append({"f": "pass", "t": False, "a": negated(p)})
        if r.random() < .25:
            out.insert(r.randint(0, len(out)), {"f": "look", "a": cond(r, src, dst, 1)})
        if r.random() < .1:
            out.append({"f": "set"})
        if r.random() < .1 and out:
            # the guard looks but does not stop anything
            i = r.randrange(len(out))
            if "a" in out[i]:
                out[i] = {"f": "look", "a": out[i]["a"]}
        if can_clamp and r.random() < .2 and out:
            i = r.randrange(len(out))
            if out[i]["f"] == "pass":
                a = out[i]["a"]
                out[i] = {"f": "clamp", "a": {"k": "not", "a": a} if out[i]["t"] else a, "c": constant(r, src, dst, True)}
    else:
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            w = r.random()
            if w < .65:
                out.append({"f": "pass", "t": r.random() < .5, "a": cond(r, src, dst)})
            elif w < .8:
                out.append({"f": "look", "a": cond(r, src, dst, 1)})
            elif w < .9 and can_clamp:
                out.append({"f": "clamp", "a": cond(r, src, dst, 1), "c": constant(r, src, dst, True)})
            else:
                out.append({"f": "set"})
    return out

KINDS = ["param"] * 5 + ["local", "field", "pfield", "global", "deref", "neg", "parse", "len", "cap", "const", "captured", "phi", "named", "nest"]

class Fun:
    """One function with one conversion."""
    def __init__(self, r, f, src, dst, kind=None, plain=False):
        self.r, self.f = r, f
        kind = kind or r.choice(KINDS)
        if kind in ("len", "cap"):
            src = "int"
        if kind == "parse":
            src = r.choice(["int64", "uint64"])
        if kind == "neg" and not signed(src):
            src = r.choice(["int", "int8", "int16", "int32", "int64"])
        self.src, self.dst, self.kind = src, dst, kind
        f["k"] += 1
        self.id = "%d_%d" % (f["n"], f["k"])
        self.base = {"k": "full"}
        self.params, self.pre = [], []
        self.others = 0
        self.twin = None
        T = self.st = src
        x = "x"
        if kind == "named":
            f["top"].append("type zS%s %s" % (self.id, src)); T = self.st = "zS%s" % self.id
        if kind in ("param", "named", "neg"):
            self.params.append("x %s" % T)
        elif kind == "local":
            self.pre.append("x := zsrc_%s()" % src)
        elif kind == "field":
            f["top"].append("type zT%s struct {\n\tu string\n\tv %s\n}" % (self.id, T)); self.params.append("s zT%s" % self.id); x = "s.v"
        elif kind == "pfield":
            f["top"].append("type zT%s struct {\n\tw, v %s\n}" % (self.id, T)); self.params.append("s *zT%s" % self.id); x = "s.v"
        elif kind == "nest":
            f["top"].append("type zT%s struct {\n\tw, v struct{ a, b %s }\n}" % (self.id, T)); self.params.append("s *zT%s" % self.id); x = "s.v.b"
        elif kind == "global":
            f["top"].append("var zG%s %s" % (self.id, T)); x = "zG%s" % self.id
        elif kind == "deref":
            self.params.append("p *%s" % T); x = "*p"
        elif kind == "captured":
            self.params.append("x0 %s" % T); self.pre += ["x := x0", "zfun(func() { x++ })"]
        elif kind == "phi":
            self.params += ["x0, x1 %s" % T, "zc bool"]; self.pre += ["x := x0", "if zc {", "\tx = x1", "}"]
        elif kind == "parse":
            bits = r.choice([0, 8, 16, 32, 64, 8, 9, 15, 17, 31, 33, 63, r.randint(8, 64)])   # below, codes are not in the order of the values
            fn = "ParseInt" if src == "int64" else "ParseUint"
            q = r.choice(["strconv", "strconv", "lk"])
            f[q] = True
            self.base = {"k": "parse", "fn": fn, "bits": bits} if q == "strconv" else {"k": "full"}
            self.params.append("t string"); self.pre.append("x, _ := %s.%s(t, 10, %d)" % (q, fn, bits))
        elif kind in ("len", "cap"):
            self.base = {"k": "len"}
            f["k"] += 1
            self.params.append("xs %s" % r.choice(["[]string", "[]byte", "[]string"] + (["string", "map[string]int"] if kind == "len" else ["chan int"])))
            self.pre.append("x := %s(xs)" % kind)
        elif kind == "const":
            c = constant(r, src, dst, False)
            self.base = {"k": "const", "c": c}
            self.pre.append("var x %s = %s" % (T, spell(r, c, T, f)))
        self.x = x
        loads = kind in ("field", "pfield", "nest", "global", "deref", "captured")
        self.steps = [] if kind == "const" or plain else steps(r, self.src, dst, not loads)
        if kind == "neg":
            # conditions are about x, -x is converted
            self.steps = [] if plain else [self.mirror(s) for s in steps(r, src, dst, False)]
        if r.random() < .3:
            # the conditions are about another variable of the kind
            def others(a):
                if a["k"] == "cmp":
                    return {"k": "other", "like": a}
                return {k: (others(v) if isinstance(v, dict) else v) for k, v in a.items()}
            some = r.random() < .7
            self.steps = [dict(s, a=others(s["a"])) if "a" in s and (some or r.random() < .5) else s for s in self.steps]
        self.lines = []
        self.at = None
        self.emit()

    def mirror(self, s):
        def m(a):
            if a["k"] == "cmp":
                c = -a["c"]
                lo, hi = bounds(self.src)
                return dict(a, c=c, op={"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(a["op"], a["op"])) if lo <= c <= hi else a
            return {k: (m(v) if isinstance(v, dict) else v) for k, v in a.items()}
        return dict(s, a=m(s["a"])) if "a" in s else s

    def text(self, a, top=True):
        r = self.r
        if a["k"] == "cmp":
            c = spell(r, a["c"], self.st, self.f)
            return "%s %s %s" % ((c, a["op"], self.x) if a["flip"] else (self.x, a["op"], c))
        if a["k"] == "other":
            self.others += 1
            if "like" not in a and r.random() < .5:
                self.params.append("o%d bool" % self.others)
                return "o%d" % self.others
            y = self.decoy() if "like" in a or r.random() < .7 else None
            if y:
                a = a.get("like") or atom(r, self.src, self.dst)
                return "%s %s %s" % (y, a["op"], spell(r, a["c"], self.st, self.f))
            self.params.append("o%d %s" % (self.others, self.st))
            return "o%d %s %d" % (self.others, r.choice(OPS), r.randint(0, 100))
        if a["k"] == "not":
            return "!(%s)" % self.text(a["a"])
        return "(%s) %s (%s)" % (self.text(a["a"]), {"and": "&&", "or": "||"}[a["k"]], self.text(a["b"]))

    def decoy(self):
        """a variable of the same kind as the one which is converted"""
        if self.twin is None or self.r.random() < .2:
            self.twin = self.another()
        return self.twin

    def another(self):
        r, k, n, T = self.r, self.kind, self.others, self.st
        if k in ("field", "pfield", "nest"):
            inner = {"field": [], "pfield": ["w"], "nest": ["v.a", "w.b", "w.a"]}[k]
            if inner and r.random() < .6:
                return "s." + r.choice(inner)
            self.params.append("s%d %szT%s" % (n, "" if k == "field" else "*", self.id))
            return "s%d.%s" % (n, self.x[2:])
        if k == "global":
            self.f["top"].append("var zH%s_%d %s" % (self.id, n, T))
            return "zH%s_%d" % (self.id, n)
        if k == "deref":
            self.params.append("p%d *%s" % (n, T))
            return "*p%d" % n
        if k == "captured":
            self.params.append("y%d %s" % (n, T))
            self.pre += ["z%d := y%d" % (n, n), "zfun(func() { z%d++ })" % n]
            return "z%d" % n
        if k in ("len", "cap"):
            self.params.append("ys%d []byte" % n)
            return "len(ys%d)" % n if k == "len" or r.random() < .5 else "cap(ys%d)" % n
        return None

    def add(self, ind, t):
        self.lines += ["\t" * ind + y for y in t.split("\n")]

    def body(self, i, ind):
        r = self.r
        if r.random() < .15:
            self.add(ind, "zuse(1)")
        if i == len(self.steps):
            self.dsts = [self.dst]
            if r.random() < .2:
                # more conversions on the same line
                self.dsts += [r.choice(TYPES) for _ in range(r.choice([1, 1, 2]))]
            self.texts = [self.conversion(d, k) for k, d in enumerate(self.dsts)]
            ways = ["zuse(%s)", "zuse(%s)", "zuse([]any{%s})", "defer zuse(%s)"]
            if len(self.dsts) == 1:
                ways += ["_ = zany(%s)", "zv := %s\nzuse(zv)", "zuse(struct{ a any }{%s})", "if zany(%s) { zuse(2) }"]
            e = ", ".join(self.texts)
            self.add(ind, r.choice(ways) % e)
            self.at = max(k for k in range(len(self.lines)) if e in self.lines[k])
            return
        s = self.steps[i]
        if s["f"] == "set":
            self.others += 1
            self.params.append("o%d %s" % (self.others, self.st))
            self.add(ind, "%s = o%d" % (self.x, self.others))
            self.body(i + 1, ind)
            return
        c = self.text(s["a"])
        if s["f"] == "clamp":
            self.add(ind, "if %s {\n\t%s = %s\n}" % (c, self.x, spell(r, s["c"], self.st, self.f)))
            self.body(i + 1, ind)
        elif s["f"] == "look":
            self.add(ind, r.choice(["if %s {\n\tzuse(3)\n}", "if %s {\n\tzuse(3)\n} else {\n\tzuse(4)\n}", "switch {\ncase %s:\n\tzuse(3)\n}", "zuse(%s)", "for i := 0; i < 3 && (%s); i++ {\n\tzuse(5)\n}"]) % c)
            self.body(i + 1, ind)
        elif s["t"]:
            w = r.choice(["if", "if", "if", "else", "switch", "for", "exit", "and"])
            if w == "if":
                self.add(ind, "if %s {" % c); self.body(i + 1, ind + 1); self.add(ind, "}")
            elif w == "else":
                self.add(ind, "if !(%s) {\n\tzuse(6)\n} else {" % c); self.body(i + 1, ind + 1); self.add(ind, "}")
            elif w == "switch":
                self.opaque(s)
                self.add(ind, "switch {\ncase %s:" % c); self.body(i + 1, ind + 1); self.add(ind, "default:\n\tzuse(7)\n}")
            elif w == "for":
                self.add(ind, "for %s {" % c); self.body(i + 1, ind + 1); self.add(ind, "\tbreak\n}")
            elif w == "and":
                self.params.append("q%d bool" % i)
                self.add(ind, "if q%d && (%s) {" % (i, c)); self.body(i + 1, ind + 1); self.add(ind, "}")
            else:
                self.add(ind, "if !(%s) {\n\t%s\n}" % (c, self.leave())); self.body(i + 1, ind)
        else:
            w = r.choice(["exit", "exit", "exit", "else", "switch", "or"])
            if w == "exit":
                self.add(ind, "if %s {\n\t%s\n}" % (c, self.leave())); self.body(i + 1, ind)
            elif w == "else":
                self.add(ind, "if %s {\n\tzuse(8)\n} else {" % c); self.body(i + 1, ind + 1); self.add(ind, "}")
            elif w == "or":
                self.params.append("q%d bool" % i)
                self.add(ind, "if (%s) || q%d {\n\t%s\n}" % (c, i, self.leave())); self.body(i + 1, ind)
            else:
                self.opaque(s)
                self.add(ind, "switch {\ncase %s:\n\tzuse(9)\ndefault:" % c); self.body(i + 1, ind + 1); self.add(ind, "}")

    def conversion(self, d, k):
        r = self.r
        w = r.random()
        if w < .1:
            self.f["top"].append("type zD%s_%d %s" % (self.id, k, d)); d = "zD%s_%d" % (self.id, k)
        elif w < .2:
            self.f["top"].append("type zD%s_%d = %s" % (self.id, k, d)); d = "zD%s_%d" % (self.id, k)
        elif w < .25:
            d = "(%s)" % d
        return "%s(%s%s)" % (d, "-" if self.kind == "neg" else "", self.x if r.random() < .9 else "(%s)" % self.x)

    def opaque(self, s):
        """compound conditions of a switch are computed first"""
        if s["a"]["k"] not in ("cmp", "other"):
            s["a"] = {"k": "value", "a": s["a"]}

    def leave(self):
        return self.r.choice(["return", "return", 'panic("no")', "zuse(10)\n\treturn", "for {\n\t}"])

    def emit(self):
        r = self.r
        self.body(0, 1)
        body, self.lines = self.lines, []
        for p in self.pre:
            self.add(1, p)
        self.at += len(self.lines)
        self.lines += body
        ps = ", ".join(self.params)
        w = r.random()
        if w < .6:
            head, tail = "func zF%s(%s) {" % (self.id, ps), "}"
        elif w < .7:
            self.f["top"].append("type zM%s struct{}" % self.id)
            head, tail = "func (m *zM%s) f(%s) {" % (self.id, ps), "}"
        elif w < .8:
            head, tail = "var zF%s = func(%s) {" % (self.id, ps), "}"
        elif w < .87:
            head, tail = "func zF%s() any {\n\treturn func(%s) {" % (self.id, ps), "\t}\n}"
        elif w < .93:
            head, tail = "func zF%s[Q any](%s) {" % (self.id, ", ".join(self.params + ["_ Q"])), "}"
        else:
            head, tail = "var zH%s = struct{ f any }{func(%s) {" % (self.id, ps), "}}"
        self.at += head.count("\n") + 1
        self.lines = (head + "\n" + "\n".join(self.lines) + "\n" + tail).split("\n")

    def facts(self):
        line = self.lines[self.at]
        col = line.index(", ".join(self.texts))
        for d, t in zip(self.dsts, self.texts):
            yield dict(self.fact(), dst=d, a=col + 1, b=col + len(t))
            col += len(t) + 2

    def fact(self):
        return {"src": self.src, "base": self.base, "neg": self.kind == "neg", "steps": self.steps}

LK = """package lk

func ParseInt(s string, base int, bitSize int) (int64, error)   { return int64(len(s)), nil }
func ParseUint(s string, base int, bitSize int) (uint64, error) { return 1, nil }
"""
def helpers():
    out = ["package p", "func zuse(a ...any) {}", "func zany(a any) bool { return a == nil }", "func zfun(f func()) { f() }"]
    for t in TYPES:
        out.append("func zsrc_%s() %s { return 0 }" % (t, t))
    return "\n".join(out) + "\n"

def build(r, n, per, pairs):
    f = {"n": n, "k": 0, "top": []}
    funs = []
    for _ in range(per):
        if pairs:
            src, dst, kind = pairs.pop()
            funs.append(Fun(r, f, src, dst, kind, plain=True))
            continue
        src, dst = r.choice(TYPES), r.choice(TYPES)
        for _ in range(2):
            if bounds(src)[0] >= bounds(dst)[0] and bounds(src)[1] <= bounds(dst)[1]:
                src, dst = r.choice(TYPES), r.choice(TYPES)       # widening pairs are less interesting
        funs.append(Fun(r, f, src, dst))
    text = ["package p"]
    for k, imp in (("math", "math"), ("strconv", "strconv"), ("lk", "c18/lk")):
        if f.get(k):
            text.append('import "%s"' % imp)
    text += "\n".join(f["top"]).split("\n") if f["top"] else []
    sites = []
    for g in funs:
        for x in g.facts():
            sites.append(dict(x, line=len(text) + g.at + 1, code="\n".join(g.lines), kind=g.kind))
        text += g.lines
    return "\n".join(text) + "\n", sites

def run(ctx):
    ctx.model("Ranges")
    if ctx.thorough:
        cfg = open(os.path.join(vk.SPEC, "Ranges.cfg")).read().replace("Hi = 5", "Hi = 7").replace("{0, 2, 3, 5}", "{0, 2, 3, 5, 7}")
        ctx.model("Ranges", ctx.write("RangesDeep.cfg", cfg), timeout=3600)
    r = ctx.rng
    # every pair of types, for each kind of value without any condition
    pairs = [(a, b, k) for a in TYPES for b in TYPES for k in (["param", "named", "neg", "const"] if not ctx.thorough else ["param", "named", "neg", "const", "const", "field", "local", "global", "deref"])]
    r.shuffle(pairs)
    files, sites = {"lk/lk.go": LK, "help.go": helpers()}, {}
    nfiles = ctx.pick(130, 1500)
    for n in range(nfiles):
        name = "f%d.go" % n
        files[name], sites[name] = build(r, n, 20, pairs)
    root = ctx.module("c18", files)
    rep = ctx.must_scan(root, (["-include=G115"] if r.random() < .5 else []) + ctx.noise(r), timeout=800)
    if rep is None:
        return ctx.finish()
    if rep["Golang errors"]:
        raise vk.CheckError("generated sample does not compile: %s" % json.dumps(rep["Golang errors"])[:1500])
    got = {}
    for x in rep["Issues"]:
        if x["rule_id"] == "G115":
            k = (os.path.relpath(x["file"], root), int(x["line"].split("-")[0]))
            got.setdefault(k, []).append((int(x["column"]), x["details"]))
    obs = []
    for name, ss in sites.items():
        for s in ss:
            here = got.get((name, s["line"]), [])
            g = [x for x in here if s["a"] <= x[0] <= s["b"]]
            for x in g:
                here.remove(x)
            obs.append(dict(s, got=len(g), text=g))
    for (a, b), d in got.items():
        if d and not a.startswith("lk/"):
            ctx.fail("stray", "%s reported at %s:%d, where no conversion is" % (d, a, b), {"line": open(os.path.join(root, a)).read().split("\n")[b - 1]})
    bad = ctx.validate("RangesVal", [{k: o[k] for k in ("src", "dst", "base", "neg", "steps", "got")} for o in obs], timeout=1800)
    for i, why in bad.items():
        o = obs[i]
        if "specification unsound" in why:
            raise vk.CheckError("interval and reachable values disagree in the specification: %s" % json.dumps(o))
        ctx.fail(o["kind"], "%s: conversion from %s to %s in\n%s" % ("; ".join(sorted(why)), o["src"], o["dst"], o["code"]), {"obs": o, "why": why})
    must = sum(1 for o in obs if o["got"])
    if obs:
        ctx.sample({k: obs[0][k] for k in ("src", "dst", "code", "got")})
    return ctx.finish(conversions=len(obs), reported=must)
