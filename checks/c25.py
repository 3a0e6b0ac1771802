"""C25: slices of known size (spec: Bounds.tla, BoundsVal.tla)."""
import os, re, subprocess
import vk

TYPES = [("int", "7"), ("byte", "'x'"), ("string", "\"s\""), ("T", "T{1}"), ("[2]int", "[2]int{}"), ("[]int", "nil"), ("*int", "nil"), ("any", "3"), ("float64", "1"), ("map[string][]int", "nil")]
NOT = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
NONE, UNKNOWN = -1, -2

class Gen:
    """Writes functions, one access to a line."""
    def __init__(self, r, size):
        self.r, self.size, self.n, self.lines, self.cases, self.runs = r, size, 0, [], [], []

    def name(self, p="f"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def put(self, *ls):
        self.lines.extend(ls)

    def const(self, n):
        r = self.r
        if n == UNKNOWN:
            return r.choice(["num(%d)" % r.randrange(3), "n%d" % r.randrange(3)])
        k = r.random()
        if k < .5:
            return str(n)
        forms = ["0x%x" % n, "%d + %d" % (n - n // 2, n // 2), "(%d)" % n, "uint64(%d)" % n, "int16(%d)" % n if n < 32000 else str(n), "%d.0" % n]
        if n <= 9:
            forms += ["c%d" % n, "k%d" % n, "'\\x%02x'" % n, "len(\"%s\")" % ("x" * n)]
        return r.choice(forms)

    def make(self, t, z, ln, cap):
        """An expression for a slice of a length and a capacity."""
        forms = ["make([]%s, %s, %s)" % (t, self.const(ln), self.const(cap))] * 2
        if ln == cap:
            forms += ["make([]%s, %s)" % (t, self.const(ln))] * 2
            if 0 < cap < 12:
                forms += ["[]%s{%s}" % (t, ", ".join([z] * cap)), "[]%s{%d: %s}" % (t, cap - 1, z)]
            forms += ["new([%d]%s)[:]" % (cap, t), "(&[%d]%s{})[:]" % (cap, t)]
        else:
            forms += ["new([%d]%s)[:%d]" % (cap, t, ln), "(&[%d]%s{})[:%d]" % (cap, t, ln)]
        return self.r.choice(forms)

    def cuttext(self, v, c):
        s = "" if c["lo"] == NONE else self.const(c["lo"])
        s += ":"
        s += "" if c["hi"] == NONE else self.const(c["hi"])
        if c["max"] != NONE:
            s += ":" + self.const(c["max"])
        return "%s[%s]" % (v, s)

    def use(self, t, z, v, a):
        """A statement which makes an access."""
        r = self.r
        if a["kind"] == "cut":
            x = self.cuttext(v, a["cut"])
            return r.choice(["_ = %s", "take(%s)", "sink = %s", "for range %s {\n}", "copy(%s, %s)" % ("%s", v), "_ = len(%s)"]).replace("%s", x)
        x = "%s[%s]" % (v, self.const(a["i"]))
        forms = ["_ = " + x, "sink = " + x, "%s = %s" % (x, z), "sink = &" + x, "take(%s)" % x]
        if t in ("int", "byte", "float64"):
            forms += [x + "++", x + " += 2"]
        if t == "T":
            forms += [x + ".f = 3", "sink = %s.f" % x]
        if t == "[2]int":
            forms += [x + "[1] = 3"]
        return r.choice(forms)

    def access(self, stmt, flows, a, guards=(), run=None):
        self.put("\t" + stmt.split("\n")[0])
        ln = len(self.lines)
        for x in stmt.split("\n")[1:]:
            self.put("\t" + x)
        self.cases.append({"line": ln, "flows": flows, "access": a, "guards": list(guards), "run": run})

    def cut(self, small=None, bad=.5):
        r, m = self.r, small if small is not None else self.size
        b = lambda: r.choice([NONE, NONE, r.randrange(0, m + 2), r.randrange(0, m + 2)])
        c = {"lo": b(), "hi": b(), "max": NONE}
        if c["lo"] != NONE and c["hi"] != NONE and c["lo"] > c["hi"]:
            c["lo"], c["hi"] = c["hi"], c["lo"]
        if c["hi"] != NONE and r.random() < .12:
            c["max"] = c["hi"] + r.randrange(0, 3)
        return c

    def sizes(self):
        c = self.r.randrange(0, self.size + 1)
        return self.r.choice([c, self.r.randrange(0, c + 1)]), c

    def acc(self):
        if self.r.random() < .6:
            return {"kind": "index", "i": self.r.randrange(0, self.size + 2)}
        return {"kind": "cut", "cut": self.cut()}

    # -- a chain of cuts and an access, run afterwards
    def chain(self, ln, cap, cuts, a, decoy=False):
        r = self.r
        t, z = r.choice(TYPES)
        f = self.name()
        self.put("func %s() {" % f)
        wrap = r.choice([None, None, None, ("func() {", "}()"), ("defer func() {", "}()"), ("h := func() {", "}\n\th()"), ("func() {\n\tfunc() {", "}()\n\t}()"), ("for range 1 {", "}"), ("if n1 == 1 {", "}")])
        if wrap:
            self.put(*wrap[0].split("\n"))
        v = "v0"
        self.put("\t%s" % r.choice(["v0 := %s", "var v0 = %s", "var v0 []" + t + " = %s"]) % self.make(t, z, ln, cap))
        for q, c in enumerate(cuts):
            self.put("\tat = %d" % len(self.cases))
            w = "v%d" % (q + 1)
            self.access("%s := %s" % (w, self.cuttext(v, c)), [{"len": ln, "cap": cap, "cuts": cuts[:q]}], {"kind": "cut", "cut": c}, run=f)
            v = w
            if decoy and r.random() < .5:
                self.put(*self.noise(v))
        self.put("\tat = %d" % len(self.cases))
        self.access(self.use(t, z, v, a), [{"len": ln, "cap": cap, "cuts": cuts}], a, run=f)
        if wrap:
            self.put(*wrap[1].split("\n"))
        self.put("}", "")
        self.runs.append(f)

    def noise(self, v):
        k = self.r.randrange(12)
        return ["\tif %s {" % self.r.choice(["len(%s) > %d" % (v, k), "len(%s) == 0" % v, "flag", "cap(%s) >= %d" % (v, k)]), "\t\tnothing()", "\t}"]

    # -- accesses behind comparisons, in a function with one or several callers
    def guarded(self, ln, cap, cuts, a, guards):
        """guards: [op, k, holds, back]; a guard with back None compares something else."""
        r = self.r
        t, z = r.choice(TYPES)
        flows = [{"len": ln, "cap": cap, "cuts": cuts}]
        f = self.name()
        shape = r.choice(["local", "local", "param", "param", "two", "twice", "forward", "variadic", "second", "method", "literal"])
        if len(cuts) and shape == "literal":
            shape = "local"
        if shape == "local":
            self.put("func %s() {" % f, "\tv0 := %s" % self.make(t, z, ln, cap))
        else:
            if shape == "two":
                l2, c2 = self.sizes()
                flows.append({"len": l2, "cap": c2, "cuts": cuts})
            mk = [self.make(t, z, w["len"], w["cap"]) for w in flows]
            call = {"second": "%s(1, x)", "variadic": "%s(x...)", "twice": "%s(x, x)", "method": "T{}.%s(x)"}.get(shape, "%s(x)")
            sig = {"second": "func %s(_ int, v0 []" + t + ") {", "variadic": "func %s(v0 ..." + t + ") {", "twice": "func %s(v0, v9 []" + t + ") {", "method": "func (T) %s(v0 []" + t + ") {"}.get(shape, "func %s(v0 []" + t + ") {")
            if shape == "literal":
                self.put("func %s() {" % f, "\tx := %s" % mk[0], "\tfunc(v0 []%s) {" % t)
            else:
                for q, m in enumerate(mk):
                    self.put("func %sby%d() {" % (f, q), "\tx := %s" % m, "\t" + (call % (f + "via" if shape == "forward" else f)), "}", "")
                if shape == "forward":
                    self.put("func %svia(x []%s) {" % (f, t), "\t%s(x)" % f, "}", "")
                self.put(sig % f)
                if shape == "twice":
                    self.put("\t_ = len(v9)")
        # guards on ancestors come where those are made, around all that follows
        close = []
        def open_guards(back, v):
            for g in [g for g in guards if g["back"] == back]:
                self.open_guard(g, v, close)
        v = "v0"
        open_guards(len(cuts), v)
        for q, c in enumerate(cuts):
            w = "v%d" % (q + 1)
            gs = [dict(g, back=g["back"] - (len(cuts) - q)) for g in guards if g["back"] >= len(cuts) - q]
            self.access("%s := %s" % (w, self.cuttext(v, c)), [dict(x, cuts=x["cuts"][:q]) for x in flows], {"kind": "cut", "cut": c}, gs)
            v = w
            open_guards(len(cuts) - q - 1, v)
        if r.random() < .3:
            self.put(*self.noise(v))
        inner = []
        if r.random() < .25:
            self.put(*r.choice([["if flag {"], ["for range num(3) {"], ["switch n1 {", "case 2:"], ["{"]]))
            inner = ["}"]
        self.access(self.use(t, z, v, a), flows, a, guards)
        self.put(*inner)
        for x in reversed(close):
            self.put(*x)
        if shape == "literal":
            self.put("\t}(x)")
        self.put("}", "")

    def open_guard(self, g, v, close):
        r, op, k = self.r, g["op"], g["k"]
        if r.random() < .3:
            n = self.name("m")
            self.put("\t%s := len(%s)" % (n, v))
            ln = n
        else:
            ln = "len(%s)" % v
        def cmp(op):
            kk = self.r.choice([str(k), "0x%x" % k, "(%d)" % k] + (["k%d" % k] if k <= 9 else []))
            return "%s %s %s" % ((ln, op, kk) if r.random() < .7 else (kk, FLIP[op], ln))
        def leave():
            return "\t\t" + r.choice(["return", "return", "panic(1)", "os.Exit(1)", "log.Fatal(2)", "log.Panicln(3)"])
        if g["holds"]:
            k2 = r.randrange(6)
            if k2 == 0:
                self.put("\tswitch {", "\tcase flag:", "\t\tnothing()", "\tcase %s:" % cmp(op))
                close.append(["\tdefault:", "\t\tnothing()", "\t}"])
            elif k2 == 1:
                self.put("\tif %s {" % r.choice(["flag && " + cmp(op), cmp(op) + " && flag", cmp(op) + " && n1 > 2"]))
                close.append(["\t}"])
            elif k2 == 2:
                self.put("\tfor %s {" % cmp(op))
                close.append(["\tbreak", "\t}"])
            elif k2 == 3 and op == "==":
                self.put("\tswitch %s {" % ln, "\tcase %d:" % (k + 1), "\t\tnothing()", "\tcase %d:" % k)
                close.append(["\t}"])
            else:
                self.put("\tif %s {" % cmp(op))
                close.append(r.choice([["\t}"], ["\t} else {", "\t\tnothing()", "\t}"], ["\t}", "\tnothing()"]]))
        else:
            k2 = r.randrange(5)
            if k2 == 0:
                self.put("\tif %s {" % cmp(op), "\t\tnothing()", "\t} else {")
                close.append(["\t}"])
            elif k2 == 1:
                self.put("\tif %s {" % r.choice(["flag || " + cmp(op), cmp(op) + " || flag"]), leave(), "\t}")
            elif k2 == 2:
                self.put("\tfor range 2 {", "\tif %s {" % cmp(op), "\t\t" + r.choice(["continue", "break"]), "\t}")
                close.append(["\t}"])
            elif k2 == 3:
                self.put("\tif %s {" % cmp(op), "\t\tnothing()", "\t} else if flag {", "\t\tnothing()", "\t} else {")
                close.append(["\t}"])
            else:
                self.put("\tif %s {" % cmp(op), leave(), "\t}")

    def recursive(self):
        """A function that calls itself with less and less."""
        r = self.r
        t, z = r.choice(TYPES)
        f = self.name()
        n = r.randrange(1, 6)
        self.put("func %sdo(v []%s, n int) {" % (f, t), "\tif n == 0 {", "\t\treturn", "\t}")
        i = r.randrange(1, n + 1)
        c = r.choice([{"lo": i, "hi": NONE, "max": NONE}, {"lo": i, "hi": r.randrange(i, n + 1), "max": NONE}])
        self.put("\tat = %d" % len(self.cases))
        self.access("%sdo(%s, n-1)" % (f, self.cuttext("v", c)), [{"len": n, "cap": n, "cuts": []}], {"kind": "cut", "cut": c}, run=f)
        self.put("}", "", "func %s() {" % f, "\t%sdo(%s, 1)" % (f, self.make(t, z, n, n)), "}", "")
        self.runs.append(f)

    # -- programs in which all accesses are in range, in ways that are not followed
    def grown(self):
        r = self.r
        t, z = r.choice(TYPES)
        n, m = r.randrange(0, 4), r.randrange(1, 5)
        f = self.name()
        self.put("func %s() {" % f, "\tv := make([]%s, %d)" % (t, n))
        k = r.randrange(5)
        if k == 0:
            self.put("\tv = append(v, %s)" % ", ".join([z] * m))
        elif k == 1:
            self.put("\tfor range %d {" % m, "\t\tv = append(v, %s)" % z, "\t}")
        elif k == 2:
            self.put("\tv = make([]%s, %d)" % (t, n + m))
        elif k == 3:
            self.put("\tw := make([]%s, %d)" % (t, n + m), "\tcopy(w, v)", "\tv, w = w, v", "\t_ = w")
        else:
            self.put("\tp := &v", "\t*p = make([]%s, %d)" % (t, n + m))
        self.put("\tat = %d" % len(self.cases))
        i = r.randrange(n, n + m)
        a = {"kind": "index", "i": i} if r.random() < .6 else {"kind": "cut", "cut": {"lo": i, "hi": r.choice([NONE, n + m]), "max": NONE}}
        self.access(self.use(t, z, "v", a), [{"len": n + m, "cap": n + m, "cuts": []}], a, run=f)
        self.put("}", "")
        self.runs.append(f)

    def text(self):
        head = ["package main", "", "import (", "\t\"fmt\"", "\t\"log\"", "\t\"os\"", ")", "", "type T struct{ f int }", "", "var flag = len(os.Args) > 5", "var n0, n1, n2 = 0, 1, 2", "var sink any", "var at int", "",
                "const (", *["\tc%d = %d\n\tk%d int = %d" % (i, i, i, i) for i in range(10)], ")", "", "func take(x any) { sink = x }", "func nothing() { log.SetFlags(0) }", "func num(i int) int { return i + n0 }", "",
                "func try(name string, f func()) {", "\tdefer func() {", "\t\tif recover() != nil {", "\t\t\tfmt.Println(name, at)", "\t\t} else {", "\t\t\tfmt.Println(name, -1)", "\t\t}", "\t}()", "\tf()", "}", ""]
        head = "\n".join(head).split("\n")
        tail = ["func main() {"] + ["\ttry(\"%s\", %s)" % (f, f) for f in self.runs] + ["}", ""]
        return "\n".join(head + self.lines + tail), len(head)

def run(ctx):
    for o in ("TwoSizes", "Relative", "Exactly", "ByValue", "Both"):
        if ctx.tlc("Bounds", "Bounds_%s.cfg" % o, expect_ok=False)["rc"] == 0:
            raise vk.CheckError("the specification does not tell a system without %s from a good one" % o)
    e = ctx.enumerate("Bounds", "Bounds.cfg")[0]
    if ctx.thorough:
        ctx.model("Bounds", "Bounds_Big.cfg", timeout=1500)
    r = ctx.rng
    gens = []
    def gen(size):
        g = Gen(r, size)
        gens.append(g)
        return g
    # every size, cut and access of the enumeration, as far as there is time
    g = gen(4)
    cases = [(s, [c], a) for s in e["sizes"] for c in [None] + e["cuts"] for a in [{"kind": "index", "i": i} for i in range(5)] + [{"kind": "cut", "cut": c2} for c2 in e["cuts"]]]
    lone = [(s, [], a) for s, (c,), a in cases if c is None]
    cases = [x for x in cases if x[1] != [None]]
    r.shuffle(cases)
    for s, cs, a in lone + cases[:ctx.pick(900, 20000)]:
        if len(g.cases) > 2500:
            g = gen(4)
        g.chain(s["len"], s["cap"], cs, a)
    # longer chains, larger sizes
    for size, n in ((5, ctx.pick(250, 3000)), (9, ctx.pick(150, 2000))):
        g = gen(size)
        for _ in range(n):
            ln, cap = g.sizes()
            g.chain(ln, cap, [g.cut() for _ in range(r.randrange(0, 4))], g.acc(), decoy=True)
    for _ in range(ctx.pick(40, 400)):
        ln = r.randrange(12, 20)
        left, cs = ln, []
        for _ in range(r.randrange(4, 13)):
            k = r.choice([0, 1, 1, 1, 2])
            if k < left:
                cs.append({"lo": k, "hi": NONE, "max": NONE})
                left -= k
        g.chain(ln, ln, cs, r.choice([{"kind": "index", "i": left + r.randrange(-1, 2)}, {"kind": "cut", "cut": {"lo": NONE, "hi": left + r.randrange(0, 2), "max": NONE}}]))
    g = gen(70000)
    for _ in range(ctx.pick(60, 600)):
        cap = r.choice([10, 100, 255, 256, 1000, 65535, 65536])
        ln = r.choice([cap, cap, cap - r.randrange(1, 4)])
        lo = r.choice([NONE, NONE, r.randrange(1, 5)])
        b = ln - max(lo, 0)
        cs = [] if lo == NONE else [{"lo": lo, "hi": NONE, "max": NONE}]
        g.chain(ln, cap, cs, r.choice([{"kind": "index", "i": b + r.randrange(-2, 3)}, {"kind": "cut", "cut": {"lo": NONE, "hi": r.choice([b, cap - max(lo, 0)]) + r.randrange(-1, 2), "max": NONE}}, {"kind": "cut", "cut": {"lo": b + r.randrange(-1, 2), "hi": NONE, "max": NONE}}]))
    # comparisons
    g = gen(4)
    comps = [{"op": c[0], "k": c[1], "holds": h, "back": 0} for c in e["comps"] for h in (True, False)]
    for c in comps:
        for a in [{"kind": "index", "i": r.randrange(0, 5)} for _ in range(ctx.pick(3, 12))] + [{"kind": "cut", "cut": g.cut()} for _ in range(ctx.pick(2, 6))]:
            s = r.choice(e["sizes"])
            g.guarded(s["len"], s["cap"], [], a, [c])
    for c in comps:
        for d in (-2, -1, 0):
            i = max(0, c["k"] + d)
            g.guarded(0, 0, [], {"kind": "index", "i": i}, [c])
            g.guarded(r.randrange(0, 2), 1, [], {"kind": "cut", "cut": {"lo": NONE, "hi": i + 1, "max": NONE}}, [c])
    for _ in range(ctx.pick(350, 4000)):
        if len(g.cases) > 2500:
            g = gen(4)
        ln, cap = g.sizes()
        cs = [g.cut() for _ in range(r.choice([0, 0, 1, 1, 2]))]
        gs = [{"op": r.choice(list(NOT)), "k": r.randrange(0, 8), "holds": r.random() < .6, "back": r.randrange(0, len(cs) + 1)} for _ in range(r.choice([0, 1, 1, 2]))]
        g.guarded(ln, cap, cs, g.acc(), gs)
    g = gen(4)
    for _ in range(ctx.pick(150, 1500)):
        g.grown()
    for _ in range(ctx.pick(30, 200)):
        g.recursive()
    # bounds which are not constant
    for _ in range(ctx.pick(120, 1500)):
        ln, cap = g.sizes()
        c = r.choice([{"lo": UNKNOWN, "hi": NONE, "max": NONE}, {"lo": NONE, "hi": UNKNOWN, "max": NONE}, {"lo": r.randrange(0, 3), "hi": UNKNOWN, "max": NONE}, {"lo": UNKNOWN, "hi": r.randrange(0, 6), "max": NONE}])
        g.guarded(ln, cap, [c] + ([g.cut()] if r.random() < .3 else []), g.acc(), [])
    # scan and run
    files = {}
    offs = []
    for n, g in enumerate(gens):
        t, off = g.text()
        files["p%d/main.go" % n] = t
        offs.append(off)
    root = ctx.module("c25", files)
    def one(n):
        rep = ctx.must_scan(root, ["-include=G602"] + ctx.noise(r), paths=("./p%d" % n,), timeout=400)
        out = os.path.join(root, "bin%d" % n)
        p = subprocess.run(["go", "build", "-o", out, "./p%d" % n], cwd=root, env=vk.GOENV, capture_output=True, text=True)
        if p.returncode:
            raise vk.CheckError("a generated program does not compile: %s" % p.stderr[-1500:])
        q = subprocess.run([out], cwd=root, capture_output=True, text=True, timeout=120)
        if q.returncode:
            raise vk.CheckError("a generated program does not run: %s" % q.stderr[-1500:])
        return rep, dict(x.split() for x in q.stdout.split("\n") if x)
    res = ctx.pool(one, list(range(len(gens))))
    if any(rep is None for rep, _ in res):
        return ctx.finish()
    obs, meta = [], []
    for n, (g, (rep, ran)) in enumerate(zip(gens, res)):
        if rep["Golang errors"]:
            raise vk.CheckError("a generated program does not compile: %s" % str(rep["Golang errors"])[:1500])
        got = {int(i["line"]) for i in rep["Issues"] or []}
        off = offs[n]
        lines = {off + c["line"] for c in g.cases}
        src = files["p%d/main.go" % n].split("\n")
        for ln in sorted(got - lines):
            ctx.fail("elsewhere", "reported where nothing is accessed: %s" % src[ln - 1])
        for q, c in enumerate(g.cases):
            run = "unknown"
            if c["run"]:
                at = int(ran[c["run"]])
                run = "fine" if at == -1 or q < at else "panics" if q == at else "unknown"
            obs.append({"flows": c["flows"], "access": c["access"], "guards": c["guards"], "got": off + c["line"] in got, "run": run})
            meta.append((n, off + c["line"]))
    bad = ctx.validate("BoundsVal", obs, chunk=4000)
    for i, why in bad.items():
        n, ln = meta[i]
        src = files["p%d/main.go" % n].split("\n")
        b = ln - 1
        while b > 0 and not src[b].startswith("func "):
            b -= 1
        e2 = ln
        while e2 < len(src) and src[e2] != "}":
            e2 += 1
        text = "\n".join(src[max(0, b - 10):e2 + 1])
        if any(w.startswith("specification") for w in why):
            raise vk.CheckError("the specification and the language differ (%s): %s\n%s\n%s" % (why, obs[i], src[ln - 1], text))
        o = obs[i]
        key = "%s:%s:%s%s" % (sorted(why)[0], o["access"]["kind"], "guarded" if o["guards"] else "plain", ":flows" if len(o["flows"]) > 1 else "")
        ctx.fail(key, "%s: `%s` %s" % (sorted(why)[0], src[ln - 1].strip(), o), {"observation": o, "function": text})
    ctx.sample(obs[0])
    ctx.sample(obs[-1])
    ctx.extra = {"accesses": len(obs), "programs": len(gens), "run": sum(len(x[1]) for x in res), "guarded": sum(bool(o["guards"]) for o in obs), "reported": sum(o["got"] for o in obs)}
    return ctx.finish()
