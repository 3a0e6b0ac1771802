"""C20: variable data reaching dangerous calls (spec: Taint.tla, TaintVal.tla)."""
import os, re, shutil
import vk

FAULTS = ("OwnValue", "Named", "Once", "Sides")
PKGS = {"exec": "os/exec", "http": "net/http", "os": "os", "filepath": "path/filepath", "path": "path", "fmt": "fmt", "sql": "database/sql", "syscall": "syscall", "strings": "strings", "lib": "c20/lib", "context": "context", "ioutil": "io/ioutil", "execabs": "golang.org/x/sys/execabs"}
LIB = '''package lib

const K = "k"
const SQL = "SELECT * FROM t WHERE a="

var V = "v"

type Cfg struct{ Path string }

func F() string          { return "" }
func G[T any](x T) T     { return x }
func (Cfg) Get() string  { return "" }
'''
BASE = '''package p

import (
	"c20/lib"
	"database/sql"
)

const plain, quoted = "plain", `quo"ted`

const (
	query  = "SELECT * FROM t WHERE a="
	query2 = "DELETE FROM\\tt WHERE b = " + query
)

type text string

var (
	gxs  []string
	gm   map[string]string
	gs   string
	gp   *string
	gcfg lib.Cfg
	gch  chan string
	gpc  = &gcfg
	gdb  *sql.DB
	gst  store
	gem  emb
	gany any
)

type store struct {
	db *sql.DB
	tx *sql.Tx
}
type emb struct{ *sql.DB }

func f() string                { return "" }
func two() (string, error)     { return "", nil }
func use(...any)               {}
func getDB() *sql.DB           { return gdb }
func mk[F any](f F) F          { return f }
'''

def has(e, v):
    return e["op"] == "var" and e["v"] == v or any(has(k, v) for k in e["kids"])

def depth(e):
    return max([1 + depth(k) for k in e["kids"]] or [0])

def subst(e, v, w):
    return dict(e, v=w if e["op"] == "var" and e["v"] == v else e["v"], kids=[subst(k, v, w) for k in e["kids"]])

class File:
    def __init__(self, r, n):
        self.r, self.n = r, n
        self.lines, self.sites, self.used = [], {}, set()
        self.other = []         # declarations for the other file
        self.q = {k: k for k in PKGS}
        u = r.random()
        if u < .3:
            v = list(PKGS)
            r.shuffle(v)
            self.q = dict(zip(PKGS, v))
        elif u < .6:
            self.q = {k: r.choice([k, "z" + k, "_" + k]) for k in PKGS}
    def p(self, pkg):
        self.used.add(pkg)
        return self.q[pkg] + "."
    def par(self, t):
        u = self.r.random()
        return "(%s)" % t if u < .1 else "((%s))" % t if u < .13 else t
    def const(self, op, sql, verbs=""):
        """text of a constant; sql: whether it is that of a query"""
        r = self.r
        if op == "lit":
            s = r.choice(["SELECT * FROM t WHERE a=", "update t set a = ", "DELETE\\nFROM t WHERE b IN ", "insert into\\tt values "]) if sql else r.choice(["x", "http://a.b/", "/tmp/f", "", "-l"])
            s += verbs
            u = r.random()
            if u < .2 and len(s) > 3:
                k = r.randrange(1, len(s) - 1)
                if s[k - 1] != "\\" and "%" != s[k - 1]:
                    return self.par('"%s" + "%s"' % (s[:k], s[k:])) if u < .05 else '("%s" + "%s")' % (s[:k], s[k:])
            if u < .35 and "\\" not in s:
                return "`%s`" % s
            return '"%s"' % s
        v = ' + "%s"' % verbs if verbs else ""
        t = r.choice(["query", "query2", self.p("lib") + "SQL"] if sql else ["plain", "quoted", self.p("lib") + "K", self.p("os") + "DevNull"])
        if v or r.random() < .3:
            t = r.choice(["(%s%s)", "string(%s%s)", "string(text(%s)%s)"]) % (t, v)
        return t
    def expr(self, e, names, sql, verbs=None):
        r, op, k = self.r, e["op"], e["kids"]
        if op in ("lit", "named"):
            return self.par(self.const(op, op in sql, verbs or ""))
        if op == "call":
            return self.par(r.choice(["f()", self.p("lib") + "F()", self.p("os") + 'Getenv("X")', self.p("strings") + 'ToUpper("x")', "gcfg.Get()", self.p("lib") + 'G("x")', "mk(f)()", "func() string { return \"x\" }()"]))
        if op == "index":
            return self.par(r.choice([self.p("os") + "Args[1]", "gxs[0]", 'gm["k"]', "gs[1:]", "string(gs[0])", "gs[:2]"]))
        if op == "field":
            return self.par(r.choice(["gcfg.Path", "gpc.Path", "*gp", self.p("lib") + "V", "<-gch", "gany.(string)"]))
        if op == "var":
            return self.par(names[e["v"]])
        if op == "concat":
            a = self.expr(k[0], names, sql, verbs if verbs and not self.carrier(k[1]) else None)
            b = self.expr(k[1], names, sql, verbs if verbs and self.carrier(k[1]) else None)
            # the right operand needs parentheses to stay one
            if k[1]["op"] == "concat" and not b.startswith("("):
                b = "(%s)" % b
            return self.par("%s + %s" % (a, b))
        if op == "join":
            return self.par(self.p(r.choice(["filepath", "path"])) + "Join(%s)" % ", ".join(self.expr(x, names, sql) for x in k))
        if op == "clean":
            return self.par(self.p("filepath") + "Clean(%s)" % self.expr(k[0], names, sql))
        if op == "list":
            return "[]string{%s}" % ", ".join(self.expr(x, names, sql) for x in k)
        if op == "print":
            return self.par(self.p("fmt") + r.choice(["Sprint", "Sprintln"]) + "(%s)" % ", ".join(self.expr(x, names, sql) for x in k))
        v = " ".join(r.choice(["%s", "%v", "%q", "'%s'", "%+v"] if op == "string" else ["%d", "%x", "%X", "%b"]) for _ in k[1:])
        return self.par(self.p("fmt") + "Sprintf(%s)" % ", ".join([self.expr(k[0], names, sql, v or None)] + [self.expr(x, names, sql) for x in k[1:]]))
    def carrier(self, e):
        return e["op"] in ("lit", "named") or e["op"] == "concat" and any(self.carrier(k) for k in e["kids"])
    def out(self, s, at=None):
        self.lines.append(s)
        if at is not None:
            self.sites[len(self.lines)] = at
    def site(self, idx, o):
        """one function with one call"""
        r = self.r
        ds, names, params, pre, wrap = o["decls"], {}, [], [], []
        sql = set(o["sql"])
        for v in range(len(ds), 0, -1):
            d = ds[v - 1]
            form = d["form"]
            nm = "v%d" % v if r.random() < .8 else r.choice(["s", "name", "x1"]) + str(v)
            if form in ("package", "elsewhere"):
                nm = "g%d_%d" % (idx, v)
            names[v] = nm
            islist = d["own"]["op"] == "list"
            e = self.expr(d["own"], names, sql) if form in ("short", "var", "pair", "second", "package", "closure") else None
            oth = self.expr(d["other"], names, sql)
            ty = "[]string" if islist else "string"
            if form == "short":
                pre.append("%s := %s" % (nm, e))
            elif form == "var":
                pre.append(r.choice(["var %s = %s", "var %s " + ty + " = %s", "var ( %s = %s )"]) % (nm, e))
            elif form in ("pair", "second"):
                a, b, x, y = (nm, "o%d" % v, e, oth) if form == "pair" else ("o%d" % v, nm, oth, e)
                pre.append(r.choice(["%s, %s := %s, %s", "var %s, %s = %s, %s"]) % (a, b, x, y) + "; _ = o%d" % v)
            elif form == "package":
                self.out(r.choice(["var %s = %s", "var %s " + ty + " = %s", "var %s, _ = %s, " + oth]) % (nm, e), idx)
            elif form == "elsewhere":
                q = self.q
                self.q = {k: k for k in PKGS}
                u, self.used = self.used, set()
                self.other.append(("var %s = %s" % (nm, self.expr(d["own"], names, sql)), set(self.used)))
                self.q, self.used = q, u
            elif form == "param":
                params.append(nm)
            elif form == "zero":
                pre.append("var %s string" % nm)
            elif form == "several":
                pre.append("%s, err%d := two(); _ = err%d" % (nm, v, v))
            elif form == "range":
                pre.append(r.choice(["for _, %s := range gxs {", "for %s := range gm {", "for %s := range gch {"]) % nm)
                wrap.append("}")
            elif form == "switched":
                pre.append("switch %s := gany.(type) { case string:" % nm)
                wrap.append("}")
            elif form == "closure":
                pre += ["%s := %s" % (nm, e), "func() {"]
                wrap.append("}()")
            if d["cleaned"]:
                pre.append(r.choice(["_ = %s", "c%d := %%s; _ = c%d" % (v, v), "use(%s)"]) % (self.p("filepath") + "Clean(%s)" % self.par(nm)))
            elif form not in ("package", "elsewhere", "param"):
                pre.append("_ = " + nm)
        t = [self.expr(a, names, sql) for a in o["args"]]
        call, results = self.sink(o, t)
        u = r.random()
        if o["rule"] == "SQL":
            q = call.startswith("ROW ")
            call = call[4:] if q else call
            if q:
                s = r.choice(["_ = C", "use(C)", "C", "row := C; _ = row", "_ = C.Scan(&gs)", "if err := C.Scan(&gs); err != nil { return }", "go C", "defer C.Scan(&gs)", "C.Scan(&gs)", "func() { _ = C }()", "for C.Err() == nil {}"])
            else:
                s = r.choice(["_, _ = C", "use(C)", "C", "rows, err := C; _, _ = rows, err", "if _, err := C; err != nil { return }", "go C", "defer C", "var a, b = C; _, _ = a, b", "func() { C }()", "_ = func() (any, error) { return C }"])
        elif results == 1:
            s = r.choice(["_ = C", "use(C)", "C", "go C", "defer C", "x := C; _ = x", "var x = C; _ = x", "if x := C; x != nil { return }", "func() { C }()", "switch x := C; x { default: }" if "syscall" not in call and "Exec(" not in call else "_ = C"])
            if o["rule"] == "G204" and "Command" in call and u < .4:
                s = r.choice(["_ = C.Run()", "C.Start()", "_, _ = C.Output()", "if err := C.Run(); err != nil { return }"])
        elif results == 2:
            s = r.choice(["_, _ = C", "use(C)", "C", "go C", "a, b := C; _, _ = a, b", "if _, err := C; err != nil { return }", "var a, b = C; _, _ = a, b", "func() { C }()"])
        else:
            s = r.choice(["_, _, _ = C", "use(C)", "C"])
        s = s.replace("C", "\0")
        s = s.replace("\0", call) if s.count("\0") == 1 else s
        pr = ", ".join(params) + " string, " if params else ""
        self.out("func t%d(%sdb *%sDB, tx *%sTx, ctx %sContext) {" % (idx, pr, self.p("sql"), self.p("sql"), self.p("context")))
        for x in pre:
            self.out("\t" + x, idx)
        self.out("\t" + s, idx)
        for x in reversed(wrap):
            self.out("\t" + x)
        self.out("}")
        return " ; ".join(pre + [s])
    def sink(self, o, t):
        r = self.r
        if o["rule"] == "G204":
            lst = [i for i, a in enumerate(o["args"]) if a["op"] == "list" or a["op"] == "var" and o["decls"][a["v"] - 1]["own"]["op"] == "list"]
            if lst:
                i = lst[0]
                k = r.choice(["Exec", "ForkExec", "StartProcess", "var"])
                if k != "var":
                    call = self.p("syscall") + "%s(%s, %s, nil)" % (k, t[0] if i else '"ls"', t[i])
                    return call, {"Exec": 1, "ForkExec": 2, "StartProcess": 3}[k]
                c = self.p(r.choice(["exec", "exec", "execabs"]))
                a = "%s, %s..." % (t[0] if i else '"ls"', t[i])
            else:
                if len(t) == 1 and r.random() < .2:
                    k = r.choice(["Exec", "ForkExec", "StartProcess"])
                    return self.p("syscall") + "%s(%s, nil, nil)" % (k, t[0]), {"Exec": 1, "ForkExec": 2, "StartProcess": 3}[k]
                c = self.p(r.choice(["exec", "exec", "execabs"]))
                a = ", ".join(t)
                if r.random() < .4:
                    a = r.choice(['"ls", %s', '%s, "-l"', '%s, plain, `a`', '%s, string(plain)']) % a
            if r.random() < .4:
                return c + "CommandContext(%s, %s)" % (r.choice(["ctx", self.p("context") + "Background()", self.p("context") + "WithValue(ctx, 1, 2)"]), a), 1
            return c + "Command(%s)" % a, 1
        if o["rule"] == "G107":
            return self.p("http") + r.choice(["Get(%s)", "Head(%s)", 'Post(%s, "", nil)', "PostForm(%s, nil)", "Post(%s, f(), nil)"]) % t[0], 2
        if o["rule"] == "G304":
            k = r.choice(["os ReadFile(%s)", "os Open(%s)", "os Create(%s)", "os OpenFile(%s, 0, 0)", "os OpenFile(%s, len(gs), 0)", "ioutil ReadFile(%s)"]).split(" ", 1)
            return self.p(k[0]) + k[1] % t[0], 2
        m = r.choice(["Query", "QueryRow", "Exec", "Prepare"])
        c = r.random() < .4
        a = r.choice(["ctx, ", self.p("context") + "TODO(), "]) if c else ""
        more = r.choice(["", "", ", 1", ", f(), gxs[0]"]) if m != "Prepare" else ""
        rec = r.choice(["db", "db", "tx", "(db)", "gdb", "gst.db", "gst.tx", "gem", "gem.DB", "getDB()", "(*db)", "(store{}).db", "([]*%sDB{db}[0])" % self.p("sql")])
        return ("ROW " if m == "QueryRow" else "") + "%s.%s%s(%s%s%s)" % (rec, m, "Context" if c else "", a, t[0], more), 2
    def text(self, head=True):
        # the package declarations of sites come before their functions, so lines are final
        return self.lines

def fix(ds):
    """declarations at package level can only use others"""
    if ds[0]["form"] in ("package", "elsewhere") and has(ds[0]["own"], 2) and ds[1]["form"] not in ("package", "elsewhere"):
        ds[1] = dict(ds[1], form="package")
    return ds

def sites(ctx, e, r):
    """every argument and every pair of declarations for every rule"""
    outer, inner = e["outer"], e["inner"]
    V1 = {"op": "var", "v": 1, "kids": []}
    V = {"short", "var", "pair", "second", "closure", "package"}
    def known(d):
        return d["form"] in V and d["own"]["op"] in ("lit", "named") or d["own"]["op"] == "concat" and all(k["op"] in ("lit", "named") for k in d["own"]["kids"])
    def classes(ds):
        plain = [d for d in ds if d["form"] in V and not d["cleaned"] and d["own"]["op"] != "clean"]
        return [[d for d in plain if known(d)], [d for d in plain if not known(d)], [d for d in ds if d["form"] not in V and d["form"] != "elsewhere" and not d["cleaned"]], ds]
    pools = {1: classes(outer), 2: classes(inner)}
    def pick(v):
        return r.choice(r.choice(pools[v] if r.random() < .8 else pools[v][-1:]))
    def mk(rule, args, d1=None, d2=None):
        sql = r.choice([["lit"], ["named"], ["lit", "named"], ["lit", "named"], []]) if rule == "SQL" else []
        ds = [d1 or pick(1), d2 or pick(2)]
        return {"rule": rule, "args": args, "decls": fix(ds), "sql": sql}
    out = []
    for rule, args in (("G204", e["texts"] + e["lists"]), ("G107", e["texts"]), ("G304", e["paths"]), ("SQL", e["texts"] + e["prints"])):
        # arguments with variables once more, small ones more often
        n = [(1 + (has(a, 1) or has(a, 2))) * (5 if depth(a) < 2 and has(a, 1) and has(a, 2) else 2 if depth(a) < 2 else 1) for a in args]
        args = [a for a, k in zip(args, n) for _ in range(k)]
        r.shuffle(args)
        for a in args[:ctx.pick(1000, len(args))]:
            if a["op"] == "list":
                if r.random() < .5:
                    w = r.choice(["short", "var", "pair", "second", "package", "closure"])
                    out.append(mk(rule, [V1], {"form": w, "own": subst(a, 1, 2), "other": {"op": "lit", "v": 0, "kids": []}, "cleaned": False}))
                    continue
                out.append(mk(rule, ([r.choice(e["texts"])] if r.random() < .3 else []) + [a]))
            elif rule == "SQL" and r.random() < .5:
                d = r.choice([d for d in outer if d["form"] in ("short", "var", "pair", "second", "package", "closure")])
                out.append(mk(rule, [V1], dict(d, own=subst(a, 1, 2))))
            else:
                out.append(mk(rule, [a] + ([r.choice(e["texts"])] if rule == "G204" and r.random() < .2 else [])))
        pairs = list(outer)
        r.shuffle(pairs)
        # what was cleaned before matters for opened files
        first = [d for d in pairs if d["own"]["op"] == "clean" and not d["cleaned"]] if rule == "G304" else []
        for d in pairs[:ctx.pick(400, len(pairs))] + first * ctx.pick(2, 4):
            out.append(mk(rule, [V1], d))
    return out

def run(ctx):
    for o in FAULTS:
        if ctx.tlc("Taint", "Taint_%s.cfg" % o, expect_ok=False)["rc"] == 0:
            raise vk.CheckError("the specification does not tell a resolver without %s from a good one" % o)
    e = ctx.enumerate("Taint")[0]
    r = ctx.rng
    obs = []
    for rnd in range(ctx.pick(1, 4)):
        ss = sites(ctx, e, r)
        r.shuffle(ss)
        files, cur, where = [], None, {}
        for i, s in enumerate(ss):
            if cur is None or len(cur.sites) > 500:
                cur = File(r, len(files))
                files.append(cur)
            s["text"] = cur.site(i, s)
        texts = {"lib/lib.go": LIB, "p/base.go": BASE}
        for k, x in enumerate(files):
            body = "\n".join(x.lines)
            head = ["package p"] + ['import %s "%s"' % (x.q[p], PKGS[p]) for p in sorted(x.used) if re.search(r"(?<![\w.])%s\." % x.q[p], body)]
            texts["p/f%d.go" % k] = "\n".join(head + x.lines + [""])
            x.off = len(head)
            body = "\n".join(t for t, _ in x.other)
            us = [p for p in sorted(PKGS) if re.search(r"(?<![\w.])%s\." % p, body)]
            texts["p/e%d.go" % k] = "\n".join(["package p"] + ['import "%s"' % PKGS[u] for u in us] + [t for t, _ in x.other] + [""])
        shutil.rmtree(os.path.join(ctx.scratch, "mods", "c20"), ignore_errors=True)
        root = ctx.module("c20", dict(texts, **{"go.sum": open(os.path.join(vk.REPO, "go.sum")).read()}), requires=("golang.org/x/sys v0.32.0",))
        rep = ctx.must_scan(root, ["-include=" + r.choice(["G107,G201,G202,G204,G304", "G304,G204,G401,G202,G201,G107"])] + ctx.noise(r), paths=["./p"])
        if rep is None:
            continue
        if rep["Golang errors"]:
            raise vk.CheckError("the programs do not compile: %s" % str(rep["Golang errors"])[:1500])
        got = {}
        for i in rep["Issues"]:
            f = os.path.relpath(i["file"], root)
            a, b = vk.line_range(i["line"])
            k = int(f[3:-3]) if f.startswith("p/f") else -1
            s = files[k].sites.get(a - files[k].off) if k >= 0 else None
            rule = None if s is None else ss[s]["rule"]
            if s is None or (i["rule_id"] not in ("G201", "G202") if rule == "SQL" else i["rule_id"] != rule):
                ctx.fail("elsewhere", "%s at %s:%s, where there is nothing of the kind" % (i["rule_id"], f, i["line"]), {"code": i["code"]})
                continue
            got.setdefault(s, set()).add(i["rule_id"])
        for i, s in enumerate(ss):
            for rule in (["G201", "G202"] if s["rule"] == "SQL" else [s["rule"]]):
                obs.append(dict(s, rule=rule, got=rule in got.get(i, ())))
    for i, why in ctx.validate("TaintVal", obs, chunk=6000).items():
        o = obs[i]
        ctx.fail("%s %s" % (why, o["rule"]), "%s %s: %s" % (o["rule"], why, o["text"]), o)
    ctx.sample({"call": obs[0]["text"], "got": obs[0]["got"]})
    ctx.extra["reported"] = sum(o["got"] for o in obs)
    return ctx.finish()
