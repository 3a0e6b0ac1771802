"""C21: ignored errors are reported exactly where configured (spec: Ignored.tla, IgnoredVal.tla)."""
import itertools, json, os
import vk

CH = {"error": "e", "alias": "a", "plain": "p", "custom": "c", "odd": "o"}
TY = {"error": "error", "alias": "lib.E", "plain": "int", "custom": "*lib.Custom", "odd": "odd.Odd"}
PATS = [""] + ["".join(t) for n in (1, 2, 3) for t in itertools.product("eapco", repeat=n)]
FULL = {v: k for k, v in CH.items()}

def sig(pat, q=""):
    return "(" + ", ".join("r%d %s" % (i, TY[FULL[c]].replace("lib.", q)) for i, c in enumerate(pat)) + ")"

def families(decls):
    """Declarations of functions with every pattern of results."""
    return "\n".join(d.replace("\0", p or "z").replace("\1", s) for p in PATS for d in decls for s in [sig(p, "lib.")]) + "\n"

def lib():
    t = 'package lib\n\nimport "c21/odd"\n\ntype E = error\ntype Custom struct{}\n\nfunc (*Custom) Error() string { return "" }\n\nvar _ odd.Odd\n\n'
    t += "func NewT() T { return T{} }\nfunc NewP() *T { return &T{} }\n\ntype T struct {\n" + families(["\tN_\0 func() \1"]) + "}\n\ntype I interface {\n" + families(["\tI_\0() \1"]) + "}\n"
    t += families(["func F_\0() \1 { return }", "func G_\0[X any]() \1 { return }", "func H_\0[X any](x X) \1 { return }", "func (T) V_\0() \1 { return }", "func (*T) P_\0() \1 { return }"])
    return t.replace("lib.", "")

BASE = '''package p

import (
	"c21/lib"
	"c21/odd"
)

type Emb struct{ lib.T }
type EmbP struct{ *lib.T }
type EmbE struct{ Emb }
type EmbI struct{ lib.I }
type AT = lib.T
type S struct {
	x  lib.T
	px *lib.T
	e  Emb
}

var (
	gx  lib.T
	gp  = &gx
	gi  lib.I
	gs  S
	gxs []lib.T
	gm  map[int]*lib.T
	ga  any
	gc  chan *lib.T
	gat AT
	ge  Emb
	gep EmbP
	gee EmbE
	gei EmbI
)

func newT() lib.T      { return lib.T{} }
func newP() *lib.T     { return nil }
func sink(...any)      {}
func mk[F any](f F) F  { return f }

var _ odd.Odd

'''

def path(t, ptr=False):
    return {"ptr": ptr, "name": t}
TT, TP = path("c21/lib.T"), path("c21/lib.T", True)

# receivers: (expression, chain of types, needs lib)
VALS = [("gx", [TT]), ("lx", [TT]), ("gs.x", [TT]), ("ls.x", [TT]), ("gxs[0]", [TT]), ("(*gp)", [TT]), ("(gx)", [TT]), ("\0NewT()", [TT]), ("newT()", [TT]), ("(\0T{})", [TT]),
        ("ga.(\0T)", [TT]), ("gat", [TT]), ("ge", [TT]), ("gs.e", [TT]), ("gee", [TT]),
        ("gep", [TP])]
PTRS = [("gp", [TP]), ("lp", [TP]), ("gs.px", [TP]), ("gm[1]", [TP]), ("\0NewP()", [TP]), ("newP()", [TP]), ("new(\0T)", [TP]), ("(&\0T{})", [TP]), ("(<-gc)", [TP]), ("ga.(*\0T)", [TP]),
        ("(&ge)", [TT]), ("gep", [TP]), ("gx", [TT]), ("lx", [TT])]
IFS = [("gi", [path("c21/lib.I")]), ("ga.(\0I)", [path("c21/lib.I")]), ("gei", [path("c21/lib.I")])]

def m(fn, via):
    return {"kind": "method", "fn": fn, "via": via, "pkgs": []}
def f(fn, *pkgs):
    return {"kind": "function", "fn": fn, "via": [], "pkgs": list(pkgs)}
VALUE = {"kind": "value", "fn": "", "via": [], "pkgs": []}

# calls of the standard library: (results, text, imports, callee)
STD = [("pe", "\0fmt.Println(1)", "fmt", f("Println", "fmt")), ("pe", "\0fmt.Fprintf(nil, \"\")", "fmt", f("Fprintf", "fmt")), ("pe", "\0fmt.Sscan(\"\")", "fmt", f("Sscan", "fmt")),
       ("pe", "new(\0bytes.Buffer).Write(nil)", "bytes", m("Write", [path("bytes.Buffer", True)])), ("e", "(&\0bytes.Buffer{}).WriteByte(1)", "bytes", m("WriteByte", [path("bytes.Buffer", True)])),
       ("pe", "\0bytes.NewBuffer(nil).WriteString(\"\")", "bytes", m("WriteString", [path("bytes.Buffer", True)])), ("pe", "\0bytes.NewBuffer(nil).Read(nil)", "bytes", m("Read", [path("bytes.Buffer", True)])),
       ("pe", "\0bytes.NewReader(nil).Read(nil)", "bytes", m("Read", [path("bytes.Reader", True)])),
       ("pe", "new(\0strings.Builder).WriteRune('x')", "strings", m("WriteRune", [path("strings.Builder", True)])), ("e", "\0strings.NewReader(\"\").UnreadByte()", "strings", m("UnreadByte", [path("strings.Reader", True)])),
       ("e", "\0os.Unsetenv(\"X\")", "os", f("Unsetenv", "os")), ("e", "\0os.Setenv(\"X\", \"\")", "os", f("Setenv", "os")), ("e", "\0os.Chdir(\"\")", "os", f("Chdir", "os")), ("e", "\0os.Stdin.Close()", "os", m("Close", [path("os.File", True)])),
       ("pe", "\0sha256.New().Write(nil)", "crypto/sha256", m("Write", [path("hash.Hash")])), ("e", "new(\0io.PipeWriter).CloseWithError(nil)", "io", m("CloseWithError", [path("io.PipeWriter", True)])),
       ("e", "new(\0io.PipeWriter).Close()", "io", m("Close", [path("io.PipeWriter", True)])), ("pe", "\0io.WriteString(nil, \"\")", "io", f("WriteString", "io")), ("e", "new(\0io.PipeReader).CloseWithError(nil)", "io", m("CloseWithError", [path("io.PipeReader", True)]))]

class File:
    def __init__(self, rng):
        self.rng = rng
        # the name lib is imported under, sometimes that of a package with calls on the list
        self.lib = rng.choice(["lib", "lib", "x", "fmt", "os", "bytes", "p"])
        self.imports = {}       # path -> local name
        self.lines = []
        self.stmts = []
    def std(self, path):
        loc = path.split("/")[-1]
        if path not in self.imports:
            if self.lib == loc or self.rng.random() < .3:
                self.imports[path] = "y" + loc
            else:
                self.imports[path] = loc
        return self.imports[path] + "."
    def callee(self, pat):
        r = self.rng
        z = pat or "z"
        q = self.lib + "."
        std = [s for s in STD if s[0] == pat]
        k = r.choice(["pkg", "pkg", "gen", "inf", "dot", "local", "local", "val", "val", "ptr", "ptr", "if", "field", "value", "lit", "mk", "mexpr", "mptr"] + ["std"] * (6 if std else 0))
        if k == "std":
            _, t, p, c = r.choice(std)
            return t.replace("\0" + p.split("/")[-1] + ".", self.std(p)), c
        if k == "pkg":
            return q + "F_%s()" % z, f("F_" + z, "lib", "c21/lib")
        if k == "gen":
            return q + "G_%s[int]()" % z, f("G_" + z, "lib", "c21/lib")
        if k == "inf":
            return q + "H_%s(1)" % z, f("H_" + z, "lib", "c21/lib")
        if k == "dot":
            return "D_%s()" % z, f("D_" + z, "dotp", "c21/dot")
        if k == "local":
            return "L_%s()" % z, f("L_" + z, "p")
        if k in ("val", "ptr", "if", "field"):
            e, via = r.choice({"val": VALS, "field": VALS, "ptr": PTRS, "if": IFS}[k])
            if k == "field" and e == "ga.(\0T)":
                e, via = "gx", [TT]
            n = {"val": "V_", "ptr": "P_", "if": "I_", "field": "N_"}[k] + z
            return "%s.%s()" % (e.replace("\0", q), n), m(n, via)
        if k == "mexpr":
            return "%sT.V_%s(gx)" % (q, z), m("V_" + z, [TT])
        if k == "mptr":
            return "(*%sT).P_%s(gp)" % (q, z), m("P_" + z, [TP])
        if k == "value":
            return "v_%s()" % z, VALUE
        if k == "lit":
            return "func() %s { return }()" % sig(pat, self.lib + "."), VALUE
        return "mk(%sF_%s)()" % (q, z), VALUE
    def add(self, s):
        r = self.rng
        calls, texts, pre = [], [], []
        for c in s["calls"]:
            pat = "".join(CH[k] for k in c["results"])
            t, cal = self.callee(pat)
            if t.startswith("v_"):
                pre.append("%s := %sF_%s" % (t[:-2], self.lib + ".", pat or "z"))
                pre = sorted(set(pre))
            calls.append({"callee": cal, "results": c["results"]})
            texts.append(t)
        kinds = [k for c in s["calls"] for k in c["results"]]
        res, post, tail = "", [], ""
        if s["form"] == "drop":
            st = texts[0] if r.random() < .8 and not texts[0].startswith("func") else "(%s)" % texts[0]
            simple = True
        elif s["form"] == "pass":
            simple = False
            how = r.choice(["go", "defer", "return", "sink", "var"])
            if how in ("sink", "var") and not kinds:
                how = "go"
            st = {"go": "go ", "defer": "defer ", "return": "return "}.get(how, "") + texts[0]
            if how == "sink":
                st = "sink(%s)" % texts[0]
            elif how == "var":
                ns = ["w%d" % i for i in range(len(kinds))]
                st = "var %s = %s" % (", ".join(ns), texts[0])
                post = ["sink(%s)" % ", ".join(ns)]
            elif how == "return":
                res = sig("".join(CH[k] for k in kinds), self.lib + ".")
                if not kinds:
                    st = "go " + texts[0]
        else:
            texts = ["(%s)" % t if r.random() < .2 else t for t in texts]
            tg, define = [], any(t == "name" for t in s["targets"]) and r.random() < .6
            for n, (t, k) in enumerate(zip(s["targets"], kinds)):
                if t == "blank":
                    tg.append("(_)" if not define and r.random() < .2 else "_")
                    continue
                ty = TY[k].replace("lib.", self.lib + ".")
                w = r.choice(["var", "field", "index", "deref"]) if not define else "new"
                if w == "new":
                    tg.append("w%d" % n)
                    tail += "; sink(w%d)" % n
                elif w == "var":
                    pre.append("var w%d %s" % (n, ty)); post.append("sink(w%d)" % n); tg.append("w%d" % n)
                elif w == "field":
                    pre.append("var w%d struct{ f %s }" % (n, ty)); post.append("sink(w%d)" % n); tg.append("w%d.f" % n)
                elif w == "index":
                    pre.append("var w%d [2]%s" % (n, ty)); post.append("sink(w%d)" % n); tg.append("w%d[1]" % n)
                else:
                    pre.append("w%d := new(%s)" % (n, ty)); tg.append("*w%d" % n)
            st = "%s %s %s" % (", ".join(tg), ":=" if define else "=", ", ".join(texts))
            simple = True
        how = r.choice(["plain"] * 5 + ["block", "if", "for", "post", "switch", "case", "label", "lit", "deferred"]) if simple else "plain"
        inner = st + tail
        used = tail.strip("; ")
        if how == "if": text = "if %s; true {%s}" % (st, used and " " + used + " ")
        elif how == "for": text = "for %s; false; {%s}" % (st, used and " " + used + " ")
        elif how == "switch": text = "switch %s; {default: %s}" % (st, used)
        elif how == "post" and not tail: text = "for ; false; %s {}" % st
        elif how == "case": text = "switch { case true: %s }" % inner
        elif how == "label": text = "goto l; l: %s" % inner if not tail and ":=" not in st else inner
        elif how == "lit": text = "func() { %s }()" % inner
        elif how == "deferred": text = "defer func() { %s }()" % inner
        elif how == "block": text = "{ %s }" % inner
        else: text = inner
        self.lines.append("func B\0%d(lx %sT, lp *%sT, ls S) %s {" % (len(self.lines), self.lib + ".", self.lib + ".", res))
        self.lines += ["\t" + x for x in pre]
        self.lines.append("\t" + text)
        self.stmts.append((len(self.lines), {"form": s["form"], "targets": s["targets"], "calls": calls}, text))
        self.lines += ["\t" + x for x in post]
        self.lines.append("}")
    def text(self, k):
        head = ["package p", 'import %s "c21/lib"' % self.lib, 'import . "c21/dot"', 'import "c21/odd"']
        head += ['import %s "%s"' % (v, p) for p, v in sorted(self.imports.items())]
        self.off = len(head)
        return "\n".join(head + [x.replace("\0", "%d_" % k) for x in self.lines] + ["var _%d_ odd.Odd" % k, "var _ = D_z", ""])

def configs(ctx, r):
    fams = [x + (p or "z") for x in ("F_", "G_", "H_", "V_", "P_", "I_", "N_", "L_", "D_") for p in PATS] + ["Setenv", "Read", "Close", "Sscan", "WriteString", "Write", "Chdir"]
    sels = ["lib", "c21/lib", "p", "dotp", "c21/dot", "x", "dot", "T", "lib.T", "c21/lib.T", "*c21/lib.T", "c21/lib.I", "c21/lib.E",
            "os", "bytes", "fmt", "io", "os.File", "*os.File", "bytes.Buffer", "bytes.Reader", "*", "strings.Reader", "*io.PipeWriter"]
    out = [({}, False), ({}, True)]
    for n in range(ctx.pick(3, 12)):
        c = {s: r.sample(fams, int(len(fams) * r.choice([.2, .5, .8]))) for s in sels if r.random() < .6}
        out.append((c, n != 0))
    return out

def run(ctx):
    for o in ("GoesOn", "AllErrors", "OwnPlace"):
        if ctx.tlc("Ignored", "Ignored_%s.cfg" % o, expect_ok=False)["rc"] == 0:
            raise vk.CheckError("the specification does not tell a walker without %s from a good one" % o)
    stmts = ctx.enumerate("Ignored")
    r = ctx.rng
    obs = []
    for rnd in range(ctx.pick(1, 6)):
        r.shuffle(stmts)
        files, cur = [], None
        for s in stmts:
            if cur is None or len(cur.stmts) >= 250:
                cur = File(r)
                files.append(cur)
            cur.add(s)
        texts = {"lib/lib.go": lib(), "odd/odd.go": "package odd\n\ntype error interface{ Error() string }\n\ntype Odd = error\n",
                 "dot/dot.go": 'package dotp\n\nimport (\n\t"c21/lib"\n\t"c21/odd"\n)\n\nvar _ odd.Odd\n\n' + families(["func D_\0() \1 { return }"]),
                 "p/base.go": BASE + families(["func L_\0() \1 { return }"])}
        for k, x in enumerate(files):
            texts["p/f%d.go" % k] = x.text(k)
        root = ctx.module("c21", texts)
        for n, (conf, audit) in enumerate(configs(ctx, r)):
            c = {"global": {"audit": r.choice(["true", "enabled"])} if audit else {}}
            if conf:
                c["G104"] = conf
            cf = ctx.write("conf%d.json" % n, json.dumps(c))
            rep = ctx.must_scan(root, ["-conf", cf, "-include=" + r.choice(["G104", "G104,G401"])] + ctx.noise(r), paths=["./p"])
            if rep is None:
                continue
            if rep["Golang errors"]:
                raise vk.CheckError("the programs do not compile: %s" % str(rep["Golang errors"])[:1500])
            found = set()
            for i in rep["Issues"]:
                a, b = vk.line_range(i["line"])
                found.add((os.path.relpath(i["file"], root), a))
            entries = [{"sel": path(s.lstrip("*"), s.startswith("*")), "fn": q} for s, qs in conf.items() for q in qs]
            names = {}
            for e in entries:
                names.setdefault(e["fn"], []).append(e)
            lines = set()
            for k, x in enumerate(files):
                for line, s, text in x.stmts:
                    at = ("p/f%d.go" % k, line + x.off)
                    lines.add(at)
                    own = [e for c in s["calls"] for e in names.get(c["callee"]["fn"], [])]
                    obs.append(dict(s, entries=own, audit=audit, got=at in found, text=text, lib=x.lib))
            for at in sorted(found - lines)[:5]:
                ctx.fail("elsewhere", "report at %s, where no statement ignores an error" % (at,), {"line": texts[at[0]].split("\n")[at[1] - 1] if at[0] in texts else ""})
    for i, why in ctx.validate("IgnoredVal", obs, chunk=6000).items():
        o = obs[i]
        ctx.fail("%s %s" % (why, o["form"]), "%s: %s (lib as %s, audit %s, entries %s)" % (why, o["text"], o["lib"], o["audit"], json.dumps(o["entries"])[:300]), o)
    ctx.sample({"stmt": obs[0]["text"], "got": obs[0]["got"]})
    return ctx.finish()
