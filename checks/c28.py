"""C28: dangerous uses of values made elsewhere (spec: Flows.tla, Nonces.tla, Versions.tla, FlowsVal.tla)."""
import json, os, re, shutil
import vk

RULES = ["G102", "G109", "G110", "G111", "G112", "G203", "G303", "G305", "G407", "G601"]
NAMES = ["v", "w", "val", "addr", "r", "name", "item", "rd", "x1", "N", "http2", "path1", "räd", "_n"]
FAULTS = ("byname", "last", "forget", "clears", "stays", "outermost")

TEXTS = {"any4": ["0.0.0.0:2000", "0.0.0.0:0", "0.0.0.0"], "any6": ["[::]:2000", "[::]:http"], "noHost": [":2000", ":http", ":0"],
         "local": ["127.0.0.1:2000", "127.0.0.1:0"], "named": ["localhost:2000", "example.com:80", "h0.0.0.0:80"], "one6": ["[::1]:2000", "[fe80::1]:80"],
         "other4": ["10.0.0.0:80", "192.168.0.1:2000", "1.0.0.0:0"], "dashes": ["0-0-0-0.example.com:80", "0-0.0.0:1"], "digits": ["0a0b0c0d.example.com:80", "000.0.0x:80"]}

class File:
    """One generated file; every function in it is on its own."""
    def __init__(self, r, name):
        self.r, self.name, self.imports, self.top, self.lines, self.obs = r, name, {}, [], [], []
    def q(self, path, nat=None):
        nat = nat or path.split("/")[-1]
        if path not in self.imports:
            n = nat if self.r.random() < .6 else self.r.choice(["z", "q", "k"]) + nat + "X"
            self.imports[path] = "z%d%s" % (len(self.imports), nat) if n in self.imports.values() else n
        return self.imports[path] + "."
    def put(self, *lines):
        self.lines += lines
    def here(self):
        """number of the line which is put next, counted from the first function"""
        return len(self.lines)
    def text(self):
        head = ["package p", "", "import ("]
        body = "\n".join(self.top + self.lines)
        for p, n in self.imports.items():
            if not re.search(r"(?<![\w.])%s\." % n, body): continue
            head.append('\t%s"%s"' % ("" if n == p.split("/")[-1] else n + " ", p))
        head += [")", ""] + self.top + [""]
        self.offset = len(head) + 1
        return "\n".join(head + self.lines) + "\n"

BASE = '''package p

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/cipher"
	crand "crypto/rand"
	"io"
	"net/http"
)

type (
	T16   int16
	T32   int32
	deep  struct{ name string }
	elem  struct {
		name string
		sub  deep
	}
	owner struct{ Name string }
	server struct {
		Addr                                                      string
		Handler                                                   http.Handler
		ReadHeaderTimeout, ReadTimeout, WriteTimeout, IdleTimeout int
	}
	srvAlias = http.Server
	holder   struct {
		f *zip.File
		h *tar.Header
	}
	ownType struct{}
)

var (
	flag   bool
	text   string
	texts  []string
	in     = bytes.NewReader(nil)
	out    io.Writer
	zf     *zip.File
	zr     *zip.Reader
	th     *tar.Header
	hold   holder
	own    owner
	ptrs   []any
	block  cipher.Block
	aead   cipher.AEAD
	data   []byte
	ownV   ownType
	vals   []elem
	refs   []*elem
	number int
)

const cst = "<b>"

func use(...any) any                                        { return nil }
func nothing()                                              {}
func keep(a ...any) any                                     { return a }
func str(...any) string                                     { return text }
func parse(s ...string) (string, string)                    { return "tcp", text }
func atoi(s string) (int, error)                            { return 0, nil }
func sink(a any) io.Writer                                  { return out }
func hdl(a any) http.Handler                                { return nil }
func random(n int) []byte                                   { b := make([]byte, n); crand.Read(b); return b }
func rndBytes() []byte                                      { b := make([]byte, 16); crand.Read(b); return b }
func rndFull() []byte                                       { b := make([]byte, 16); io.ReadFull(crand.Reader, b); return b }
func rndVia() []byte                                        { nothing(); return rndDeeper() }
func rndDeeper() []byte                                     { return random(16) }
func rndReader() []byte                                     { b := make([]byte, 16); crand.Reader.Read(b); return b }
type ownText string
type ownBytes []byte

const ownConst ownText = "ILoveMyNonce"

func fillSecond(a, b []byte)                                { use(a); crand.Read(b) }
func fixBytes() []byte                                      { return []byte("ILoveMyNonceAlot") }
func useNewCTR(b cipher.Block, iv []byte) any               { return nil }
func useSeal(a, b, c, d []byte) any                         { return nil }
func (ownType) Seal(a, b, c, d []byte) []byte               { return nil }
func (ownType) Open(a, b, c, d []byte) []byte               { return nil }
func (ownType) Join(a ...string) string                     { return "" }
func (ownType) Dir(s string) any                            { return nil }
func (ownType) HTML(s string) any                           { return nil }
func (ownType) Create(s string) any                         { return nil }

var fixGlobal = []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
'''

class Gen:
    def __init__(self, ctx, r, table):
        self.ctx, self.r, self.table, self.n = ctx, r, table, 0
    def pick(self, rule, kind, danger):
        return self.r.choice(self.table[kind, rule, danger])
    def lit(self, s):
        return "`%s`" % s if self.r.random() < .25 else '"%s"' % s
    def par(self, s, p=.15):
        return "(%s)" % s if self.r.random() < p else s

    # -- values: (expression, number of results)
    def source(self, f, rule, form):
        r = self.r
        if rule == "G102":
            return self.lit(r.choice(TEXTS[form])), 1
        if rule == "G109":
            return {"atoi": (f.q("strconv") + "Atoi(%s)" % r.choice(["text", '"2147483648"', "str()"]), 2), "number": (r.choice(["30", "number", "len(text) + 1"]), 1),
                    "length": ("len(text)", 1), "other": ("atoi(text)", 2)}[form]
        if rule == "G110":
            if form in ("gzip", "zlib", "bzip2"):
                return f.q("compress/" + form) + "NewReader(in)", 1 if form == "bzip2" else 2
            if form == "flate": return f.q("compress/flate") + "NewReader(in)", 1
            if form == "flateDict": return f.q("compress/flate") + "NewReaderDict(in, data)", 1
            if form == "zlibDict": return f.q("compress/zlib") + "NewReaderDict(in, data)", 2
            if form == "lzw": return f.q("compress/lzw") + "NewReader(in, %sLSB, 8)" % f.q("compress/lzw"), 1
            if form == "tar": return f.q("archive/tar") + "NewReader(in)", 1
            if form == "member": return r.choice(["zf.Open()", "zr.File[0].Open()", "hold.f.Open()"]), 2
            if form == "file": return f.q("os") + 'Open("x")', 2
            if form == "limited": return f.q("io") + "LimitReader(%s, 9)" % (f.q("compress/flate") + "NewReader(in)"), 1
            return f.q("bytes") + "NewReader(data)", 1
        if rule == "G305":
            return {"zipName": r.choice(["zf.Name", "zr.File[0].Name", "hold.f.Name"]), "tarName": r.choice(["th.Name", "hold.h.Name"]), "tarLink": "th.Linkname",
                    "text": '"x"', "base": f.q("path/filepath") + "Base(zf.Name)", "ownName": "own.Name"}[form], 1

    # -- one step of declaring or setting
    def declare(self, f, rule, form, v, again, top, typed):
        r = self.r
        if rule == "G601":
            e = "refs[0]" if self.pointers else "vals[0]"
            if form == "plain" and r.random() < .3:     # next to a variable which a range assigns to
                o = "o%d" % self.serial()
                return ["%s, %s := %s, %s" % (o, v, e, e), "for _, %s = range %s { use(%s) }" % (o, "refs" if self.pointers else "vals", o)]
            return ["%s := %s" % (v, again if form == "copy" and again else e)]
        e, k = self.source(f, rule, form)
        e = self.par(e) if k == 1 else e
        t = {"G102": "string", "G109": "int", "G110": f.q("io") + "Reader" if typed else "", "G305": "string"}[rule]
        if typed and rule == "G110" and not top:
            if k == 2:
                return ["var %s %s" % (v, t), "%s, _ = %s" % (v, e)]
            return ["var %s %s = %s" % (v, t, e)]
        two = "_" if top else r.choice(["_", "_", "err"])
        fs = []
        if k == 2:
            fs += [["var %s, _ = %s" % (v, e)]]
            if not top: fs += [["%s, %s := %s" % (v, two, e)]] * 2
        else:
            fs += [["var %s = %s" % (v, e)]]
            if t: fs += [["var %s %s = %s" % (v, t, e)]]
            if rule == "G102": fs += [["const %s = %s" % (v, e)]]
            if not top: fs += [["%s := %s" % (v, e)]] * 2
            o = "o%d" % self.serial()
            d = {"G102": self.lit(r.choice(sum(TEXTS.values(), []))), "G109": "7", "G110": "in", "G305": r.choice(['"y"', "zf.Name", "th.Name"])}[rule]
            if not top:
                fs += [["%s, %s := %s, %s" % (v, o, e, d), "use(%s)" % o], ["%s, %s := %s, %s" % (o, v, d, e), "use(%s)" % o]]
            fs += [["var %s, %s = %s, %s" % (o, v, d, e)] + ([] if top else ["use(%s)" % o])]
            if rule == "G109": fs = fs[:4] + [["var %s int = %s" % (v, e)]]
        ls = r.choice(fs)
        return ls + ["use(err)"] if "err" in ls[0].split("=")[0].replace(",", " ").split() else ls
    def serial(self):
        self.n += 1
        return self.n

    def noise(self, f):
        return self.r.choice(["nothing()", "if flag { nothing() }", "_ = len(text)", 'use("/tmp/x", ":80")', "// v = 1", "ptrs = append(ptrs, &number)", "for i := range texts { use(i) }",
                              "func() { nothing() }()", "use(%sToUpper(text))" % f.q("strings")])

    def use(self, f, rule, form, v):
        r, a = self.r, self.par(v)
        if rule == "G102":
            net = f.q("net")
            return {"net": "use(%sListen(%s, %s))" % (net, r.choice(['"tcp"', '"tcp4"', "text"]), a), "tls": "use(%sListen(\"tcp\", %s, nil))" % (f.q("crypto/tls"), a),
                    "parsed": "use(%sListen(parse(%s)))" % (net, r.choice([v, '"x", ' + v])), "dial": 'use(%sDial("tcp", %s))' % (net, a), "printed": "use(%s)" % v,
                    "network": 'use(%sListen(%s, "127.0.0.1:1"))' % (net, a)}[form]
        if rule == "G109":
            if form == "printed": return "use(%s)" % v
            t = {"named16": "T16", "named32": "T32"}.get(form, form)
            return r.choice(["use(%s(%s))", "_ = %s(%s)", "if %s(%s) < 0 { nothing() }"]) % (self.par(t), a)
        if rule == "G110":
            io = f.q("io")
            return {"copy": "use(%sCopy(out, %s))" % (io, a), "copyBuffer": "use(%sCopyBuffer(out, %s, data))" % (io, a), "copyN": "use(%sCopyN(out, %s, 9))" % (io, a),
                    "limited": "use(%sCopy(out, %sLimitReader(%s, 9)))" % (io, io, a), "destination": "use(%sCopy(sink(%s), in))" % (io, a)}[form]
        if rule == "G305":
            fp, p = f.q("path/filepath"), f.q("path")
            return {"filepath": "use(%sJoin(text, %s))" % (fp, a), "path": "use(%sJoin(%s))" % (p, r.choice([a, '"/x", ' + a, a + ', "y"'])), "third": 'use(%sJoin("a", text, %s))' % (fp, a),
                    "base": "use(%sBase(%s))" % (fp, a), "clean": "use(%sClean(%s))" % (p, a), "printed": "use(ownV.Join(text, %s))" % v}[form]
        return {"passed": "use(1, &%s)" % v, "stored": "ptrs = append(ptrs, &%s)" % v, "inLiteral": r.choice(["use([]any{&%s})", "use(struct{ a any }{&%s})"]) % v,
                "returnedCall": "if flag { return keep(&%s) }" % v, "parens": r.choice(["use(&(%s))", "use((&%s))"]) % v, "field": "use(&%s.name)" % v,
                "deepField": "use(&%s.sub.name)" % v, "returned": "if flag { return &%s }" % v, "value": "use(%s)" % v, "compared": "use(%s == %s)" % (v, v),
                "pointed": r.choice(["use(&%s.name)", "use(&%s.sub.name)"]) % v}[form]

    def fits(self, rule, p):
        """can the program be written with the values of the rule?"""
        if rule in ("G102", "G305") and any(s["op"] == "set" for s in p): return False
        if rule == "G601": return not any(s["op"] == "set" or (s["op"] == "decl" and s["bad"]) for s in p)
        return True

    def flow(self, f, rule, prog, on=True):
        r = self.r
        self.pointers = r.random() < .4
        names = dict(zip("ab", r.sample(NAMES, 2)))
        number = self.serial()
        sets = any(s["op"] == "set" for s in prog)
        top = rule != "G601" and not (sets and rule == "G110") and prog[0]["op"] == "decl" and r.random() < .2
        if top:
            v = prog[0]["v"]
            names[v] = "%s%d" % (names[v], number)
        steps, ends, declared, found = [], [], [], {}
        body = []
        def add(*ls):
            body.extend("\t" * (len(ends) + 1) + x for x in ls)
        for i, s in enumerate(prog, 1):
            v = names.get(s["v"], "")
            form = ""
            if i > 1 and r.random() < .3:
                add(*[self.noise(f) for _ in range(60 if r.random() < .02 else 1)])
            if s["op"] == "decl" or s["op"] == "open" and v:
                form = self.pick(rule, "source", s["bad"])
                if rule == "G601" and not s["bad"]:
                    form = "clause" if s["op"] == "open" else "copy" if any(v in d for d in declared) and r.random() < .7 else "plain"
            if s["op"] == "set":
                form = self.pick(rule, "source", True)
                e, k = self.source(f, rule, form)
                add("%s%s = %s" % (self.par(v, .1), ", _" if k == 2 else "", e))
            elif s["op"] == "decl":
                ls = self.declare(f, rule, form, v, v if form == "copy" else "", top and i == 1, sets)
                if top and i == 1:
                    f.top += ls
                else:
                    add(*ls)
                    add("use(%s)" % v)
                (declared or [declared.append(set())]) and declared[-1].add(v)
            elif s["op"] == "open":
                kinds = ["{", "if flag {", "switch { default:", "func() any {", "select { default:", "if !flag { nothing() } else {"]
                if not sets: kinds += ["for flag {", "for range texts {"]
                head, end = r.choice(kinds), "}"
                if v and rule == "G601":
                    e = "refs" if self.pointers else "vals"
                    if s["bad"]:
                        head = r.choice(["for _, %s := range %s {", "for _, %s := range append(%s[:0:0], vals...) {" if not self.pointers else "for _, %s := range %s {"])
                        head = head % (v, e) if r.random() < .7 else "for i, %s := range %s { use(i)" % (v, e)
                    else:
                        head = "for %s := %s[0]; flag; {" % (v, e) if r.random() < .5 else "if %s := %s[0]; flag {" % (v, e)
                elif v:
                    e, k = self.source(f, rule, form)
                    e = e if k == 2 else self.par(e)
                    if sets and rule == "G110":
                        # the type has to admit other readers: an outer block with the declaration
                        add("{")
                        ends.append("}")
                        add(*self.declare(f, rule, form, v, "", False, True))
                        add("use(%s)" % v)
                        head, end = "{", "}\n" + "\t" * len(ends) + "}"
                        ends.pop()
                    elif k == 2:
                        head = r.choice(["if %s, err := %s; err == nil {", "if %s, _ := %s; flag {", "switch %s, err := %s; { case err != nil:"] + ([] if sets else ["for %s, _ := %s; flag; {"])) % (v, e)
                    else:
                        head = r.choice(["if %s := %s; flag {", "switch %s := %s; { default:"] + ([] if sets else ["for %s := %s; flag; {"])) % (v, e)
                if head.startswith("func()"):
                    head, end = r.choice([("use(func() any {", "\treturn nil\n})"), ("func() any {", "\treturn nil\n}()"), ("go func() any {", "\treturn nil\n}()"), ("defer func() any {", "\treturn nil\n}()")])
                add(head)
                ends.append(end)
                declared.append({v} if v else set())
                if v: add("use(%s)" % v)
            elif s["op"] == "close":
                end = ends.pop()
                add(*end.split("\n"))
                if declared: declared.pop()
            else:
                want = r.random() < .8
                form = self.pick(rule, "sink", want)
                if rule == "G601":
                    form = "pointed" if self.pointers and form in ("field", "deepField", "pointed") else "field" if form == "pointed" else form
                found[len(body)] = i
                add(self.use(f, rule, form, v))
            steps.append({"op": s["op"], "v": s["v"], "form": form})
        while ends:
            add(*ends.pop().split("\n"))
        at = f.here()
        sig = r.choice(["func f%d() any {", "func f%d() any {", "func (ownType) f%d() any {"]) % number
        literal = r.random() < .1
        # text inserted inside a step can take more than one line
        flat, where = [], {}
        for k, x in enumerate(body):
            if k in found: where[at + len(flat) + (2 if literal else 1)] = found[k]
            flat += x.split("\n")
        if literal:     # everything inside a function literal
            f.put("func f%d() any {" % number, "\treturn func() any {", *flat, "\t\treturn nil", "\t}()", "}", "")
        else:
            f.put(sig, *flat, "\treturn nil", "}", "")
        f.obs.append({"rule": rule, "where": where, "o": {"kind": "flow", "rule": rule, "prog": steps, "on": on}, "lines": (at, f.here()), "text": "\n".join(f.lines[at:f.here()])})
    # -- calls with everything written in them
    def path(self, f, e):
        r = self.r
        if e["k"] == "text": return self.par(self.lit("/".join(e["segs"])), .1)
        if e["k"] == "temp": return f.q("os") + "TempDir()"
        if e["k"] == "call": return r.choice(["str()", "text", "texts[0]"])
        if e["k"] == "plus": return self.par("%s + %s" % (self.path(f, e["l"]), self.path(f, e["r"])), .15)
        return f.q(r.choice(["path", "path/filepath"])) + "Join(%s, %s%s)" % (self.path(f, e["l"]), self.path(f, e["r"]), r.choice(["", "", ', "/tmp"', ", text"]))
    def call(self, f, rule, callee, arg):
        r = self.r
        if rule == "G303":
            a = self.path(f, arg)
            os = f.q("os")
            return {"create": "use(%sCreate(%s))" % (os, a), "writeFile": "use(%sWriteFile(%s, data, 0600))" % (os, a), "ioutil": "use(%sWriteFile(%s, nil, 0600))" % (f.q("io/ioutil"), a),
                    "open": "use(%sOpen(%s))" % (os, a), "remove": "use(%sRemove(%s))" % (os, a), "mkdir": "use(%sMkdir(%s, 0700))" % (os, a), "own": "use(ownV.Create(%s))" % a}[callee]
        if rule == "G111":
            a = {"root": '"/"', "rootRaw": "`/`", "rootParens": '("/")', "dot": '"."', "www": '"/www"', "rootx": '"/x"', "empty": '""', "call": "str()"}[arg]
            http = f.q("net/http")
            return {"dir": r.choice(["use(%sDir(%s))", "use(" + http + "FileServer(%sDir(%s)))"]) % (http, a), "other": "use(%sRedirectHandler(%s, 301))" % (http, a), "own": "use(ownV.Dir(%s))" % a}[callee]
        if rule == "G112":
            kv = {"none": [], "addr": ['Addr: ":1"'], "write": ["WriteTimeout: 1"], "idle": ["IdleTimeout: 1", 'Addr: ""'], "nested": ["Handler: hdl(server{ReadTimeout: 1, ReadHeaderTimeout: 2})"],
                  "header": ["ReadHeaderTimeout: 3"], "read": ["ReadTimeout: 3"], "both": ["ReadTimeout: 1", "ReadHeaderTimeout: 1"], "headerLast": ['Addr: ":1"', "WriteTimeout: 2", "ReadHeaderTimeout: 1"]}[arg]
            b = "{%s}" % ", ".join(kv)
            t = f.q("net/http") + "Server"
            return {"value": "use(%s%s)" % (t, b), "pointer": "use((&%s%s))" % (t, b), "element": "use([]%s{%s})" % (t, b), "pointerElement": "use([]*%s{%s})" % (t, b), "alias": "use(srvAlias%s)" % b,
                    "mapValue": 'use(map[string]%s{"a": %s})' % (r.choice([t, "*" + t]), b), "own": "use(&server%s)" % b, "ownElement": "use([]server{%s})" % b}[callee]
        if rule == "G203":
            a = {"variable": "text", "call": "str()", "concat": '"a" + text', "element": "texts[0]", "field": "own.Name", "const": "cst", "text": '"<b>"', "raw": "`<b>`", "empty": '""'}[arg]
            return "use(%s(%s))" % ({"escape": f.q("html/template") + "HTMLEscapeString", "own": "ownV.HTML", "text": f.q("text/template") + "HTMLEscapeString"}.get(callee, f.q("html/template") + callee), a)
        return self.use(f, rule, callee, self.source(f, rule, arg)[0])
    def calls(self, f, rule, cases):
        f.put("func f%d() any {" % self.serial())
        for c, a in cases:
            if self.r.random() < .3:
                f.put("\t" + self.noise(f) if rule != "G601" else "\tnothing()")
            at = f.here()
            f.put("\t" + self.call(f, rule, c, a))
            f.obs.append({"rule": rule, "where": {at: 1}, "o": {"kind": "call", "rule": rule, "callee": c, "arg": a}, "lines": (at, at + 1), "text": f.lines[at]})
        f.put("\treturn nil", "}", "")

    # -- values for ciphers: (lines before, expression)
    def nonce(self, f, arg, value):
        r = self.r
        v = "n%d" % self.serial()
        rd, io = f.q("crypto/rand"), f.q("io")
        if arg == "fixed":
            fillIt = r.choice(["use(%sRead(%%s))" % rd, "use(%sReadFull(%sReader, %%s))" % (io, rd)])
            return {"namedText": ([], r.choice(['[]byte(ownText("ILoveMyNonce"))', 'ownBytes("ILoveMyNonce")', 'ownBytes(ownText("ILoveMyNonce"))', "[]byte(ownConst)"])), "namedSlice": ([], "ownBytes{1, 2, 3, 4}"),
                    "namedLocal": (["%s := %s" % (v, r.choice(["ownBytes{1, 2}", "make(ownBytes, 16)", "ownBytes(make([]byte, 16))"]))], v),
                    "besideFilled": (["%s, o%s := make([]byte, 16), make([]byte, 16)" % (v, v), r.choice(["fillSecond(%s, o%s)", "func(a, b []byte) { use(a); FILL }(%s, o%s)".replace("FILL", fillIt % "b")]) % (v, v)], v),
                    "capturedBeside": (["%s, o%s := make([]byte, 16), make([]byte, 16)" % (v, v), r.choice(["func() { use(V); FILL }()", "func() { FILL; use(V) }()"]).replace("V", v).replace("FILL", fillIt % ("o" + v)), "use(o%s)" % v], v),
                    "tornFrom": (["%s, o%s := []byte{1, 2, 3, 4}, make([]byte, 16)" % (v, v), fillIt % ("o" + v), "use(append(o%s, %s...), o%s)" % (v, v, v)], v),
                    "bytes": ([], r.choice(["[]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}", "[]byte{}"])), "text": ([], '[]byte("ILoveMyNonceAlot")'), "local": (["%s := []byte{1, 2, 3, 4}" % v], v),
                    "localText": (["var %s = []byte(\"ILoveMyNonce\")" % v], v), "global": ([], "fixGlobal"), "function": ([], "fixBytes()"),
                    "literalCall": ([], 'func() []byte { return []byte("ILoveMyNonce") }()'), "zeros": (["%s := make([]byte, 16)" % v], v), "array": (["%s := [16]byte{1, 2}" % v], v + "[:]"),
                    "mathRand": (["%s := make([]byte, 16)" % v, "use(%sRead(%s))" % (f.q("math/rand", "rand"), v)], v),
                    "overwritten": (["%s := make([]byte, 16)" % v, "use(%sRead(%s))" % (rd, v), "use(%s)" % v, '%s = []byte("ILoveMyNonce")' % v], v)}[value]
        fill = {"read": "use(%sRead(%%s))" % rd, "readFull": "if _, err := %sReadFull(%sReader, %%s); err != nil { panic(err) }" % (io, rd), "reader": "use(%sReader.Read(%%s))" % rd,
                "atLeast": "use(%sReadAtLeast(%sReader, %%s, 16))" % (io, rd)}
        any_ = r.choice(list(fill.values()))
        size = r.choice(["16", "16", "12", "aead.NonceSize()", "number"])
        if value in fill:
            return ["%s := make([]byte, %s)" % (v, size), fill[value] % v], v
        return {"function": ([], r.choice(["rndBytes()", "random(16)"])), "functionFull": ([], "rndFull()"), "functionVia": ([], "rndVia()"), "functionReader": ([], "rndReader()"),
                "array": (["var %s [16]byte" % v, any_ % (v + "[:]")], v + "[:]"), "prefix": (["t%s := make([]byte, %s)" % (v, r.choice(["16+len(data)", "48"])), "%s := t%s[:16]" % (v, v), any_ % v], v),
                "whole": (["t%s := make([]byte, %s)" % (v, r.choice(["16+len(data)", "48"])), any_ % ("t" + v), "%s := t%s[8:24]" % (v, v)], v),
                "namedSlice": (["%s := %s" % (v, r.choice(["make(ownBytes, 16)", "ownBytes(make([]byte, 12))", "ownBytes{}"])), any_ % v], v), "namedOther": (["%s := make([]byte, 16)" % v, any_ % v, "z%s := ownBytes(%s)" % (v, v)], "z" + v),
                "helper": (["%s, o%s := make([]byte, 16), make([]byte, 16)" % (v, v), "fillSecond(o%s, %s)" % (v, v)], v),
                "inLiteral": (["%s, o%s := make([]byte, 16), make([]byte, 16)" % (v, v), "func() { use(o%s); %s }()" % (v, any_ % v)], v),
                "captured": (["%s := make([]byte, 16)" % v, any_ % v, "func() { use(%s) }()" % v], v)}[value]
    def cipher(self, f, form, v, rnd):
        c = f.q("crypto/cipher")
        n = {"CBC": "NewCBCEncrypter", "CFB": "NewCFBEncrypter", "CTR": "NewCTR", "OFB": "NewOFB", "CBCDec": "NewCBCDecrypter", "CFBDec": "NewCFBDecrypter"}
        if form in n: return "use(%s%s(block, %s))" % (c, n[form], v)
        return {"Seal": "use(aead.Seal(nil, %s, data, nil))" % v, "Open": "use(aead.Open(nil, %s, data, nil))" % v, "lookalike": self.r.choice(["use(useNewCTR(block, %s))" % v, "use(useSeal(data, %s, nil, nil))" % v]),
                "lookalikeMethod": "use(ownV.Seal(nil, %s, nil, nil))" % v, "data": "use(aead.Seal(nil, %s, %s, nil))" % (rnd, v)}[form]
    def nonces(self, f, calls):
        """a program of Nonces.tla"""
        r = self.r
        number = self.serial()
        calls = list(calls)
        r.shuffle(calls)
        shapes = {k: r.choice(["plain", "plain", "second", "method", "decoy", "first", "methodMiddle"]) for k in (1, 2, 3)}
        name = {k: r.choice(["enc%dx%d", "seal%dx%d", "f%dx%d"]) % (k, number) for k in shapes}
        out, where = [], {}
        start = f.here()
        for g in sorted({c["from"] for c in calls} | {c["to"] for c in calls if c["to"] != 100}):
            p = r.choice(["nonce", "iv", "p"])
            sig = {"plain": "func %s(%s []byte) {", "second": "func %s(n int, %s []byte) {", "method": "func (ownType) %s(%s []byte) {", "decoy": "func %s(other, %s []byte) {",
                   "first": "func %s(%s, other []byte) {", "methodMiddle": "func (ownType) %s(a []byte, %s []byte, b []byte, n int) {"}[shapes.get(g, "plain")]
            if r.random() < .2:
                sig = sig.replace("%s []byte", "%s ownBytes")
            f.put("func main%d() {" % number if g == 0 else sig % (name[g], p))
            for c in calls:
                if c["from"] != g: continue
                o = dict(c, cipher="", value="")
                if c["arg"] == "param":
                    pre, v = [], p
                else:
                    o["value"] = self.pick("G407", "value", c["arg"] == "fixed")
                    pre, v = self.nonce(f, c["arg"], o["value"])
                if r.random() < .3: pre = pre + [self.noise(f)]
                if r.random() < .3 and (not pre or v.startswith("n")):     # the same value elsewhere, where it does not matter
                    pre = pre + [self.cipher(f, r.choice(["Open", "CBCDec", "lookalike", "lookalikeMethod", "data"]), v, "rndBytes()")]
                f.put(*["\t" + x for x in pre])
                if c["to"] == 100:
                    o["cipher"] = self.pick("G407", "cipher", r.random() < .8)
                    line = self.cipher(f, o["cipher"], v, "rndBytes()")
                else:
                    line = {"plain": "%s(%s)", "second": "%s(7, %s)", "method": "ownV.%s(%s)", "decoy": '%s([]byte("some other text"), %s)',
                            "first": '%s(%s, []byte("some other text"))', "methodMiddle": 'ownV.%s([]byte("x"), %s, []byte{1, 2}, 3)'}[shapes[c["to"]]] % (name[c["to"]], v)
                where[f.here()] = len(out) + 1
                f.put("\t" + line)
                out.append(o)
            f.put("}", "")
        f.obs.append({"rule": "G407", "where": where, "o": {"kind": "nonce", "calls": out}, "lines": (start, f.here()), "text": "\n".join(f.lines[start:f.here()])})

def run(ctx):
    ctx.model("Flows", ctx.pick(None, "Flows_Big.cfg"))
    ctx.model("Nonces", ctx.pick(None, "Nonces_Big.cfg"))
    for k in ctx.pick(FAULTS[:2], FAULTS):
        if ctx.tlc("Flows", "Flows_%s.cfg" % k, expect_ok=False)["rc"] == 0:
            raise vk.CheckError("a pass with the fault %s is not told apart" % k)
    for k in ("first", "random", "once"):
        if ctx.tlc("Nonces", "Nonces_%s.cfg" % k, expect_ok=False)["rc"] == 0:
            raise vk.CheckError("an analysis with the fault %s is not told apart" % k)
    cases = ctx.enumerate("FlowsCases")
    graphs = ctx.enumerate("Nonces", ctx.pick("Nonces_Cases.cfg", "Nonces.cfg"))
    r = ctx.rng
    table = {}
    for c in cases:
        if c["kind"] in ("source", "sink"):
            table.setdefault((c["kind"], c["rule"], c["arg"] == "danger"), []).append(c["callee"])
    ctx.tlc("Nonces", "Nonces_Cases.cfg", env={"VALUES": "1", "EMIT": ctx.path("tlc", "values.ndjson")})
    for line in open(ctx.path("tlc", "values.ndjson")):
        v = json.loads(line)
        table.setdefault((v["table"], "G407", v["danger"]), []).append(v["name"])
    for k in table: table[k].sort()
    flows = sorted((c["prog"] for c in cases if c["kind"] == "flow"), key=str)
    paths = sorted(((c["callee"], c["path"]) for c in cases if c["kind"] == "path"), key=str)
    direct = sorted(((c["rule"], c["callee"], c["arg"]) for c in cases if c["kind"] == "call"), key=str)
    graphs.sort(key=str)
    through = [g for g in graphs if any(c["to"] != 100 and c["arg"] != "param" and c["to"] in reaching(g) for c in g)]
    total = {}
    for rnd in range(ctx.pick(1, 6)):
        g = Gen(ctx, r, table)
        g.n = rnd * 100000
        old = rnd % 3 != 2
        version = r.choice(["go1.21", "go1.21.5", "go1.18", "go1.9", "go1.21rc2"] if old else ["go1.22", "go1.22.1", "go1.23rc1", "go1.24.3"])
        files = []
        def file():
            files.append(File(r, "f%d.go" % len(files)))
            return files[-1]
        for rule in ("G102", "G109", "G110", "G305", "G601"):
            ps = [p for p in flows if g.fits(rule, p)]
            r.shuffle(ps)
            ps = ps[:ctx.pick(400, 800)]
            # longer programs: two after each other
            for i in range(ctx.pick(40, 200)):
                a, b = r.choice(ps), r.choice(ps)
                if not any(s["op"] == "decl" for s in b):
                    ps.append([{"op": "open", "v": "", "bad": False}] + list(a) + [{"op": "close", "v": "", "bad": False}] * (1 + opened(a)) + list(b))
            for i in range(0, len(ps), 50):
                f = file()
                for p in ps[i:i + 50]:
                    g.flow(f, rule, p, on=rule != "G601" or old)
        some = r.sample(paths, ctx.pick(500, len(paths)))
        for i in range(0, len(some), 40):
            g.calls(file(), "G303", some[i:i + 40])
        r.shuffle(direct)
        for rule in ("G102", "G110", "G111", "G112", "G203", "G305"):
            mine = [(c, a) for q, c, a in direct if q == rule]
            if rule == "G102": mine = [(c, a) for c, a in mine]
            for i in range(0, len(mine), 40):
                g.calls(file(), rule, mine[i:i + 40])
        gs = r.sample(graphs, min(len(graphs), ctx.pick(60, 800))) + [r.choice(through) for _ in range(ctx.pick(240, 800))]
        for i in range(0, len(gs), 25):
            f = file()
            for x in gs[i:i + 25]:
                g.nonces(f, x)
        # several packages, so that the analysis is shared out
        groups = [files[i::4] for i in range(4)]
        root = os.path.join(ctx.scratch, "mods", "flows")
        shutil.rmtree(root, ignore_errors=True)
        text = {}
        for i, fs in enumerate(groups):
            text["p%d/base.go" % i] = BASE
            for f in fs:
                text["p%d/%s" % (i, f.name)] = f.text()
        root = ctx.module("flows", text)
        rep = ctx.must_scan(root, ["-include=" + ",".join(RULES)] + ctx.noise(r), env={"GOSECGOVERSION": version}, timeout=600)
        if rep is None:
            return ctx.finish()
        if rep["Golang errors"]:
            raise vk.CheckError("the generated files do not compile: %s" % str(rep["Golang errors"])[:3000])
        hits = {}
        for x in rep["Issues"]:
            hits.setdefault((os.path.relpath(x["file"], root), x["rule_id"]), set()).add(int(x["line"].split("-")[0]))
        obs, meta = [], []
        for i, fs in enumerate(groups):
            for f in fs:
                rel = "p%d/%s" % (i, f.name)
                rules = {o["rule"] for o in f.obs}
                for rule in rules:
                    lines = {n - f.offset for n in hits.get((rel, rule), ())}
                    left = set(lines)
                    for o in f.obs:
                        mine = {n for n in lines if n in o["where"]}
                        left -= mine
                        idx = sorted(o["where"][n] for n in mine)
                        obs.append(dict(o["o"], found=bool(idx) if o["o"]["kind"] == "call" else idx))
                        meta.append((f, o))
                    for n in left:
                        ctx.fail("elsewhere:%s" % rule, "%s is reported for a line which is no use at all: %s" % (rule, f.lines[n] if 0 <= n < len(f.lines) else rel), {"file": f.text()})
        for k, why in sorted(ctx.validate("FlowsVal", obs).items()):
            f, o = meta[k]
            key = "%s:%s" % (o["rule"], describe(o, why))
            ctx.fail(key, "%s: %s in\n%s" % (o["rule"], "; ".join(sorted(why)), o["text"]), {"observation": obs[k], "imports": f.imports, "version": version})
        for o in obs:
            total[o.get("rule", "G407")] = total.get(o.get("rule", "G407"), 0) + 1
        ctx.sample({"rule": meta[0][1]["rule"], "program": meta[0][1]["text"], "found": obs[0]["found"]})
    versions(ctx, total)
    ctx.extra["programs"] = total
    return ctx.finish()

def versions(ctx, total):
    """The Go version which decides about range variables (Versions.tla)."""
    import subprocess
    r = ctx.rng
    cases = sorted(ctx.enumerate("Versions"), key=str)
    tool = subprocess.run(["go", "env", "GOVERSION"], env=dict(os.environ, **vk.GOENV), capture_output=True, text=True).stdout
    tool = [int(x) for x in tool.strip()[2:].split(".")[:2]]
    def write(i, c):
        mod = ""
        if c["mod"]:
            v = "%d.%d" % tuple(c["mod"])
            if c["mod"][1] >= 21: v += r.choice(["", ".0", ".1", ".3", "rc2"])
            mod = "go %s\n" % v
        env = None
        if c["env"]:
            env = r.choice(["go", "go", ""]) + "%d.%d" % tuple(c["env"]) + r.choice(["", ".0", ".5", ".24", "rc2", "beta1"])
        var, fn = r.choice([("item", "keep"), ("v", "use"), ("x1", "store")])
        root = ctx.module("version%d" % i, {"go.mod": "module version%d\n\n%s" % (i, mod), "a.go":
            "package p\n\nfunc %s(p *int) {}\n\nfunc all(xs []int) {\n\tfor _, %s := range xs {\n\t\t%s(&%s)\n\t}\n}\n" % (fn, var, fn, var)})
        return root, env
    work = [(c,) + write(i, c) for i, c in enumerate(cases)]
    reps = ctx.pool(lambda w: ctx.must_scan(w[1], ["-include=G601"], env={"GOSECGOVERSION": w[2]}), work)
    obs = []
    for (c, root, env), rep in zip(work, reps):
        if rep is None: return
        if rep["Golang errors"]: raise vk.CheckError("the module does not compile: %s" % rep["Golang errors"])
        obs.append({"kind": "version", "env": c["env"], "mod": c["mod"], "tool": tool, "found": [x["line"] for x in rep["Issues"] or []] == ["7"]})
    for k, why in sorted(ctx.validate("FlowsVal", obs).items()):
        c, root, env = work[k]
        ctx.fail("version", "G601 is %s with GOSECGOVERSION=%s in a module with %s" % ("; ".join(why), env, open(os.path.join(root, "go.mod")).read().split("\n")[2] or "no version"), obs[k])
    total["version"] = len(obs)

def reaching(g):
    out = set()
    while True:
        new = {c["from"] for c in g if c["arg"] == "param" and (c["to"] == 100 or c["to"] in out)}
        if new <= out: return out
        out |= new

def opened(p):
    d = 0
    for s in p:
        d += {"open": 1, "close": -1}.get(s["op"], 0)
    return d

def describe(o, why):
    x = o["o"]
    if x["kind"] == "call": return "%s:%s:%s" % (x["callee"], x["arg"] if isinstance(x["arg"], str) else "path", min(why))
    out = []
    for w in sorted(why):
        if ":" in w:
            i = int(w.split(": ")[1]) - 1
            s = x["prog"][i] if x["kind"] == "flow" else x["calls"][i]
            out.append("%s %s" % (w.split(":")[0], s.get("form") or "%s/%s" % (s.get("value"), s.get("cipher"))))
    return "; ".join(out[:2]) or min(why)
