"""Code which compiles, with unusual ways of coming by the values of calls, for the shapes which Robust.tla enumerates."""

import random

# name -> types of the values; the text of the call has {0}, {1}, ... for them; "=" in front: a statement, no value
SINKS = {
    "os/exec.Command": ["string", "string"], "os/exec.CommandContext": ["context.Context", "string", "string"], "syscall.Exec": ["string", "[]string", "[]string"],
    "syscall.ForkExec": ["string", "[]string", "*syscall.ProcAttr"], "syscall.StartProcess": ["string", "[]string", "*syscall.ProcAttr"], "os.StartProcess": ["string", "[]string", "*os.ProcAttr"],
    "os.Create": ["string"], "os.Open": ["string"], "os.OpenFile": ["string", "int", "os.FileMode"], "os.ReadFile": ["string"], "os.WriteFile": ["string", "[]byte", "os.FileMode"], "os.Mkdir": ["string", "os.FileMode"], "os.MkdirAll": ["string", "os.FileMode"],
    "os.Chmod": ["string", "os.FileMode"], "os.CreateTemp": ["string", "string"], "io/ioutil.ReadFile": ["string"], "io/ioutil.WriteFile": ["string", "[]byte", "os.FileMode"], "io/ioutil.TempFile": ["string", "string"], "path/filepath.Join": ["string", "string"], "path/filepath.Clean": ["string"],
    "net/http.Get": ["string"], "net/http.Post": ["string", "string", "io.Reader"], "net/http.PostForm": ["string", "url.Values"], "net/http.NewRequest": ["string", "string", "io.Reader"], "net/http.Dir": ["string"], "net/http.ListenAndServe": ["string", "http.Handler"], "net/http.Serve": ["net.Listener", "http.Handler"],
    "net.Listen": ["string", "string"], "crypto/tls.Listen": ["string", "string", "*tls.Config"], "crypto/rsa.GenerateKey": ["io.Reader", "int"], "compress/gzip.NewReader": ["io.Reader"], "compress/zlib.NewReaderDict": ["io.Reader", "[]byte"], "archive/zip.NewReader": ["io.ReaderAt", "int64"],
    "io.Copy": ["io.Writer", "io.Reader"], "io.CopyBuffer": ["io.Writer", "io.Reader", "[]byte"], "io.CopyN": ["io.Writer", "io.Reader", "int64"], "strconv.Atoi": ["string"], "strconv.ParseInt": ["string", "int", "int"], "strconv.ParseUint": ["string", "int", "int"], "fmt.Sprintf": ["string", "any"], "fmt.Fprintf": ["io.Writer", "string", "any"],
    "html/template.HTML": ["string"], "html/template.URL": ["string"], "crypto/cipher.NewCTR": ["cipher.Block", "[]byte"], "crypto/cipher.NewCBCEncrypter": ["cipher.Block", "[]byte"], "crypto/cipher.NewOFB": ["cipher.Block", "[]byte"], "crypto/rand.Read": ["[]byte"], "io.ReadFull": ["io.Reader", "[]byte"], "math/big.NewInt": ["int64"],
    "unsafe.String": ["*byte", "int"], "unsafe.Slice": ["*byte", "int"], "os.Remove": ["string"],
}
METHODS = {
    "db.Query": ("*sql.DB", "Query", ["string", "any"]), "db.ExecContext": ("*sql.DB", "ExecContext", ["context.Context", "string"]), "tx.Prepare": ("*sql.Tx", "Prepare", ["string"]), "tx.QueryRow": ("*sql.Tx", "QueryRow", ["string"]), "aead.Seal": ("cipher.AEAD", "Seal", ["[]byte", "[]byte", "[]byte", "[]byte"]),
    "zf.Open": ("*zip.File", "Open", []), "zr.Open": ("*zip.Reader", "Open", ["string"]), "cl.Do": ("*http.Client", "Do", ["*http.Request"]), "cl.Get": ("*http.Client", "Get", ["string"]), "sb.WriteString": ("*strings.Builder", "WriteString", ["string"]), "big.SetString": ("*big.Int", "SetString", ["string", "int"]), "rat.SetString": ("*big.Rat", "SetString", ["string"]),
}
TEXTS = {
    "tlsconf": (["bool", "uint16", "[]uint16"], ["&tls.Config{{InsecureSkipVerify: {0}, MinVersion: {1}, CipherSuites: {2}}}", "tls.Config{{PreferServerCipherSuites: {0}, MaxVersion: {1}, CipherSuites: {2}}}"]),
    "server": (["string", "http.Handler", "time.Duration"], ["&http.Server{{Addr: {0}, Handler: {1}, ReadHeaderTimeout: {2}}}", "http.Server{{Addr: {0}, Handler: {1}, ReadTimeout: {2}}}"]),
    "index": (["[]int", "int"], ["{0}[{1}]", "{0}[2]", "&{0}[3]"]), "slice": (["[]int", "int", "int"], ["{0}[{1}:{2}]", "{0}[1:{2}][3]", "{0}[:4]"]), "slice3": (["[]byte", "int", "int", "int"], ["{0}[{1}:{2}:{3}]", "{0}[1:2:3][:5]"]),
    "subslice": (["[]string", "int"], ["{0}[1:][{1}:][2:3]", "append({0}[:1], {0}[{1}:]...)"]), "makeslice": (["int", "int"], ["make([]int, {0})[{1}]", "make([]int, 4)[{1}:][1]", "make([]int, 0, 3)[:{1}]"]), "makecap": (["int", "int"], ["make([]string, {0}, {1})", "make(map[string]int, {0}+{1})"]),
    "int8": (["int"], ["int8({0})", "int8({0} + 1)", "int8(-{0})"]), "int16": (["int64"], ["int16({0})", "int16({0} & 255)"]), "uint8": (["int32"], ["uint8({0})", "byte({0} >> 8)"]), "uint32": (["int"], ["uint32({0})", "uint32({0} % 10)"]), "int32": (["uint64"], ["int32({0})"]), "uint64": (["int64"], ["uint64({0})", "uint64({0} * {0})"]),
    "byteloop": (["string"], ["[]byte({0})", "string([]rune({0})[1:])"]), "len": (["[]int"], ["uint32(len({0}))", "int8(cap({0}))"]), "append": (["[]byte", "byte"], ["append({0}, {1})", "append([]byte(nil), {0}...)"]), "copy": (["[]byte", "string"], ["copy({0}, {1})"]),
    "nonceparam": (["cipher.Block", "[]byte"], ["encrypt({0}, {1})", "encryptAll({0}, {1}, {1})"]), "sliceparam": (["[]int", "int"], ["cut({0}, {1})", "cut({0}[1:], {1})"]), "compare": (["string", "string"], ['{0} == "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"', "password == {0}"]),
    "secret": (["string"], ["keep({0}, password+{0})"]), "address": (["[]thing"], ["addresses({0})"]), "sizes": (["[]int"], ["len({0}) > 3 && {0}[3] > 0", "len({0}) == 0 || {0}[0] == 1"]),
}
CONSTS = {"string": ['"x"', "text", '"a" + text'], "int": ["3", "number", "1 << 4"], "int64": ["3", "number"], "uint64": ["3", "number"], "int32": ["3", "'x'"], "uint16": ["tls.VersionTLS10", "0x0303"], "byte": ["'x'", "3"], "bool": ["true", "false", "!true"], "os.FileMode": ["0o777", "mode", "os.ModePerm"],
          "time.Duration": ["0", "time.Second"], "any": ["nil", "1", '"x"', "[]any{}"]}
NIL = ["[", "*", "io.", "http.Handler", "net.Listener", "context.", "cipher.", "url.Values", "any"]
HELP = '''package p

import (
	"archive/zip"
	"context"
	"crypto/cipher"
	"crypto/tls"
	"database/sql"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"syscall"
	"time"
)

type box[T any] struct {
	X   T
	P   *T
	S   []T
	M   map[string]T
	C   chan T
	F   func() T
	A   any
	I   interface{ Get() T }
	Arr [4]T
}

func (b box[T]) Get() T { return b.X }
func (b *box[T]) Set(x T) { b.X = x }

type outer[T any] struct{ box[T] }
type thing struct{ X, Y string }

func gid[T any](x T) T { return x }
func make2[T any](b interface{ Get() T }) (T, error) { return b.Get(), nil }
func boxed[T any]() box[T] { return box[T]{} }
func seq[T any](s ...T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for _, x := range s {
			if !yield(x) {
				return
			}
		}
	}
}
func use(...any) any  { return nil }
func keep(...any) any { return nil }
func encrypt(b cipher.Block, iv []byte) any { return cipher.NewCTR(b, iv) }
func encryptAll(b cipher.Block, iv []byte, more ...[]byte) any {
	for _, x := range more {
		encrypt(b, x)
	}
	return encrypt(b, iv)
}
func cut(s []int, n int) any {
	if len(s) > n {
		return s[n:][:2]
	}
	if len(s) == 4 {
		return s[3]
	}
	return cut(s[1:], n-1)
}
func addresses(s []thing) (out []*thing) {
	for _, x := range s {
		out = append(out, &x)
	}
	return
}

const (
	text   = "x"
	number = 3
	mode   = 0o755
)

var password, password2 string

var (
	_ *zip.File
	_ context.Context
	_ *tls.Config
	_ *sql.DB
	_ io.Reader
	_ *big.Int
	_ net.Listener
	_ http.Handler
	_ url.Values
	_ os.FileMode
	_ *strings.Builder
	_ *syscall.ProcAttr
	_ time.Duration
)
'''
PKGS = {"zip": "archive/zip", "context": "context", "cipher": "crypto/cipher", "tls": "crypto/tls", "sql": "database/sql", "io": "io", "big": "math/big", "net": "net", "http": "net/http", "url": "net/url", "os": "os", "strings": "strings", "syscall": "syscall", "time": "time"}

class Text:
    def __init__(self, r, bases, tag):
        self.r, self.bases, self.tag, self.n = r, bases, tag, 0
        self.globals = []
    def serial(self):
        self.n += 1
        return "%s_%d" % (self.tag, self.n)
    def base(self, t, which, pre, post, package):
        """an expression of type box[t]"""
        k = self.serial()
        if package and which in ("pointer", "local", "param", "captured"):
            which = "global"
        if which == "global":
            self.globals.append("var g%s box[%s]" % (k, t))
            return "g" + k
        if which == "pointer":
            pre.append("q%s := &box[%s]{}; _ = q%s" % (k, t, k))
            return "q" + k
        if which == "local":
            pre.append("v%s := box[%s]{}; _ = v%s" % (k, t, k))
            return "v" + k
        if which == "captured":
            pre += ["c%s := boxed[%s]()" % (k, t), "func() {", "_ = c%s" % k]
            post[:0] = ["}()"]
            return "c" + k
        if which == "param":
            pre.append("func(p%s box[%s]) {" % (k, t))
            post[:0] = ["}(box[%s]{})" % t]
            return "p" + k
        return {"result": "boxed[%s]()" % t, "new": "(*new(box[%s]))" % t, "literal": "(box[%s]{})" % t, "embedded": "(outer[%s]{}.box)" % t, "element": "[]box[%s]{{}}[0]" % t, "map": "map[string]box[%s]{}[\"x\"]" % t, "generic": "gid(boxed[%s]())" % t}[which]
    def value(self, t, how, pre, post, package=False):
        """an expression of type t"""
        r, k = self.r, self.serial()
        if how == "constant":
            if t in CONSTS: return r.choice(CONSTS[t])
            return "[]byte(text)" if t == "[]byte" else t + "{}" if t.startswith("[]") else "boxed[%s]().X" % t
        if how == "nilvalue":
            return "nil" if any(t.startswith(x) or t == x for x in NIL) else "*new(%s)" % t
        if how == "sliced":
            if t.startswith("[]"):
                return r.choice(["make(%s, 10)[2:6]", "[...]%s{3: *new(%s)}[:]" if False else "new([8]%s)[:]" % t[2:], "(%s)(nil)", "append(%s{}, make(%s, 3)...)" % (t, t)]).replace("%s", t)
            how = "copyvar" if not package else "field"
        if how == "ownfunction":
            self.globals.append("func own%s(n int) %s {\n\tif n > 3 {\n\t\treturn own%s(n - 1)\n\t}\n\treturn boxed[%s]().Arr[n]\n}" % (k, t, k, t))
            return "own%s(%s)" % (k, r.choice(["3", "number", "len(text)"]))
        b = self.base(t, r.choice(self.bases), pre, post, package)
        simple = {"field": "{b}.X", "deref": "*{b}.P", "elem": "{b}.S[0]", "elemn": "{b}.S[len({b}.S)-1]", "mapelem": '{b}.M["x"]', "receive": "<-{b}.C", "call": "{b}.F()", "assert": "{b}.A.({t})", "interface": "{b}.I.Get()", "method": "{b}.Get()", "array": "{b}.Arr[1]", "arrayn": "{b}.Arr[len({b}.S)]",
                  "gid": "gid({b}.X)", "gidx": "gid[{t}]({b}.X)", "struct": "struct{{ X {t} }}{{{b}.X}}.X", "slicelit": "[]{t}{{{b}.X, {b}.Get()}}[1]", "arraylit": "[...]{t}{{2: {b}.X}}[len({b}.S)&1]", "maplit": "map[int]{t}{{1: {b}.X}}[2]", "closure": "func() {t} {{ return {b}.X }}()", "closureparam": "func(x {t}) {t} {{ return x }}({b}.X)", "convert": "({t})({b}.X)",
                  "paren": "(({b}.X))", "methodexpr": "box[{t}].Get({b})", "methodvalue": "gid({b}.Get)()", "zero": "*new({t})", "twice": "box[box[{t}]]{{}}.X.Arr[3]", "recursive": "func() {t} {{ var f func(int) {t}; f = func(n int) {t} {{ if n > 0 {{ return f(n - 1) }}; return {b}.X }}; return f(3) }}()",
                  "defer": "func() (x {t}) {{ defer func() {{ x = {b}.X }}(); return }}()", "minmax": "func() {t} {{ for {{ select {{ case x := <-{b}.C: return x; default: return {b}.X }} }} }}()"}
        if how in simple:
            return simple[how].format(b=b, t=t)
        if package:
            return simple[r.choice(["field", "elem", "call", "struct", "closure"])].format(b=b, t=t)
        x = "x" + k
        f = {"named": ["type n{k} {t}" if not t.startswith(("*", "io.", "http.Handler", "net.", "context.", "cipher.", "any")) else "type n{k} = {t}", "{x} := {t}(n{k}({b}.X))"],
             "phi": ["{x} := {b}.X", "if len({b}.S) > 2 {{", "{x} = {b}.Get()", "}}"], "loopphi": ["var {x} {t}", "for i := range {b}.S {{", "if i > 2 {{", "continue", "}}", "{x} = {b}.S[i]", "}}"],
             "okmap": ['{x}, ok{k} := {b}.M["y"]', "_ = ok{k}"], "multi": ["{x}, err{k} := make2({b})", "if err{k} != nil {{", "panic(err{k})", "}}"], "modified": ["{x} := {b}.X", "func() {{ {x} = {b}.Arr[2] }}()"], "addressed": ["{x} := {b}.X", "a{k} := &{x}", "*a{k} = {b}.Get()"],
             "shadow": ["{x} := {b}.X", "{{", "{x} := {x}", "_ = {x}", "}}"], "swap": ["{x}, y{k} := {b}.X, {b}.Get()", "{x}, y{k} = y{k}, {x}", "_ = y{k}"], "arraycopy": ["a{k} := {b}.Arr", "a{k}[len({b}.S)] = {b}.X", "{x} := a{k}[0]"],
             "labelled": ["var {x} {t}", "L{k}:", "for {{", "for {{", "{x} = {b}.X", "break L{k}", "}}", "}}"], "reassigned": ["var {x} {t} = {b}.X", "{x} = {b}.Arr[3]", "{x} = {b}.Get()"], "structvar": ["s{k} := struct{{ A, B {t} }}{{B: {b}.X}}", "s{k}.A = s{k}.B", "{x} := s{k}.A"],
             "copyvar": ["y{k} := {b}.X", "{x} := y{k}"], "goroutine": ["var {x} {t}", "go func() {{ {x} = {b}.X }}()"], "select": ["var {x} {t}", "select {{", "case {x} = <-{b}.C:", "case y{k}, ok := <-{b}.C:", "_, _ = y{k}, ok", "default:", "}}"]}
        if how in f:
            pre += [l.format(b=b, t=t, k=k, x=x) for l in f[how]] + ["_ = " + x]
            return x
        if how == "rangevalue":
            pre += ["for _, %s := range %s.S {" % (x, b), "_ = " + x]
            post[:0] = ["}"]
        elif how == "typeswitch":
            pre += ["switch %s := %s.A.(type) {" % (x, b), "case []box[struct{}]:", "_ = " + x, "case %s:" % t, "_ = " + x]
            post[:0] = ["}"]
        elif how == "insideclosure":
            pre += ["%s := %s.X" % (x, b), "func() {", "_ = " + x]
            post[:0] = ["}()"]
        else:
            raise KeyError(how)
        return x
    def shape(self, sink, access, place):
        r = self.r
        pre, post = [], []
        package = place == "package"
        if sink in SINKS:
            pkg, _, f = sink.rpartition(".")
            types, text = SINKS[sink], "%s.%s(%s)" % (pkg.split("/")[-1], f, ", ".join("{%d}" % i for i in range(len(SINKS[sink]))))
            if sink == "html/template.HTML" or sink == "html/template.URL": pkg = "html/template"
            self.pkgs.add(pkg)
        elif sink in METHODS:
            recv, m, args = METHODS[sink]
            types, text = [recv] + args, "({0}).%s(%s)" % (m, ", ".join("{%d}" % (i + 1) for i in range(len(args))))
        else:
            types, texts = TEXTS[sink]
            text = r.choice(texts)
            if sink == "tlsconf": self.pkgs.add("crypto/tls")
            if sink == "server": self.pkgs.add("net/http")
        special = r.randrange(len(types))
        vals = [self.value(t, access if i == special else r.choice(["field", "constant", "constant", "copyvar", "call", "nilvalue"]), pre, post, package) for i, t in enumerate(types)]
        if sink in METHODS and vals[0] == "nil":
            vals[0] = "(%s)(nil)" % types[0]
        if sink in TEXTS:
            vals = [("(%s)(nil)" % types[i] if v == "nil" and types[i].startswith("[") else v) for i, v in enumerate(vals)]
            if sink not in ("compare", "secret", "tlsconf", "server"):     # no constants which the compiler would judge
                vals = [("gid[%s](%s)" % (t, v) if v in CONSTS.get(t, ()) or v.startswith("*new(") else v) for t, v in zip(types, vals)]
        call = text.format(*vals)
        k = self.serial()
        if package:
            return "var w%s = []any{func() any { use(%s); return nil }()}" % (k, call) if r.random() < .5 else "var w%s = use(%s)" % (k, call)
        st = "use(%s)" % call
        isfunc = sink in SINKS and not sink.startswith(("unsafe", "html/template", "net/http.Dir")) or sink in METHODS
        if place == "go": body = ["go " + (call if isfunc else st)]
        elif place == "defer": body = ["defer " + (call if isfunc else st)]
        elif place == "closure": body = ["_ = func() any { return use(%s) }" % call]
        elif place == "deferclosure": body = ["defer func() {", "if e := recover(); e != nil {", st, "}", "}()"]
        elif place == "switch": body = ["switch any(use(%s)).(type) {" % call, "case string:", "default:", "}"]
        elif place == "case": body = ["switch {", "case use(%s) == nil:" % call, "fallthrough", "default:", st, "}"]
        elif place == "select": body = ["select {", "case <-make(chan int):", st, "default:", "}"]
        elif place == "loop": body = ["for i := 0; i < 3 && use(%s) == nil; i++ {" % call, "continue", "}"]
        elif place == "range": body = ["for i, x := range []any{use(%s)} {" % call, "_, _ = i, x", st, "}"]
        elif place == "rangefunc": body = ["for x := range seq(use(%s)) {" % call, "_ = x", st, "break", "}"]
        elif place == "if": body = ["if x := use(%s); x != nil {" % call, "use(x)", "}"]
        elif place == "else": body = ["if len(text) > 3 {", "} else if use(%s) == nil {" % call, "} else {", st, "}"]
        elif place == "label": body = ["if false {", "goto L%s" % k, "}", "goto L%s" % k, "L%s:" % k, st]
        elif place == "nested": body = ["func() func() any { return func() any { return use(use(%s)) } }()()" % call]
        elif place == "return": body = ["func() (any, error) { return use(%s), nil }()" % call]
        elif place == "arguments": body = ["use(use(%s), use(%s))" % (call, call)]
        elif place == "composite": body = ["_ = map[any][]any{1: {use(%s)}}" % call]
        else: body = [st]
        if place == "label" and pre:
            body = [st]
        head = {"method": "func (t%s) m%s() {" % (self.tag, k), "pointermethod": "func (t *t%s) m%s() {" % (self.tag, k), "init": "func init() {", "generic": "func f%s[G any](zz G) {" % k, "genericmethod": "func (gg *gt%s[K, V]) m%s(k K) (v V) {" % (self.tag, k)}.get(place, "func f%s() {" % k)
        tail = ["return"] if place == "genericmethod" else ["use(zz)"] if place == "generic" else []
        return "\n".join([head] + ["\t" + l for l in pre + body + post + tail] + ["}"])

def source(bases, shapes, tag):
    """Text of a file with shapes (sink, access, place, number), and their lines."""
    t = Text(None, bases, tag)
    t.pkgs = set()
    bodies = []
    for sink, access, place, number in shapes:
        t.r = random.Random(number)
        bodies.append(t.shape(sink, access, place))
    text = "\n\n".join(t.globals + bodies)
    need = set(t.pkgs)
    import re
    for short, path in PKGS.items():
        if re.search(r"\b%s\.[A-Z]" % short, text):
            need.add(path)
    parts = "package p\n\nimport (\n\tcanary \"crypto/md5\"\n" + "".join("\t\"%s\"\n" % p for p in sorted(need)) + ")\n\n"
    parts += "type t%s struct{ n int }\ntype gt%s[K comparable, V any] struct{ m map[K]V }\n\n" % (tag, tag)
    parts += "\n\n".join(t.globals) + "\n"
    spans = []
    for b in bodies:
        a = parts.count("\n") + 2
        parts += "\n" + b + "\n"
        spans.append((a, parts.count("\n")))
    return parts + "\nvar _ = canary.New()\n", spans
