"""Unusual calls in unusual places: Go text for the shapes which Robust.tla enumerates."""
import re

LOCAL = {"db", "tx", "aead", "zf", "buf", "cl"}
HELP = '''package p

import (
	"archive/zip"
	"bytes"
	"context"
	"crypto/cipher"
	"database/sql"
	"io"
	"net/http"
)

var (
	s    string
	b    []byte
	n    int
	e    error
	ss   []string
	fn   func() (string, error)
	fn3  func() (string, []byte, int)
	r    io.Reader
	w    io.Writer
	a    any
	ctx  context.Context
	db   *sql.DB
	tx   *sql.Tx
	aead cipher.AEAD
	zf   *zip.File
	buf  *bytes.Buffer
	cl   *http.Client
	blk  cipher.Block
	ch   chan string
	other string
	password, token string
)

type thing struct {
	X string
	Y struct{ Z string }
}

func (thing) M() string { return "" }

func use(...any) {}

func gid[T any](x T) T { return x }

func pair() (string, string) { return "", "" }
'''
CANARY = '\nvar _ = canary.New()\n'
PARAMS = "s string, b []byte, n int, ss []string, e error, fn func() (string, error), a any, ctx context.Context, r io.Reader, w io.Writer"
ARGS = {"none": "", "local": "loc", "literal": '"x"', "param": "s", "package": "\0", "other": "other", "undefined": "nosuch", "several": "fn()", "spread": "ss...", "spreadlit": "[]string{s}...", "nil": "nil", "closure": "func() {}",
        "composite": "[]byte{1, 2}", "concat": '"a" + s', "concat3": 's + ("a" + s) + "SELECT * FROM "', "badsel": "s.nope.x", "index": "ss[0]", "deref": "*&s", "paren": "((s))", "type": "int", "typeexpr": "[]string", "builtin": "len", "blank": "_", "huge": "1 << 100",
        "negative": "-1", "convert": "string(b)", "pkgname": "context", "generic": "gid[string](s)", "methodvalue": "thing{}.M", "join": "{path/filepath.Join}()", "joinjoin": "{path/filepath.Join}({path.Join}({os.TempDir}()), s)", "tempdir": "{os.TempDir}()", "sprintf": '{fmt.Sprintf}()',
        "address": "&s", "receive": "<-ch", "assert": "a.(string)", "many": "s, b, n, ss, e, a, ctx, 1, nil", "ctx": "ctx", "ctxseveral": "ctx, fn()", "ctxparam": "ctx, s", "pair": "pair()", "argsindex": "{os.Args}[1]", "getenv": '{os.Getenv}("X")', "select": "thing{}.Y.Z", "struct": "struct{ X string }{s}",
        "recursive": "@", "rune": "'x'", "float": "1.5", "imaginary": "1i", "raw": "`SELECT * FROM x WHERE y=%s`", "unicode": '"é世\\x00"'}
FORMS = {"stmt": "C", "assign": "x := C; _ = x", "assign2": "x, y := C; _, _ = x, y", "assign3": "x, y, z := C; _, _, _ = x, y, z", "blank": "_ = C", "blank2": "_, _ = C", "argument": "use(C)", "go": "go C", "defer": "defer C", "closure": "func() any { return C }()", "paren": "(C)", "sel": "_ = C.X.Y",
         "index": "_ = C[0]", "call": "C()", "lhs": "C = s", "range": "for range C {\n\t}", "switch": "switch C {\n\tcase C:\n\t}", "cond": "if C {\n\t}", "complit": "_ = []any{C, C}", "key": "_ = map[any]any{C: C}", "star": "_ = *C", "neg": "_ = -C", "bin": '_ = C + "x"', "send": "ch <- C", "convert": "_ = string(C)",
         "opassign": "s += C", "multi": "x, y := C, C; _, _ = x, y", "valuespec": "var x, y = C; _, _ = x, y", "const": "const k = C; _ = k", "credentials": "var user, password = C; _, _ = user, password", "credentials2": "token, secret := C; _, _ = token, secret", "credcompare": "_ = password == C || C != token", "generic": "_ = gid(C)", "exec": "_ = {os/exec.Command}(C)", "create": "_, _ = {os.Create}({path/filepath.Join}(C))", "query": "_, _ = db.Query(C)", "copy": "_, _ = {io.Copy}(w, C)",
         "narrow": "_ = int8(C)", "cipher": "_ = {crypto/cipher.NewCTR}(blk, C)", "make": "_ = make([]int, C)[C]", "flowexec": "x := C; _ = {os/exec.Command}(x, x)", "flowopen": "x, y := C; _ = y; f, err := {os.Open}(x); _, _ = f, err", "flowquery": "x := C; _, _ = db.Query(x); _, _ = tx.QueryContext(ctx, x)",
         "flowcopy": "x, y := C; _ = y; _, _ = {io.Copy}(w, x)", "flownarrow": "x, y := C; _ = y; _ = int32(x); _ = uint16(x)", "flowcipher": "x := C; _ = {crypto/cipher.NewCTR}(blk, x)", "flowget": "x := C; q, err := {net/http.Get}(x); _, _ = q, err", "flowslice": "x := C; _ = x[1:2][3]; _ = x[:n]",
         "labelled": "L:\n\tfor {\n\t\t_ = C\n\t\tbreak L\n\t}", "iife": "func(x any) { _ = x }(C)", "paramdefault": "_ = func() (x, y any) { x, y = C, C; return }"}

def name(style, q, used):
    """how a file of that style writes q = package.Name"""
    pkg, _, f = q.rpartition(".")
    used.add(pkg)
    last = pkg.split("/")[-1]
    if last == "v2":
        last = "rand"
    if style == "alias":
        return "zz%s.%s" % (pkg.replace("/", "").replace(".", ""), f)
    if style == "dot":
        return f
    return "%s.%s" % (last, f)

def expand(text, style, used):
    out = ""
    while "{" in text:
        i = text.index("{")
        j = text.find("}", i)
        q = text[i + 1:j]
        if j > 0 and "." in q and " " not in q and "/" in q + "/" and q.rpartition(".")[2][:1].isupper() and q[0].islower() and "(" not in q:
            out += text[:i] + name(style, q, used)
            text = text[j + 1:]
        else:
            out += text[:i + 1]
            text = text[i + 1:]
    return out + text

def source(style, shapes, tag):
    """Text of a file, and the lines (first, last) of each shape."""
    used, funcs = set(), []
    for k, (sink, arg, form) in enumerate(shapes):
        at = ARGS[arg].replace("\0", "gv%s" % tag)
        if "/" in sink or "." in sink and sink.split(".")[0] not in LOCAL:
            fun = name(style, sink, used)
        else:
            fun = sink
        call = fun + "(" + at.replace("@", fun + "(" + fun + "())") + ")"
        call = expand(call, style, used)
        if form == "package":
            body = "var x%s_%d = %s" % (tag, k, call)
        else:
            f = re.sub(r"\bC\b", lambda _: call, expand(FORMS.get(form, "C"), style, used))
            pre = "\tloc := s + \"\"\n\t_ = loc\n"
            if style == "shadow" and "." in fun and fun.split(".")[0] not in LOCAL:
                pre += "\tvar %s thing\n\t_ = %s\n" % (fun.split(".")[0], fun.split(".")[0])
            recv = "(t thing) " if form == "method" else ""
            body = "func %sf%s_%d(%s) {\n%s\t%s\n}" % (recv, tag, k, PARAMS, pre, f)
        funcs.append(body)
    head = "package p\n\nimport (\n\tcanary \"crypto/md5\"\n"
    for pkg in sorted(used):
        if pkg not in LOCAL:
            head += "\t%s\"%s\"\n" % ({"alias": "zz%s " % pkg.replace("/", "").replace(".", ""), "dot": ". "}.get(style, ""), pkg)
    for pkg in ("context", "io"):
        if pkg not in used or style in ("alias", "dot"):
            head += "\t\"%s\"\n" % pkg
    head += ")\n\nvar gv%s = \"x\"\n\nvar _ context.Context\nvar _ io.Reader\n" % tag
    text, spans = head, []
    for f in funcs:
        a = text.count("\n") + 2
        text += "\n" + f + "\n"
        spans.append((a, text.count("\n")))
    text += CANARY
    return text, spans
