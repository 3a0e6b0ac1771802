"""C19: TLS settings and RSA keys (spec: Tls.tla, TlsVal.tla)."""
import json, os, random, re
import vk

SUITES = {"TLS_RSA_WITH_RC4_128_SHA": 0x0005, "TLS_RSA_WITH_3DES_EDE_CBC_SHA": 0x000a, "TLS_RSA_WITH_AES_128_CBC_SHA": 0x002f, "TLS_RSA_WITH_AES_256_CBC_SHA": 0x0035,
          "TLS_RSA_WITH_AES_128_CBC_SHA256": 0x003c, "TLS_RSA_WITH_AES_128_GCM_SHA256": 0x009c, "TLS_RSA_WITH_AES_256_GCM_SHA384": 0x009d,
          "TLS_ECDHE_ECDSA_WITH_RC4_128_SHA": 0xc007, "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA": 0xc009, "TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA": 0xc00a,
          "TLS_ECDHE_RSA_WITH_RC4_128_SHA": 0xc011, "TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA": 0xc012, "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA": 0xc013,
          "TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA": 0xc014, "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256": 0xc023, "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256": 0xc027,
          "TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256": 0xc02f, "TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256": 0xc02b, "TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384": 0xc030,
          "TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384": 0xc02c, "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256": 0xcca8, "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256": 0xcca9,
          "TLS_AES_128_GCM_SHA256": 0x1301, "TLS_AES_256_GCM_SHA384": 0x1302, "TLS_CHACHA20_POLY1305_SHA256": 0x1303,
          "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305": 0xcca8, "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305": 0xcca9}
GOOD = [s for s in SUITES if SUITES[s] >= 0x1301 and SUITES[s] <= 0x1303 or "GCM" in s and "ECDHE" in s or "CHACHA" in s]
BAD = [s for s in SUITES if s not in GOOD]
VERS = {768: "VersionSSL30", 769: "VersionTLS10", 770: "VersionTLS11", 771: "VersionTLS12", 772: "VersionTLS13"}
FIELD = {"verify": "InsecureSkipVerify", "prefer": "PreferServerCipherSuites", "min": "MinVersion", "max": "MaxVersion", "suites": "CipherSuites", "name": "ServerName", "auth": "ClientAuth", "rand": "Rand"}

FAKE = """package FAKE

type Config struct {
	InsecureSkipVerify, PreferServerCipherSuites bool
	MinVersion, MaxVersion                       uint16
	CipherSuites                                 []uint16
	ServerName                                   string
	ClientAuth                                   int
	Rand                                         any
}

const VersionTLS12 = 769
const VersionTLS13 = 772

func GenerateKey(r any, n int) (any, error) { return nil, nil }
"""
HELP = """package p

import (
	"crypto/tls"
	"io"
)

const zgOff = false
const zgOn = !zgOff
const (
	zgMin13        = tls.VersionTLS13
	zgMin12 uint16 = tls.VersionTLS11 + 1
	zgMin10        = 0x300 | 1
)

var zgV13 uint16 = tls.VersionTLS13
var zgV10, zgV12 uint16 = tls.VersionTLS10, tls.VersionTLS12
var zgNone uint16
var zflag bool

func zbool() bool { return zflag }
func zver() uint16 { return 772 }
func zbits() int { return 1024 }
func zuse(a ...any) bool { return false }
func zpair() (io.Reader, int) { return nil, 1024 }
func zsuites() []uint16 { return nil }

type zhold struct {
	c *tls.Config
	d tls.Config
	l []tls.Config
	m map[string]*tls.Config
}
"""

class File:
    def __init__(self, r, n):
        self.r, self.n, self.k = r, n, 0
        self.q = r.choice(["tls", "tls", "tls", "xtls", "rsa", "."])
        self.rq = r.choice(["rsa", "rsa", "tls", "xrsa"])
        if self.rq == self.q:
            self.rq = "krsa"
        self.lines = ["package p", 'import %s"crypto/tls"' % ("" if self.q == "tls" else self.q + " "), 'import %s"crypto/rsa"' % ("" if self.rq == "rsa" else self.rq + " "),
                      'import "c19/fake"', 'import "crypto/rand"', "var _ fake.Config", "var _, _ = zuse(%sConfig.Clone), zuse(%s.GenerateKey)" % ("(*" + ("" if self.q == "." else self.q + "."), self.rq)]
        self.lines[-1] = "var _, _ = zuse((*%s).Clone), zuse(%s.GenerateKey)" % (self.Q("Config"), self.rq)
        self.lines.append("var _ = rand.Reader")
        self.sites = []
        self.pre = []

    def Q(self, name):
        return name if self.q == "." else self.q + "." + name

    def fresh(self):
        self.k += 1
        return "z%d_%d" % (self.n, self.k)

    def flag(self):
        r = self.r
        v = r.choice(["true", "false", "false", "var", "expr"])
        if v == "true":
            t = r.choice(["true", "true", "zgOn", "!false", "(true)", "zgOn || false", "1 < 2"])
        elif v == "false":
            t = r.choice(["false", "false", "zgOff", "!true", "(false)", "zgOn && zgOff"])
            if r.random() < .15:
                x = self.fresh(); self.pre.append("const %s = false" % x); t = x
        elif v == "var":
            t = "zflag"
            if r.random() < .5:
                x = self.fresh(); self.pre.append("%s := zbool()" % x); t = x
        else:
            t = r.choice(["zbool()", "!zflag", "zflag || zbool()", "struct{ b bool }{true}.b"])
        return v, t

    def version(self):
        r = self.r
        v = r.choice([0, 768, 769, 770, 771, 771, 771, 772, 772, 772, 773, 1, -1])
        ways = ["dec", "hex", "named", "const", "tconst", "var", "define", "expr", "conv", "multi", "global", "zero", "paren"]
        w = r.choice(ways)
        if v == -1:
            t = r.choice(["zver()", "zgNone", "arg", "hold"])
            if t == "arg":
                x = self.fresh(); self.pre.append("%s := zver()" % x); t = x
            elif t == "hold":
                x = self.fresh(); self.pre.append("var %s uint16" % x); t = x
            return v, t
        lit = r.choice([str(v), hex(v), "0%o" % v, str(v)])
        named = self.Q(VERS[v]) if v in VERS else lit
        base = r.choice([lit, named])
        if w in ("dec", "hex"):
            return v, lit
        if w == "named":
            return v, named
        if w == "paren":
            return v, "(%s)" % base
        if w == "expr":
            return v, r.choice(["%s + 0", "%s | 0", "%s + 1 - 1", "0 + %s"]) % base
        if w == "conv":
            return v, "uint16(%s)" % base
        if w == "global" and v in (772, 771, 769):
            return v, {772: r.choice(["zgMin13", "zgV13"]), 771: r.choice(["zgMin12", "zgV12"]), 769: r.choice(["zgMin10", "zgV10"])}[v]
        x = self.fresh()
        if w in ("const", "global", "zero"):
            self.pre.append("const %s = %s" % (x, base))
        elif w == "tconst":
            self.pre.append("const %s uint16 = %s" % (x, base))
        elif w == "define":
            self.pre.append(r.choice(["%s := uint16(%s)", "zq%s, %s := 3, uint16(%s)\nzuse(zq%s)"]) % ((x, base)) if False else "%s := uint16(%s)" % (x, base))
        elif w == "multi":
            y = self.fresh()
            o = r.choice(["768", "772", "0"])
            self.pre.append("var %s, %s uint16 = %s, %s\nzuse(%s)" % ((y, x, o, base, y) if r.random() < .5 else (x, y, base, o, y)))
        else:
            self.pre.append("var %s uint16 = %s" % (x, base))
        return v, x

    def suites(self):
        r = self.r
        if r.random() < .12:
            return ["?"], r.choice(["nil", "zsuites()"])
        names, ts = [], []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            s = r.choice(GOOD) if r.random() < .75 else r.choice(BAD)
            names.append(s)
            w = r.random()
            t = self.Q(s)
            if w < .15:
                t = r.choice(["0x%04x", "%d"]) % SUITES[s]
            elif w < .25:
                x = self.fresh(); self.pre.append("const %s = %s" % (x, t)); t = x
            elif w < .3:
                t = "(%s)" % t
            elif w < .35:
                t = "uint16(%s)" % t
            ts.append(t)
        if r.random() < .05:
            names.append("UNKNOWN"); ts.append(r.choice(["0x1234", "0xfefe"]))
        if names and r.random() < .1:
            ts[0] = "0: " + ts[0]
        return names, "[]uint16{%s}" % ", ".join(ts)

    def setting(self, f):
        if f in ("verify", "prefer"):
            v, t = self.flag()
            if f == "prefer" and v == "var":
                v, t = "true", "true"       # a variable is taken for a wish to set it
        elif f in ("min", "max"):
            v, t = self.version()
        elif f == "suites":
            v, t = self.suites()
        else:
            v, t = 0, {"name": '"x"', "auth": "4", "rand": "nil"}[f]
        return {"f": f, "v": v}, t

    def literal(self, mine):
        """(settings, key-value texts)"""
        r = self.r
        fs = [f for f in FIELD if r.random() < {"min": .75, "max": .35, "verify": .3, "prefer": .2, "suites": .3}.get(f, .2)]
        r.shuffle(fs)
        out, ts = [], []
        for f in fs:
            s, t = self.setting(f)
            if f in ("min", "max") and not mine:
                t = {"min": "1", "max": "2"}[f]
            out.append(s); ts.append("%s: %s" % (FIELD[f], t))
        return out, ts

    def conf(self):
        r = self.r
        self.pre = []
        lit = r.random() < .65
        mine = r.random() < .9
        T = self.Q("Config") if mine else r.choice(["fake.Config", "zl%d" % self.n])
        if lit:
            sets, ts = self.literal(mine)
            body = ", ".join(ts)
            if r.random() < .3 and ts:
                body = "\n" + "\n".join(x + "," for x in ts) + "\n"
            if mine and r.random() < .1:
                T = "za%d" % self.n
            form = r.choice(["&T{B}", "T{B}", "&T{B}", "[]T{{B}}", "[]*T{{B}}", 'map[string]*T{"a": {B}}', 'map[string]T{"a": {B}}', "[1]T{{B}}", "&(T{B})", "struct{ c *T }{&T{B}}", "[]any{T{B}}", "func() *T { return &T{B} }()", "[]*T{0: {B}}", "(&T{B}).MinVersion"])
            e = form.replace("T", "\0").replace("B", "\1").replace("\0", T).replace("\1", body)
            stmt = r.choice(["_ = zuse(E)", "zuse(E)", "zc := E\nzuse(zc)", "var zc = E\nzuse(zc)", "defer zuse(E)", "if zuse(E) { zuse() }", "func() { zuse(E) }()", "for zuse(E) { }", "switch { case zuse(E): }"]).replace("E", e)
        else:
            f = r.choice(["verify", "prefer", "min", "min", "max", "suites", "name", "auth"])
            s, t = self.setting(f)
            if not mine and f in ("min", "max"):
                t = "1"
            sets = [s]
            base = r.choice(["var zc T\nD", "zc := new(T)\nD", "zc := zmake()\nD", "D5", "D6"] if mine else ["var zc T\nD", "zc := new(T)\nD"])
            x = "zc"
            base = base.replace("T", T)
            if base == "D5":
                base, x = "var zh zhold\nD", r.choice(["zh.c", "zh.d", "zh.l[0]", 'zh.m["a"]', "(&zh).d", "zh.c.Clone()", "(zh.d)"])
            elif base == "D6":
                base, x = "zc := func() *%s { return nil }\nD" % T, "zc()"
            elif "zmake()" in base:
                base = base.replace("zmake()", "(*%s)(nil)" % T)
            asg = r.choice(["X.F = V", "X.F = V", "X.F = V", "zn, X.F = 1, V", "X.F, zn = V, 1"])
            if "zn" in asg:
                base = "zn := 0\nzuse(zn)\n" + base
            stmt = base.replace("D", asg.replace("X", "\1").replace(".F", "." + FIELD[f]).replace(" V", " \2").replace("\1", x).replace("\2", t))
        self.emit(stmt, {"kind": "conf", "lit": lit, "set": sets, "mine": mine})

    def rsa(self):
        r = self.r
        self.pre = []
        mine = r.random() < .9
        bits = r.choice([0, 1, 512, 1023, 1024, 2046, 2047, 2048, 2049, 3072, 4096, r.randint(0, 4096)])
        w = r.choice(["lit", "lit", "lit", "hex", "const", "expr", "gconst", "conv", "paren", "var", "call", "param", "pair"])
        constant = True
        lit = str(bits)
        if w == "lit":
            t = lit
        elif w == "hex":
            t = r.choice([hex(bits), "0%o" % bits, bin(bits), "0x0" + hex(bits)[2:].upper()])
        elif w in ("const", "gconst"):
            x = self.fresh()
            self.pre.append("const %s = %s" % (x, lit)); t = x
        elif w == "expr":
            t = r.choice(["%d * 8" % (bits // 8) if bits % 8 == 0 else "%d + %d" % (bits // 2, bits - bits // 2), "%d + 0" % bits, "1<<%d + %d" % (10, bits - 1024) if bits >= 1024 else "%d - 1" % (bits + 1)])
        elif w == "conv":
            t = "int(%s)" % lit
        elif w == "paren":
            t = "(%s)" % lit
        else:
            constant = False
            if w == "var":
                x = self.fresh(); self.pre.append("%s := %s" % (x, lit)); t = x
            elif w == "param":
                t = "func(n int) int { return n }(%s)" % lit
            else:
                t = "zbits()"
        fn = "%s.GenerateKey" % (self.rq if mine else "fake")
        call = "%s(rand.Reader, %s)" % (fn, t)
        if w == "pair" and mine:
            call = "%s(zpair())" % fn
        stmt = r.choice(["_, _ = E", "za, zb := E\nzuse(za, zb)", "zuse(E)", "if zk, err := E; err != nil { zuse(zk) }", "go func() { zuse(E) }()"]).replace("E", call)
        self.emit(stmt, {"kind": "rsa", "constant": constant, "bits": bits, "mine": mine})

    def emit(self, stmt, fact):
        self.pre = [p + "".join("\nzuse(%s)" % v for v in re.findall(r"z\d+_\d+", p.split("=")[0]) if not p.startswith("const")) for p in self.pre]
        body = ["\t{"] + ["\t\t" + y for p in self.pre for y in p.split("\n")]
        a = len(self.lines) + 1 + len(body) + 1
        code = stmt.split("\n")
        body += ["\t\t" + y for y in code] + ["\t}"]
        name = self.fresh()
        self.lines += ["func %s() {" % name] + body + ["}"]
        self.sites.append(dict(fact, a=a, b=a + len(code) - 1, src="\n".join(x.strip() for x in body[1:-1])))

    def top(self):
        """a configuration in a declaration of the package"""
        self.pre = []
        sets, ts = self.literal(True)
        if self.pre:
            for p in self.pre:
                for y in p.split("\n"):
                    if y.startswith("zuse("):
                        y = "var _ = " + y
                    if ":=" in y:
                        y = "var " + y.replace(":=", "=")
                    self.lines.append(y)
        x = self.fresh()
        self.lines.append("var %s = %s%s{%s}" % (x, self.r.choice(["", "&"]), self.Q("Config"), ", ".join(ts)))
        self.sites.append({"kind": "conf", "lit": True, "set": sets, "mine": True, "a": len(self.lines), "b": len(self.lines), "src": self.lines[-1]})

def build(r, n, per):
    f = File(r, n)
    f.lines += ["type zl%d = struct {" % n, "\tInsecureSkipVerify, PreferServerCipherSuites bool", "\tMinVersion, MaxVersion uint16", "\tCipherSuites []uint16", "\tServerName string", "\tClientAuth int", "\tRand any", "}", "type za%d = %s" % (n, f.Q("Config"))]
    for _ in range(per):
        w = r.random()
        if w < .72:
            f.conf()
        elif w < .82:
            f.top()
        else:
            f.rsa()
    return "\n".join(f.lines) + "\n", f.sites

WHAT = [("InsecureSkipVerify", "verify"), ("PreferServerCipherSuites", "prefer"), ("MinVersion", "min"), ("MaxVersion", "max"), ("Cipher Suite", "suite")]

def run(ctx):
    if ctx.thorough:
        ctx.model("Tls", ctx.write("TlsDeep.cfg", open(os.path.join(vk.SPEC, "Tls.cfg")).read().replace("MaxSet = 2", "MaxSet = 3")), timeout=1800)
    else:
        ctx.model("Tls")
    r = ctx.rng
    files, sites = {"fake/fake.go": FAKE.replace("FAKE", "fake"), "help.go": HELP}, {}
    for n in range(ctx.pick(150, 1500)):
        name = "f%d.go" % n
        files[name], sites[name] = build(r, n, r.randint(4, 24))
    root = ctx.module("c19", files)
    obs = []
    for k in range(ctx.pick(2, 5)):
        rep = ctx.must_scan(root, (["-include=G402,G403"] if k % 2 else []) + ctx.noise(r), timeout=800)
        if rep is None:
            continue
        if rep["Golang errors"]:
            raise vk.CheckError("generated sample does not compile: %s" % json.dumps(rep["Golang errors"])[:1500])
        got = {}
        for x in rep["Issues"]:
            if x["rule_id"] in ("G402", "G403"):
                got.setdefault(os.path.relpath(x["file"], root), []).append((int(x["line"].split("-")[0]), x["rule_id"], x["details"]))
        for name, ss in sites.items():
            for s in ss:
                mine = [g for g in got.get(name, []) if s["a"] <= g[0] <= s["b"]]
                for g in mine:
                    got[name].remove(g)
                if s["kind"] == "rsa":
                    obs.append(dict(s, got=len([g for g in mine if g[1] == "G403"]), file=name))
                    mine = [g for g in mine if g[1] != "G403"]
                    if mine:
                        ctx.fail("stray", "%s reported at a key generation" % mine, s)
                else:
                    obs.append(dict(s, got=[next((c for w, c in WHAT if w in g[2]), "other") for g in mine], file=name))
        for name, gs in got.items():
            for g in gs:
                ctx.fail("stray", "%s reported at %s:%d, where no configuration is" % (g[2], name, g[0]), {})
    keep = ("kind", "lit", "set", "mine", "got", "constant", "bits")
    bad = ctx.validate("TlsVal", [{k: o[k] for k in keep if k in o} for o in obs], timeout=1800)
    for i, why in bad.items():
        o = obs[i]
        ctx.fail(o["kind"], "%s: %s\n%s" % ("; ".join(sorted(why)), o["file"], o["src"]), {"obs": o, "why": why})
    if obs:
        ctx.sample({k: obs[0][k] for k in ("kind", "src", "got")})
    return ctx.finish(nodes=len(obs), reported=sum(1 for o in obs if o["got"]))
