"""C17: permission bits (spec: Perms.tla, PermsVal.tla)."""
import json, os, random
import vk

CALLS = [("os", "Mkdir", '%s.Mkdir("d", MODE)'), ("os", "MkdirAll", '%s.MkdirAll("d", MODE)'), ("os", "OpenFile", '%s.OpenFile("f", 0, MODE)'),
         ("os", "Chmod", '%s.Chmod("f", MODE)'), ("os", "WriteFile", '%s.WriteFile("f", nil, MODE)'), ("io/ioutil", "WriteFile", '%s.WriteFile("f", nil, MODE)'), ("os", "Create", '%s.Create("f")')]
FLAGS = {"ModeDir": 31, "ModeAppend": 30, "ModeExclusive": 29, "ModeTemporary": 28, "ModeSymlink": 27, "ModeDevice": 26, "ModeNamedPipe": 25, "ModeSocket": 24,
         "ModeSetuid": 23, "ModeSetgid": 22, "ModeCharDevice": 21, "ModeSticky": 20, "ModeIrregular": 19}
# calls which take a mode but are none of the covered ones
OTHER = ['lk.Mkdir("d", MODE)', 'lk.WriteFile("f", nil, MODE)', 'zl.Chmod("f", MODE)', 'zl.WriteFile("f", nil, MODE)', 'Mkdir("d", MODE)', 'WriteFile("f", nil, MODE)', 'zfile().Chmod(MODE)', 'zmode(MODE)', 'zl.Create("f")', 'lk.Create("f")',
         'zl.os.WriteFile("f", nil, MODE)', 'func(os local, m uint32) error { return os.WriteFile("f", nil, 0777) }(zl, uint32(MODE))', 'func(os local, m uint32) error { return os.Mkdir("f", 0777) }(zl, uint32(MODE))']

LK = """package lk

func Mkdir(n string, m uint32) error { return nil }
func Chmod(n string, m uint32) error { return nil }
func WriteFile(n string, b []byte, m uint32) error { return nil }
func Create(n string) error { return nil }
"""
HELP = """package p

import "os"

type inner struct{}
type local struct{ os inner }

var zl local

func (local) Mkdir(n string, m os.FileMode) error             { return nil }
func (local) Chmod(n string, m os.FileMode) error             { return nil }
func (local) WriteFile(n string, b []byte, m os.FileMode) error { return nil }
func (local) Create(n string) error                           { return nil }
func (inner) WriteFile(n string, b []byte, m os.FileMode) error { return nil }
func Mkdir(n string, m os.FileMode) error                     { return nil }
func WriteFile(n string, b []byte, m os.FileMode) error       { return nil }
func zfile() *os.File                                          { return nil }
func zmode(m os.FileMode) error                                { return nil }
func zuse(a ...any) int                                        { return 0 }
"""

def literal(r, v, fl=False):
    """(spelling, part) of a non-negative number"""
    base = r.choice([8, 8, 8, 8, 16, 2, 10])
    ds = []
    n = v
    while n:
        ds.insert(0, n % base)
        n //= base
    ds = ds or [0]
    chars = "".join("0123456789abcdef"[d] for d in ds)
    if base == 16:
        t = r.choice(["0x", "0X"]) + r.choice([chars, chars.upper()])
    elif base == 2:
        t = r.choice(["0b", "0B"]) + chars
    elif base == 8:
        t = r.choice(["0", "0o", "0O", "00", "0o0"]) + chars
        if ds == [0]:
            t = r.choice(["0", "00", "0o0"])
    else:
        t = chars
    if r.random() < .15 and len(chars) > 1 and not (base == 10 and ds == [0]):
        i = r.randint(1, len(chars) - 1)
        t = t[:len(t) - i] + "_" + t[len(t) - i:]
    if base == 10 and fl and r.random() < .3:
        t += ".0"
    return t, {"base": base, "digits": ds}

def expr(r, f, v, osq):
    """(expression, declarations, facts) of a mode"""
    parts, minus, flags = [], [], []
    d = []
    kind = r.choice(["lit"] * 6 + ["paren", "conv", "const", "tconst", "pconst", "or", "clear", "flag", "perm", "iota", "fsconv", "u32", "xor0", "var", "pvar", "call", "param", "field", "alias"])
    t, p = literal(r, v, kind == "lit")
    parts.append(p)
    constant = True
    if kind == "lit":
        pass
    elif kind == "paren":
        t = "(%s)" % t
    elif kind == "conv":
        t = "%s.FileMode(%s)" % (osq, t)
    elif kind == "fsconv":
        t = "fs.FileMode(%s)" % t
        f["fs"] = True
    elif kind == "u32":
        t = "%s.FileMode(uint32(%s))" % (osq, t)
    elif kind == "const":
        d.append("const zc = %s" % t); t = "zc"
    elif kind == "tconst":
        d.append("const zc %s.FileMode = %s" % (osq, t)); t = "zc"
    elif kind == "pconst":
        f["k"] += 1
        f["top"].append("const zp%d_%d = %s" % (f["n"], f["k"], t)); t = "zp%d_%d" % (f["n"], f["k"])
    elif kind == "iota":
        d.append("const (\n\t\t_ = iota\n\t\tzc = %s + iota - 1\n\t)" % t); t = "zc"
    elif kind == "or":
        w = r.choice([0, 0o22, 0o7, 0o700, 0o40, 1, 0o777])
        t2, p2 = literal(r, w)
        parts.append(p2)
        t = "%s | %s" % (t, t2)
    elif kind == "clear":
        w = r.choice([0o22, 0o7, 0o77, 0o111])
        t2, p2 = literal(r, w)
        minus.append(p2)
        t = "%s &^ %s" % (t, t2)
    elif kind == "flag":
        k = r.choice(sorted(FLAGS))
        flags.append(FLAGS[k])
        t = r.choice(["%s.%s | %s" % (osq, k, t), "%s | %s.%s" % (t, osq, k)])
    elif kind == "perm":
        parts[:] = [{"base": 8, "digits": [7, 7, 7]}]
        t = r.choice(["%s.ModePerm", "(%s.ModePerm)", "%s.FileMode(%s.ModePerm)" .replace("%s.FileMode", osq + ".FileMode")]) % osq
        if r.random() < .3:
            f["fs"] = True
            t = "fs.ModePerm"
        elif r.random() < .3:
            minus.append({"base": 8, "digits": [r.randint(0, 7), r.randint(0, 7)]})
            t = "%s &^ 0%d%d" % (t, minus[0]["digits"][0], minus[0]["digits"][1])
    elif kind == "xor0":
        t = "%s ^ 0" % t
    elif kind == "alias":
        d.append("type zt = %s.FileMode" % osq); t = "zt(%s)" % t
    else:
        constant = False
        if kind == "var":
            d.append("zv := %s.FileMode(%s)" % (osq, t)); t = "zv"
        elif kind == "pvar":
            f["k"] += 1
            f["top"].append("var zp%d_%d %s.FileMode = %s" % (f["n"], f["k"], osq, t)); t = "zp%d_%d" % (f["n"], f["k"])
        elif kind == "call":
            d.append("zf := func() %s.FileMode { return %s }" % (osq, t)); t = "zf()"
        elif kind == "param":
            f["k"] += 1
            f["top"].append("var zp%d_%d = func(zm %s.FileMode) %s.FileMode { return zm }" % (f["n"], f["k"], osq, osq)); t = "zp%d_%d(%s)" % (f["n"], f["k"], t)
        else:
            d.append("zs := struct{ m %s.FileMode }{%s}" % (osq, t)); t = "zs.m"
    return t, d, {"constant": constant, "parts": parts, "minus": minus, "flags": flags}

def build(r, n, per, nextmode):
    osq = r.choice(["os", "os", "os", "xos", "rand"])
    ioq = r.choice(["ioutil", "ioutil", "os2"])
    f = {"n": n, "k": 0, "top": [], "fs": False}
    body, sites = [], []
    used = set()
    for _ in range(per):
        other = r.random() < .12
        v = nextmode()
        e, d, facts = expr(r, f, v, osq)
        if other:
            c = r.choice([o for o in OTHER])
            pkg, fn = "", ""
            if c.startswith("lk.") and not facts["constant"]:
                c = c.replace("lk.", "zl.")
            if c.startswith("lk."):
                used.add("lk")
                e = "uint32(%s)" % e
        else:
            pkg, fn, c = r.choice(CALLS)
            q = osq if pkg == "os" else ioq
            if pkg != "os":
                used.add(pkg)
            c = c % q
        if "MODE" not in c:
            d = []
        c = c.replace("MODE", e)
        body.append("\t{")
        for x in d:
            body += ["\t\t" + y for y in x.split("\n")]
        body.append("\t\t" + r.choice(["_ = zuse(%s)", "_ = zuse(%s)", "if zuse(%s) > 0 { }", "defer zuse(%s)", "func() { zuse(%s) }()"]) % c)
        sites.append(dict(facts, pkg=pkg, fn=fn, at=len(body), src=c))
        body.append("\t}")
    head = ["package p", 'import %s"os"' % ("" if osq == "os" else osq + " ")]
    if f["fs"]:
        head.append('import "io/fs"')
    if "io/ioutil" in used:
        head.append('import %s"io/ioutil"' % ("" if ioq == "ioutil" else ioq + " "))
    if "lk" in used:
        head.append('import "c17/lk"')
    head.append("var _ %s.FileMode" % osq)
    if f["fs"]:
        head.append("var _ fs.FileMode")
    head += f["top"]
    head.append("func F%d() {" % n)
    for s in sites:
        s["line"] = len(head) + s.pop("at")
    return "\n".join(head + body + ["}", ""]), sites

def limits(r):
    """(configuration, facts)"""
    conf, facts = {}, []
    for rule in ("G301", "G302", "G306", "G307"):
        if r.random() < .7:
            ds = [r.randint(0, 7) for _ in range(3)] if r.random() < .6 else r.choice([[7, 7, 7], [6, 4, 4], [0, 0, 0], [7, 5, 5], [6, 0, 0], [6, 6, 6], [4, 0, 0], [7, 5, 0], [1, 7, 7, 7]])
            conf[rule] = r.choice(["0", "0o"]) + "".join(map(str, ds))
            facts.append({"rule": rule, "digits": ds})
    return conf, facts

def run(ctx):
    ctx.model("Perms", env=None)
    if ctx.thorough:
        cfg = open(os.path.join(vk.SPEC, "Perms.cfg")).read().replace("Width = 6", "Width = 9")
        ctx.model("Perms", ctx.write("PermsDeep.cfg", cfg))
    rng = ctx.rng
    modes = list(range(512))
    rng.shuffle(modes)
    extra = [0, 0o1000, 0o4755, 0o2750, 0o1777, 0o7777, 0o10600, 0o600, 0o644, 0o750, 0o640, 0o601, 0o610, 0o602, 0o604, 0o620, 0o666, 0o777, 0o751, 0o760, 0o770, 0o500, 0o77, 0o66, 0o1, 0o4, 0o40, 0o20]
    state = {"i": 0}
    def nextmode():
        state["i"] += 1
        if rng.random() < .35:
            return rng.choice(extra)
        return modes[state["i"] % 512]
    files, sites = {"lk/lk.go": LK, "help.go": HELP}, {}
    nfiles = ctx.pick(60, 400)
    for n in range(nfiles):
        name = "f%d.go" % n
        files[name], sites[name] = build(rng, n, 14, nextmode)
    root = ctx.module("c17", files)
    plans = [({}, [])] + [limits(rng) for _ in range(ctx.pick(7, 60))]
    def one(job):
        k, (conf, facts) = job
        args = ["-include=G301,G302,G306,G307"] if k % 2 else []
        if conf or k % 3 == 0:
            args += ["-conf", ctx.write("conf%d.json" % k, json.dumps(conf))]
        rep = ctx.must_scan(root, args + ctx.noise(random.Random("%d/%d" % (ctx.seed, k))))
        if rep is None:
            return []
        if rep["Golang errors"]:
            raise vk.CheckError("generated sample does not compile: %s" % json.dumps(rep["Golang errors"])[:1500])
        got = {}
        for x in rep["Issues"]:
            if x["rule_id"] in ("G301", "G302", "G306", "G307"):
                got.setdefault((os.path.relpath(x["file"], root), int(x["line"].split("-")[0])), []).append(x["rule_id"])
        out = []
        for name, ss in sites.items():
            for s in ss:
                out.append(dict(s, conf=facts, got=got.pop((name, s["line"]), []), text=conf))
        for (a, b), rules in got.items():
            ctx.fail("stray", "%s reported at %s:%d, where no covered call is" % (rules, a, b), {})
        return out
    obs = []
    for o in ctx.pool(one, list(enumerate(plans))):
        obs += o
    bad = ctx.validate("PermsVal", [{k: v for k, v in o.items() if k not in ("src", "line", "text")} for o in obs])
    for i, why in bad.items():
        o = obs[i]
        ctx.fail(o["fn"] or "other", "%s: %s with limits %s" % ("; ".join(sorted(why)), o["src"], o["text"]), {"obs": o, "why": why})
    # the same with the modes in every file of the module given as limits which are refused values
    if obs:
        ctx.sample({k: obs[0][k] for k in ("pkg", "fn", "src", "parts", "conf", "got")})
    return ctx.finish(calls=len(obs), configurations=len(plans))
