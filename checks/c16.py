"""C16: detection independent of import names (spec: Names.tla, NamesVal.tla)."""
import json, os, random, re
import names, vk

WATCH = {"G103", "G106", "G108", "G112", "G114", "G401", "G404", "G405", "G406", "G501", "G502", "G503", "G504", "G505", "G506", "G507"}
NATS = sorted({v[0] for v in names.R.values()})

class File:
    """One generated file; sites carry the facts the specification needs."""
    def __init__(self, r, pkg, pkgnames, imports, n):
        self.r, self.pkg, self.pkgnames, self.imports, self.n = r, pkg, pkgnames, imports, n
        self.lines, self.sites, self.k = [], [], 0
    def out(self, s):
        self.lines += s.split("\n")
    def site(self, **kw):
        kw["line"] = len(self.lines)
        self.sites.append(kw)

def name_of(i):
    return i["nat"] if i["name"] == "" else i["name"]

def refers(f, locals_, q, fn):
    """only used to know which arguments compile"""
    n = q or fn
    if any(n in s for s in locals_) or n in f.pkgnames:
        return ""
    for i in f.imports:
        if q and i["name"] not in ("_", ".") and name_of(i) == q:
            return i["path"]
        if not q and i["name"] == "." and fn in i["fns"]:
            return i["path"]
    return None

def call(f, locals_, q, fn, extra=""):
    r = f.r
    p = refers(f, locals_, q, fn)
    args = names.R[p][2][fn] if p in names.R else names.OTHER[p][2][fn] if p in names.OTHER else r.choice(["", "1", '"a", nil', "nil"])
    if p == "unsafe" or extra == "conv":
        pass
    if extra and extra != "conv":
        args = extra + (", " + args if args else "")
    head = "%s.%s" % (q, fn) if q else fn
    u = r.random()
    if p == "math/rand/v2" and fn == "N" and u < .5:
        head = r.choice(["%s[int]", "(%s[int])", "(%s)[int]"]) % head
    elif u < .15:
        head = "(%s)" % head
    elif u < .2:
        head = "((%s))" % head
    e = "%s(%s)" % (head, args)
    if p in ("crypto/md5", "crypto/sha1", "golang.org/x/crypto/md4", "golang.org/x/crypto/ripemd160") and fn == "New" and r.random() < .3:
        e += ".Sum(nil)"
    if r.random() < .1:
        e = "(%s)" % e
    return e, p

def put(f, locals_, q, fn, extra="", base=None, top=False):
    """one place"""
    r = f.r
    e, p = call(f, locals_, q, fn, extra)
    f.k += 1
    stmt = p != "unsafe" and not e.startswith("(")
    u = r.random()
    if top:
        t = r.choice(["var _ = U", "var _ = func() int { return U }", "var _, _ = 1, U", "var _ = []func() int{func() int { return U }}", "var _ = map[string]int{\"a\": U}"])
    elif stmt and u < .12 and not e.endswith(".Sum(nil)"):
        t = r.choice(["E", "go E", "defer E", "func() { E }()", "if true { E }"])
    else:
        t = r.choice(names.POS)
    e2 = "zuse(%s)" % e
    f.out(("" if top else "\t") + re.sub(r"\b[UE]\b", lambda m: e2 if m.group() == "U" else e, t))
    b = base or (q, fn)
    f.site(kind="call", q=b[0], fn=b[1], locals=[list(s) for s in locals_], safe=False)

def uses(f):
    """(qualifier, function) pairs which refer to something in this file at file scope"""
    out = []
    for i in f.imports:
        if i["name"] == "_":
            continue
        q = "" if i["name"] == "." else name_of(i)
        out += [(q, fn) for fn in i["fns"]]
    if f.pkg in NATS:
        out += [("", fn) for fn in names.FNS if not any(i["name"] == "." for i in f.imports)] [:6]
    if f.pkg == "pv":
        out += [(s, fn) for s in f.pkgnames if s in NATS for fn in ("New", "Int", "NewCipher", "Serve")]
    return out

def lit(f):
    """server literals"""
    r = f.r
    for i in f.imports:
        if i["nat"] not in ("http",) or i["name"] == "_" or "Serve" not in i["fns"]:
            continue
        q = "" if i["name"] == "." else name_of(i) + "."
        f.k += 1
        f.out("func zf%d_%d() {" % (f.n, f.k))
        for _ in range(3):
            safe = r.random() < .4
            body = r.choice(["ReadHeaderTimeout: 1", "ReadTimeout: 1", 'Addr: ":1", ReadTimeout: 1']) if safe else r.choice(["", 'Addr: ":1"'])
            t = r.choice(["_ = TS{B}", "_ = &TS{B}", "_ = []TS{{B}}", "_ = []*TS{{B}}", "_ = map[string]TS{\"a\": {B}}", "zuse(TS{B})", "{ var zv TS = TS{B}; _ = &zv }", "{ type zt = TS; _ = zt{B} }", "_ = struct{ s TS }{TS{B}}", "_ = (TS{B})", "_ = [1]TS{0: {B}}"])
            f.out("\t" + re.sub(r"TS|\bB\b", lambda m: body if m.group() == "B" else q + "Server", t))
            f.site(kind="lit", q=q.rstrip("."), fn="Server", locals=[], safe=safe)
        f.out("}")

def function(f):
    r = f.r
    us = uses(f)
    if not us:
        return
    q, fn = r.choice(us)
    f.k += 1
    nm = "zf%d_%d" % (f.n, f.k)
    # the name which gets a second meaning
    same = [u for u in us if u[0] == q]
    def any_fn():
        return r.choice(same)[1]
    if r.random() < .12:
        put(f, [], q, fn, top=True)
        return
    if not q:
        kind = r.choice(["none", "none", "localfunc", "paramfunc"]) if f.pkg not in NATS else "none"
    else:
        kind = r.choice(["none", "none", "none", "var", "ptr", "decl", "param", "result", "recv", "range", "const", "type", "tparam", "tparamval", "switch", "ifinit", "forinit", "litparam", "field", "mk", "label", "block", "chan", "outer", "closurevar"])
    if q in f.pkgnames and kind == "type":
        kind = "none"
    if q == "" and kind == "none" and f.pkg in NATS:
        pass
    L = [{q}] if q else [{fn}]
    wrap = r.random()
    head = "func %s() {" % nm
    if wrap < .2:
        f.out("type zt%s struct{}" % nm[1:])
        head = "func (zt%s) m() {" % nm[1:]
    elif wrap < .3:
        head = "func %s[ZT any](zp ZT) {" % nm
    elif wrap < .35:
        head = "func init() {"
    def mfn():
        return r.choice(names.FNS)
    if kind == "none":
        f.out(head)
        for _ in range(3):
            put(f, [set()], q, any_fn() if q or f.pkg not in NATS else fn)
        f.out("}")
    elif kind in ("var", "ptr", "decl", "const", "chan"):
        f.out(head)
        put(f, [set()], q, any_fn())
        f.out({"var": "\t%s := zloc{}", "ptr": "\t%s := &zloc{}", "decl": "\tvar %s zloc", "const": "\tconst %s zint = 1", "chan": "\tvar %s zif = zloc{}"}[kind] % q)
        put(f, L, q, mfn())
        put(f, [set()] + L, q, mfn())
        f.out("}")
    elif kind == "type":
        f.out(head)
        put(f, [set()], q, any_fn())
        f.out("\ttype %s struct{ zloc }" % q)
        put(f, L, q, mfn(), extra=q + "{}")
        f.out("}")
    elif kind == "param":
        f.out("func %s(%s zloc) {" % (nm, q)); put(f, L, q, mfn()); put(f, [set()] + L, q, mfn()); f.out("}")
    elif kind == "result":
        f.out("func %s() (%s zloc) {" % (nm, q)); put(f, L, q, mfn()); f.out("\treturn\n}")
    elif kind == "recv":
        f.out("type zt%s struct{ zloc }\nfunc (%s zt%s) m() {" % (nm, q, nm)); put(f, L, q, mfn()); f.out("}")
    elif kind == "range":
        f.out(head); f.out("\tfor _, %s := range []zloc{{}} {" % q); put(f, L, q, mfn()); f.out("\t}"); put(f, [set()], q, any_fn()); f.out("}")
    elif kind == "tparam":
        f.out("func %s[%s zif](zp %s) {" % (nm, q, q)); put(f, L, q, mfn(), extra="zp"); f.out("}")
    elif kind == "tparamval":
        f.out("func %s[%s zif](zp %s) {" % (nm, q, q)); put(f, [{q, "zp"}], "zp", mfn()); f.out("\tzh := struct{ f %s }{}" % q)
        m = mfn(); put(f, [{q, "zp", "zh"}], "zh.f", m, base=("zh", m)); f.out("}")
    elif kind == "switch":
        f.out(head); f.out("\tswitch %s := any(zmk()).(type) {\n\tcase zloc:" % q); put(f, L, q, mfn()); f.out("\t}"); put(f, [set()], q, any_fn()); f.out("}")
    elif kind == "ifinit":
        f.out(head); f.out("\tif %s := zmk(); true {" % q); put(f, L, q, mfn()); f.out("\t} else {"); put(f, L, q, mfn()); f.out("\t}"); put(f, [set()], q, any_fn()); f.out("}")
    elif kind == "forinit":
        f.out(head); f.out("\tfor %s := zmk(); ; {" % q); put(f, L, q, mfn()); f.out("\tbreak\n\t}"); put(f, [set()], q, any_fn()); f.out("}")
    elif kind == "litparam":
        f.out(head); f.out("\tfunc(%s zloc) {" % q); put(f, L, q, mfn()); f.out("\t}(zloc{})"); put(f, [set()], q, any_fn()); f.out("}")
    elif kind == "block":
        f.out(head); put(f, [set()], q, any_fn()); f.out("\t{\n\t%s := zmk()" % q); put(f, L, q, mfn()); f.out("\t}"); put(f, [set()], q, any_fn()); f.out("}")
    elif kind == "outer":
        f.out(head); f.out("\t{\n\tvar %s zloc; _ = %s\n\t}" % (q, q)); put(f, [set()], q, any_fn()); f.out("\tfunc() {"); put(f, [set()], q, any_fn()); f.out("\t}()\n}")
    elif kind == "closurevar":
        f.out(head); f.out("\tvar %s zloc" % q); f.out("\tfunc() {"); put(f, [set()] + L, q, mfn()); f.out("\t}()\n}")
    elif kind == "field":
        m = mfn()
        f.out(head); f.out("\tvar zh struct{ %s zloc }" % q); put(f, [{"zh"}], "zh." + q, m, base=("zh", m)); put(f, [{"zh"}], q, any_fn()); f.out("}")
    elif kind == "mk":
        m = mfn()
        f.out(head); put(f, [set()], "zmk()", m, base=("zmk", m)); f.out("}")
    elif kind == "label":
        f.out(head); f.out("%s:\n\tfor {" % q); put(f, [set()], q, any_fn()); f.out("\tbreak %s\n\t}\n}" % q)
    elif kind == "localfunc":
        f.out(head); put(f, [set()], q, fn); f.out("\t%s := func(a ...any) int { return 0 }" % fn); put(f, L, q, fn); f.out("}")
    elif kind == "paramfunc":
        f.out("func %s(%s func(a ...any) int) {" % (nm, fn)); put(f, L, q, fn); f.out("}")

def build(r, n, case, pkg, pkgnames, mod, decoys):
    real = r.choice(sorted(names.R)) if pkg not in NATS else r.choice([p for p in sorted(names.R) if names.R[p][0] == pkg])
    nat = names.R[real][0]
    imports = []
    other = r.choice(sorted(names.OTHER))
    if names.OTHER[other][0] == nat and r.random() < .3:
        other = "fmt"
    dk = r.randint(0, 5)
    b = r.choice([x for x in NATS + ["crypto", "main", "é", "_x", "zloc1", "exec", "tls"] if x not in pkgnames])
    for i in case["imports"]:
        if i["path"] == "x/r":
            x = {"path": real, "nat": nat, "fns": sorted(names.R[real][2]), "use": names.R[real][1]}
        elif i["path"] == "y/r":
            p, dn, rel, src = names.decoy(mod, dk, nat)
            decoys[rel + "/d.go"] = src
            x = {"path": p, "nat": dn, "fns": [y for y in names.R[real][2] if not (nat == "unsafe" and y == "Pointer")], "use": names.R[real][1]}
        else:
            x = {"path": other, "nat": names.OTHER[other][0], "fns": sorted(names.OTHER[other][2]), "use": names.OTHER[other][1]}
        x["name"] = i["name"]
        if i["name"] == "o":
            x["name"] = names.OTHER[other][0]
        elif i["name"] == "b":
            x["name"] = b
        if x["name"] == "" and r.random() < .15:
            x["name"] = x["nat"]
        imports.append(x)
    quals = [name_of(i) for i in imports if i["name"] not in ("_", ".")]
    if len(set(quals)) != len(quals) or any(q in pkgnames or q == "init" for q in quals):
        return None
    dots = {i["path"] for i in imports if i["name"] == "."}
    if len(dots) > 1 or (dots and pkgnames):
        return None
    if len({(i["path"], i["name"]) for i in imports}) != len(imports):
        return None
    f = File(r, pkg, pkgnames, imports, n)
    f.out("package %s" % pkg)
    style = r.choice(["single", "group", "mixed"])
    opened = False
    for k, i in enumerate(imports):
        quoted = ("`%s`" if r.random() < .25 else '"%s"') % i["path"]
        spec = (i["name"] + " " if i["name"] else "") + r.choice(["", "", "/* c */ "]) + quoted
        if style == "group" and not opened:
            f.out("import ("); opened = True
        f.out(("\t" if opened else "import ") + spec)
        f.site(kind="import", q="", fn="", locals=[], safe=False, imp={"path": i["path"], "name": i["name"], "nat": i["nat"]})
    if opened:
        f.out(")")
    for i in imports:
        if i["name"] == ".":
            f.out(i["use"] % "")
        elif i["name"] != "_":
            f.out(i["use"] % (name_of(i) + "."))
    for _ in range(r.randint(4, 9)):
        function(f)
    lit(f)
    return f

def run(ctx):
    rng = ctx.rng
    cases = ctx.enumerate("Names")
    rng.shuffle(cases)
    total = ctx.pick(420, 6000)
    per = 210
    jobs = []
    n = 0
    pool = [c for c in cases]
    for b in range(max(1, total // per)):
        mod = "c16_%d" % b
        decoys, files, helpers = {}, {}, {}
        for j in range(per):
            c = pool[n % len(pool)]
            n += 1
            r = random.Random("%s/%d" % (ctx.seed, n))
            u = r.random()
            if u < .7:
                pkg, names_, d = "all", [], "all"
            elif u < .85:
                pkg, names_, d = "pv", NATS, "pv"
            else:
                pkg = r.choice(NATS)
                names_, d = names.FNS, "p_" + pkg
            f = build(r, n, c, pkg, names_, mod, decoys)
            if f is None:
                continue
            files["%s/f%d.go" % (d, n)] = f
            if d + "/help.go" not in helpers:
                h = names.helper(pkg)
                if pkg == "pv":
                    h += "".join(("type %s struct{ zloc }\n" if k % 3 == 2 and 0 else "var %s zloc\n") % s for k, s in enumerate(NATS))
                elif pkg in NATS:
                    h += "".join("func %s(a ...any) int { return 0 }\n" % s for s in names.FNS)
                helpers[d + "/help.go"] = h
        jobs.append((mod, files, helpers, decoys))
    def one(job):
        mod, files, helpers, decoys = job
        texts = {k: "\n".join(f.lines) + "\n" for k, f in files.items()}
        root = ctx.module(mod, {**texts, **helpers, **decoys}, ("golang.org/x/crypto v0.37.0",))
        rep = ctx.must_scan(root, ["-exclude-dir=d%d" % k for k in range(0)] + ctx.noise(random.Random(mod)), key="scan")
        if rep is None:
            return []
        if rep["Golang errors"]:
            raise vk.CheckError("generated sample does not compile: %s" % json.dumps(rep["Golang errors"])[:1500])
        got, stray = {}, []
        for x in rep["Issues"]:
            if x["rule_id"] in WATCH:
                got.setdefault((os.path.relpath(x["file"], root), int(x["line"].split("-")[0])), []).append(x["rule_id"])
        obs = []
        for k, f in files.items():
            for s in f.sites:
                o = {"kind": s["kind"], "q": s["q"], "fn": s["fn"], "locals": s["locals"], "safe": s["safe"], "pkg": list(f.pkgnames),
                     "imports": [{"path": i["path"], "name": i["name"], "nat": i["nat"]} for i in f.imports],
                     "imp": s.get("imp", {"path": "", "name": "", "nat": ""}), "got": got.pop((k, s["line"]), []), "src": f.lines[s["line"] - 1], "file": k}
                obs.append(o)
        for (k, l), rules in got.items():
            line = texts[k].split("\n")[l - 1] if k in texts else ""
            ctx.fail("stray", "%s reported at %s:%d, where nothing risky is used: %r" % (rules, k, l, line), {"line": line, "text": texts.get(k, "")[:3000]})
        return obs
    obs = []
    for o in ctx.pool(one, jobs):
        obs += o
    bad = ctx.validate("NamesVal", [{k: v for k, v in o.items() if k not in ("src", "file")} for o in obs])
    for i, why in bad.items():
        o = obs[i]
        imps = ["%s %s" % (x["name"], x["path"]) for x in o["imports"]]
        ctx.fail("%s:%s" % (o["kind"], sorted(why)[0]), "%s: %r in %s with imports %s, locals %s" % ("; ".join(sorted(why)), o["src"].strip(), o["file"], imps, o["locals"]), {"obs": o, "why": why})
    if obs:
        ctx.sample({k: obs[5][k] for k in ("kind", "q", "fn", "imports", "locals", "got", "src")})
    return ctx.finish(places=len(obs), reported=sum(1 for o in obs if o["got"]), files=sum(len(j[1]) for j in jobs))
