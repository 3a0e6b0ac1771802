"""C22: no verdict depends on what else is scanned, before or at the same time (spec: Isolation.tla, IsolationVal.tla)."""
import json, os, re
import pieces, samples, vk

SSA = ("G115", "G407", "G602")
CONFIGS = [{}, {"G301": "0o777", "G302": "0o777", "G101": {"pattern": "(?i)x", "ignore_entropy": True}, "global": {"audit": "enabled"}, "G104": {"os": ["Remove"]}}]
REQ = ("golang.org/x/crypto v0.37.0",)

def local(path):
    return path.split("/")[-1]

def parts_text(imports, parts, pkg="p"):
    """(text, slots): slots = [(first line, last line, key)]"""
    lines, slots = ["package " + pkg], []
    for i in imports:
        lines.append('import %s"%s"' % ("_ " if i.startswith("_") else "", i.lstrip("_")))
        slots.append((len(lines), len(lines), "import " + i))
    lines += ["var _ = %s" % USE[i] for i in imports if i in USE]
    for key, text in parts:
        a = len(lines) + 1
        lines += text.split("\n")
        slots.append((a, len(lines), key))
        lines.append("")
    return "\n".join(lines) + "\n", slots

USE = {"strconv": "strconv.IntSize", "compress/gzip": "gzip.BestSpeed", "compress/zlib": "zlib.BestSpeed", "io": "io.EOF", "os": "os.ErrExist", "path/filepath": "filepath.Separator",
       "os/exec": "exec.ErrNotFound", "context": "context.Canceled", "net/http": "http.MethodGet", "database/sql": "sql.ErrNoRows", "fmt": "fmt.Sprint", "crypto/tls": "tls.VersionTLS12",
       "crypto/cipher": "cipher.NewGCM", "crypto/rand": "rand.Reader", "time": "time.Second", "net": "net.IPv4len", "archive/zip": "zip.Store", "archive/tar": "tar.TypeReg",
       "crypto/rsa": "rsa.ErrVerification", "html/template": "template.HTMLEscape", "crypto/md5": "md5.Size", "crypto/sha1": "sha1.Size", "crypto/des": "des.BlockSize", "unsafe": "unsafe.Sizeof(0)",
       "crypto/rc4": "rc4.KeySizeError(0)", "net/http/cgi": "cgi.Serve", "net/http/pprof": "pprof.Index"}

def digest(f, slots, what):
    a, _, b = f["Line"].partition("-")
    a, b = int(a), int(b or a)
    for lo, hi, key in slots:
        if lo <= a <= hi:
            return key, "%s|%d-%d:%s|%s" % (what(key), a - lo, b - lo, f["Col"], rest(f))
    return None, "line %s: %s" % (f["Line"], rest(f))

def rest(f):
    supp = sorted("%s:%s" % (s["kind"], s["justification"]) for s in f["Supp"] or [])
    return "|".join([f["Rule"], re.sub(r"\b(secret|url|x|F|T|E)\d+_\d+\b", r"\1", f["What"]), f["Sev"], f["Conf"], f["Cwe"], str(f["NoSec"]), ";".join(supp)])

def run(ctx):
    for o in ("ClearTable", "ClearErrors", "ByName"):
        if ctx.tlc("Isolation", "Isolation_%s.cfg" % o, expect_ok=False)["rc"] == 0:
            raise vk.CheckError("the specification does not tell a scanner without %s from a good one" % o)
    hists = ctx.enumerate("Isolation")
    r = ctx.rng
    root = ctx.module("c22", {"go.sum": open(os.path.join(vk.REPO, "go.sum")).read()}, requires=REQ)
    env = {"GOSECGOVERSION": "go1.21"}
    def put(rel, text):
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(text)
        return p
    # each declaration alone in a package, checked by a scanner of its own
    chosen = list(range(len(pieces.P)))
    imports = sorted({i for p in pieces.P for i in p[0]} | set(pieces.IMPORTS))
    units = []        # (key, dir, slots)
    for i in imports:
        t, s = parts_text([i], [])
        put("base/i%d/x.go" % len(units), t)
        units.append(("import " + i, "base/i%d" % len(units), s))
    for k in chosen:
        imp, text = pieces.P[k]
        t, s = parts_text(imp, [("piece %d" % k, text.replace("\0", "1_1"))])
        put("base/p%d/x.go" % k, t)
        put("base/p%d/zhelp.go" % k, pieces.HELP)
        units.append(("piece %d" % k, "base/p%d" % k, s))
    wholes = [s for s in samples.load(vk.REPO) if not any('import "C"' in f or "golang.org" in f or "github.com" in f for f in s["files"])]
    r.shuffle(wholes)
    wholes = wholes[:ctx.pick(50, len(wholes))]
    for k, w in enumerate(wholes):
        for j, f in enumerate(w["files"]):
            put("base/w%d/s%d.go" % (k, j), f)
        units.append(("whole %d" % k, "base/w%d" % k, None))
    sess = []
    for key, d, s in units:
        for c in CONFIGS:
            sess.append({"Ops": [{"Op": "scan", "Paths": [os.path.join(root, d)]}], "Config": c, "Tests": False, "Track": True, "Concurrency": 1})
    resp, p = ctx.drive("history", {"Sessions": sess, "Parallel": 8}, env=env, cwd=root, timeout=600)
    if resp is None:
        ctx.fail("crash", "the scanner aborted on single declarations: %s" % (p.stderr[-1500:] if p else "timeout"))
        return ctx.finish()
    base = {}
    for n, (key, d, s) in enumerate(units):
        for c in range(len(CONFIGS)):
            st = resp[n * len(CONFIGS) + c][0]
            if st["Panic"] or st["Err"]:
                ctx.fail("crash", "scanning %s alone: %s%s" % (key, st["Panic"], st["Err"]), {})
                continue
            if st["Errors"] and not key.startswith("whole"):
                raise vk.CheckError("%s does not compile: %s" % (key, st["Errors"]))
            if key.startswith("piece"):
                st["Metrics"][2] -= 1
                st["Metrics"][3] -= pieces.HELP.count("\n")
            finds = []
            for f in st["Issues"]:
                if s is None:
                    finds.append((f["Rule"], "%s|%s:%s|%s" % (os.path.basename(f["File"]), f["Line"], f["Col"], rest(f)), bool(f["Supp"])))
                    continue
                k2, dg = digest(f, s, lambda k: k)
                if k2 is None:
                    raise vk.CheckError("finding outside of the declaration %s: %s" % (key, dg))
                if k2 == key:
                    finds.append((f["Rule"], dg, bool(f["Supp"])))
            base[key, c] = {"finds": finds, "errs": bool(st["Errors"]), "nums": st["Metrics"]}
    if ctx.violations:
        return ctx.finish()
    nosec = {key: base[key, 0]["nums"][1] for key, c in base}
    good = [k for k in range(len(wholes)) if not base["whole %d" % k, 0]["errs"]]
    # packages: versions of files composed of declarations, or whole samples
    rules = sorted({f[0] for b in base.values() for f in b["finds"]})
    def version(sid, p, v):
        w = r.random()
        if w < .25 and good:
            k = r.choice(good)
            return {"key": "whole %d" % k, "files": [("s%d.go" % j, f) for j, f in enumerate(wholes[k]["files"])]}
        files, slots = [], {}
        n = 0
        broken = r.random() < .12
        # whether the analyzers run on a package with type errors depends on the errors
        pool = r.sample([k for k in chosen if not broken or not any(f[0] in SSA for c in (0, 1) for f in base["piece %d" % k, c]["finds"])], r.randint(3, 30))
        for j in range(r.choice([1, 1, 2, 3])):
            ks = [r.choice(pool) for _ in range(r.randint(1, 14))]
            imp = []
            for k in ks:
                for i in pieces.P[k][0]:
                    if i not in imp and local(i) not in [local(z) for z in imp]:
                        imp.append(i)
            ks = [k for k in ks if all(i in imp for i in pieces.P[k][0])]
            for i in pieces.IMPORTS:
                if r.random() < .1 and i not in imp and local(i) not in [local(z) for z in imp]:
                    imp.append(i)
            r.shuffle(imp)
            parts = []
            for k in ks:
                n += 1
                parts.append(("piece %d" % k, pieces.P[k][1].replace("\0", "%d_%d" % (j, n))))
            t, s = parts_text(imp, parts)
            name = "%s%d.go" % (r.choice("abz"), j)
            files.append((name, t)); slots[name] = s
        files.append(("zhelp.go", pieces.HELP)); slots["zhelp.go"] = []
        if broken:
            files.append(("zbroken.go", "package p\n\nvar zz int = \"no\"\n"))
        return {"key": None, "files": files, "slots": slots, "broken": broken}
    def verdict(ver, sel, track):
        c, inc = sel
        finds, nums = [], [0, 0, 0, 0]
        if ver["key"]:
            b = base[ver["key"], c]
            for rule, dg, supp in b["finds"]:
                if inc and rule not in inc:
                    continue
                nums[0] += 1
                if track or not supp:
                    finds.append(dg)
            nums[1:] = b["nums"][1:]
            return {"finds": finds, "broken": False, "nums": nums}
        nums[2] = len(ver["files"])
        nums[3] = sum(t.count("\n") for _, t in ver["files"])
        for name, s in ver["slots"].items():
            for n, (a, b, key) in enumerate(s):
                nums[1] += nosec[key]
                for rule, dg, supp in base[key, c]["finds"]:
                    if inc and rule not in inc:
                        continue
                    nums[0] += 1
                    if track or not supp:
                        finds.append("%s#%d %s" % (name, n, dg))
        return {"finds": finds, "broken": ver["broken"], "nums": nums}
    obs, sess = [], []
    nsess = ctx.pick(60, 500)
    for sid in range(nsess):
        h = r.choice(hists)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            h = h + r.choice(hists)
        track = r.random() < .5
        sels = [(0, None)]
        for _ in range(2):
            sels.append((r.randint(0, 1), None if r.random() < .5 else r.sample(rules, r.randint(1, len(rules)))))
        s0 = r.randint(1, 2)
        vers = {p: [version(sid, p, v) for v in range(3)] for p in (1, 2, 3)}
        dirs = {p: os.path.join(root, "s%d" % sid, "p%d" % p) for p in (1, 2, 3)}
        def install(p, v, old=None):
            ops = []
            names = {n for n, _ in vers[p][v]["files"]}
            if old is not None:
                ops += [{"Op": "remove", "File": os.path.join(dirs[p], n)} for n, _ in vers[p][old]["files"] if n not in names]
            ops += [{"Op": "edit", "File": os.path.join(dirs[p], n), "Content": t} for n, t in vers[p][v]["files"]]
            return ops
        ops, marks = [], []
        for p in (1, 2, 3):
            ops += install(p, 0)
        cur = {1: 0, 2: 0, 3: 0}
        for o in h:
            if o["op"] == "scan":
                ops.append({"Op": "scan", "Paths": [dirs[p] for p in o["ps"]]})
                marks.append((len(ops) - 1, dict(cur)))
            elif o["op"] == "reset":
                c, inc = sels[o["s"]]
                ops.append({"Op": "reset", "Config": CONFIGS[c], "Include": inc or []})
                marks.append((len(ops) - 1, dict(cur)))
            else:
                p = o["p"]
                ops += install(p, (cur[p] + 1) % 3, cur[p])
                cur[p] = (cur[p] + 1) % 3
                marks.append((len(ops) - 1, dict(cur)))
        c, inc = sels[s0]
        sess.append({"Ops": ops, "Config": CONFIGS[c], "Include": inc or [], "Tests": r.random() < .3, "Track": track, "Concurrency": r.choice([1, 1, 4])})
        obs.append({"h": h, "marks": marks, "vers": vers, "sels": sels, "s0": s0, "track": track, "dirs": dirs})
    resp, p = ctx.drive("history", {"Sessions": sess, "Parallel": ctx.pick(8, 8)}, env=env, cwd=root, timeout=850)
    if resp is None:
        ctx.fail("crash", "the scanner aborted: %s" % (p.stderr[-1500:] if p else "timeout"))
        return ctx.finish()
    recs, total = [], 0
    for sid, o in enumerate(obs):
        got, prev, pnums, bad = [], [], [0, 0, 0, 0], False
        for (n, cur), op in zip(o["marks"], o["h"]):
            st = resp[sid][n]
            if st["Panic"] or st["Err"]:
                ctx.fail("crash", "operation %s of a history: %s%s" % (op, st["Panic"], st["Err"]), {"history": o["h"]})
                bad = True
                break
            now = []
            for f in st["Issues"]:
                pk = next((p for p in o["dirs"] if f["File"].startswith(o["dirs"][p] + os.sep)), 0)
                now.append((f["File"], json.dumps(f, sort_keys=True)))
            left = list(prev)
            new = []
            for e in now:
                if e in left:
                    left.remove(e)
                else:
                    new.append(e)
            dn = []
            for path, js in new:
                f = json.loads(js)
                pk = next((p for p in o["dirs"] if path.startswith(o["dirs"][p] + os.sep)), 0)
                if not pk:
                    dn.append("elsewhere: " + js)
                    continue
                ver = o["vers"][pk][cur[pk]]
                name = os.path.basename(path)
                if ver["key"]:
                    dn.append("%s|%s:%s|%s" % (name, f["Line"], f["Col"], rest(f)))
                else:
                    s = ver["slots"].get(name, [])
                    ix = next((i for i, (a, b, _) in enumerate(s) if a <= int(f["Line"].split("-")[0]) <= b), -1)
                    dn.append("%s#%d %s" % (name, ix, digest(f, s, lambda k: k)[1]))
            # an error of a package without a position names the file in its text
            errs = set()
            for fn, texts in st["Errors"].items():
                for t in texts:
                    errs.add(next((p for p in o["dirs"] if fn.startswith(o["dirs"][p] + os.sep) or not fn and "s%d/p%d/" % (sid, p) in t), 0))
            errs = sorted(errs)
            nums = st["Metrics"] if op["op"] == "reset" else [a - b for a, b in zip(st["Metrics"], pnums)]
            got.append({"new": dn, "lost": [] if op["op"] == "reset" else [x[1] for x in left], "errs": errs, "nums": nums})
            prev, pnums = now, st["Metrics"]
            total += len(new)
        if bad:
            continue
        b = [[[verdict(o["vers"][p][v], o["sels"][s], o["track"]) for s in (1, 2)] for v in range(3)] for p in (1, 2, 3)]
        recs.append({"ops": o["h"], "nvers": 3, "s0": o["s0"], "base": b, "got": got, "sid": sid})
    bad = ctx.validate("IsolationVal", [{k: v for k, v in x.items() if k != "sid"} for x in recs], timeout=1800)
    for i, why in bad.items():
        x = recs[i]
        ctx.fail("history", "after %s: %s" % (json.dumps(x["ops"]), "; ".join(sorted(why))[:1500]), {"ops": x["ops"], "why": why, "session": sess[x["sid"]]})
    if recs:
        ctx.sample({"ops": recs[0]["ops"], "new": [len(g["new"]) for g in recs[0]["got"]]})
    return ctx.finish(histories=len(recs), findings=total, units=len(units))
