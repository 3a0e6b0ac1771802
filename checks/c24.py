"""C24: suggested fixes (spec: Autofix.tla, AutofixVal.tla)."""
import json, os, re
import fakeai, vk

OTHER = ["openai", "Gemini", "gemini ", "x"]
TEXTS = ["Weakness {} of keys", "weakness {} of keys", "Weakness {} of keys ", "Weakness {} of keys and more", "Say \"{}\" twice", "A%sB {} %d%%", "Back\\slash {}", "Caf\u00e9 {} \u4e16", "{}", "Tick ` {} '", "<b>{}</b>", "Number {}"]
# statements and the findings they bring
LINES = ["_ = md5.New()", "_, _ = des.NewCipher(nil)", "_ = sha1.New()", "_, _ = rc4.NewCipher(nil)", "_ = &tls.Config{InsecureSkipVerify: true}", "_ = &tls.Config{MinVersion: tls.VersionTLS10}",
         "_ = rand.Int()", "_ = exec.Command(cmd())", "_ = exec.Command(cmd(), \"a\")", "os.Chmod(\"f\", 0o777)", "_ = os.Mkdir(\"d\", 0o777)", "_, _ = os.Create(\"/tmp/x\")", "_, _ = os.Open(cmd())", "_ = int8(num())", "_ = uint16(num())",
         "_, _ = http.Get(cmd())", "_, _ = net.Listen(\"tcp\", \"0.0.0.0:80\")", "_ = unsafe.Pointer(nil)", "os.Remove(\"x\")"]
IMPORTS = {"md5.": "crypto/md5", "des.": "crypto/des", "sha1.": "crypto/sha1", "rc4.": "crypto/rc4", "tls.": "crypto/tls", "rand.": "math/rand", "exec.": "os/exec", "os.": "os", "http.": "net/http", "net.L": "net", "unsafe.": "unsafe"}

def program(lines):
    body = "\n".join("func F%d() {\n\t%s\n}" % (i, t) for i, t in enumerate(lines))
    imps = sorted({p for k, p in IMPORTS.items() if any(re.search(r"(?<!\w)" + re.escape(k), t) for t in lines)})
    return "package p\n\nimport (\n%s)\n\nfunc cmd() string { return string(rune(num())) }\n\nvar n = 7\n\nfunc num() int { n++; return n }\n\n%s\n" % ("".join("\t%s\"%s\"\n" % ("_ " if False else "", p) for p in imps), body)

def seen(srv, run, texts, fixes):
    """Requests and suggestions of a run in the terms of the specification."""
    asks = srv.runs[run]["asks"]
    ids = {}
    for t in texts:
        ids.setdefault(t, len(ids) + 1)
    got = []
    for f in fixes:
        k = 0
        if f:
            k = next((n + 1 for n, a in enumerate(asks) if a["outcome"] == "answer" and srv.answer(run, n + 1, a["form"]) == f), -1)
        got.append(k)
    out = [{"text": ids.get(a["text"], 0), "outcome": a["outcome"], "key": a["key"]} for a in asks]
    for n, a in enumerate(out):
        if a["outcome"] == "again" and all(b["text"] != a["text"] for b in out[n + 1:]):
            a["outcome"] = "late"  # not asked again: given up
    return {"texts": [ids[t] for t in texts], "asks": out, "fixes": got}

def run(ctx):
    for o in ("ByText", "Fresh", "Careful", "BothKeys"):
        if ctx.tlc("Autofix", "Autofix_%s.cfg" % o, expect_ok=False)["rc"] == 0:
            raise vk.CheckError("the specification does not tell a system without %s from a good one" % o)
    e = ctx.enumerate("Autofix")[0]
    if ctx.thorough:
        ctx.model("Autofix", "Autofix_Big.cfg", timeout=1500)
    r = ctx.rng
    srv = fakeai.Server()
    try:
        return judge(ctx, r, srv, e)
    finally:
        srv.close()

def plan_of(r, script):
    return [(o, r.choice(fakeai.FORMS[o])) for o in script]

def judge(ctx, r, srv, e):
    obs, meta = [], []
    scripts = [s for s in e["scripts"] if len(s) == 3]
    quick = [s for s in scripts if "again" not in s]
    # ---- the library: every list of findings with every sequence of outcomes
    jobs, n = [], 0
    def job(lst, plan, provider="gemini", texts=None):
        nonlocal n
        n += 1
        rid = "l%d" % n
        kinds = texts or {}
        for f in lst:
            if f["text"] not in kinds:
                kinds[f["text"]] = r.choice(TEXTS).format("q%dz%s" % (n, f["text"]) if r.random() < .5 else "q%dz" % n)
        if len(set(kinds.values())) != len(kinds):
            for k in list(kinds):
                kinds[k] = TEXTS[int(k[1:]) % len(TEXTS)].format("q%dz" % n)
        issues = [{"Sev": r.randrange(3), "Conf": r.randrange(3), "Rule": f["rule"], "What": kinds[f["text"]], "File": "/a/f%d.go" % r.randrange(3), "Line": str(r.randrange(1, 99)), "NoSec": r.random() < .2} for f in lst]
        url = srv.add(rid, sorted(set(kinds.values())), plan)
        jobs.append({"rid": rid, "prov": provider, "plan": plan, "req": {"Provider": provider, "Key": "key%d" % n, "Endpoint": url, "Finds": issues}})
    for lst in e["lists"]:
        for s in (quick if len(lst) > 1 else quick[:2]):
            job(lst, plan_of(r, s))
    for o in ("error", "answer"):
        for f in fakeai.FORMS[o]:
            for at in (0, 1):
                job([{"rule": "r1", "text": "t1"}, {"rule": "r1", "text": "t2"}, {"rule": "r2", "text": "t1"}], [("answer", "plain")] * at + [(o, f), ("answer", "plain")])
    for s in r.sample([s for s in scripts if "again" in s], ctx.pick(6, 19)):
        job(r.choice([x for x in e["lists"] if len(x) == 3]), plan_of(r, s) + [("answer", "plain")])
    for _ in range(ctx.pick(60, 1500)):
        lst = [{"rule": "r%d" % r.randrange(1, 4), "text": "t%d" % r.randrange(1, 7)} for _ in range(r.randrange(2, 25))]
        k = r.randrange(0, 12)
        job(lst, [("answer", r.choice(fakeai.FORMS["answer"])) for _ in range(k)] + [r.choice([("answer", "plain"), ("error", r.choice(fakeai.FORMS["error"]))])])
    for p in OTHER:
        job([{"rule": "r1", "text": "t1"}], [("answer", "plain")], provider=p)
    for f in fakeai.FORMS["late"]:
        job([{"rule": "r1", "text": "t1"}, {"rule": "r1", "text": "t2"}, {"rule": "r2", "text": "t1"}], [("answer", "plain"), ("late", f)])
    job([{"rule": "r1", "text": "t1"}, {"rule": "r2", "text": "t2"}], [("again", "503")])
    # ---- the command: programs with repeated findings, and every way to ask
    root = ctx.module("c24", {})
    progs = []
    for k in range(ctx.pick(6, 20)):
        some = r.sample(LINES, r.randrange(2, 7))
        lines = [r.choice(some) for _ in range(r.randrange(3, 10))]
        if k == 1:
            lines = ["_ = md5.New()", "_, _ = des.NewCipher(nil)", "_ = md5.New()", "_ = &tls.Config{InsecureSkipVerify: true}", "_ = &tls.Config{MinVersion: tls.VersionTLS10}"]
        os.makedirs(os.path.join(root, "p%d" % k), exist_ok=True)
        open(os.path.join(root, "p%d/a.go" % k), "w").write("package p\n" if k == 0 else program(lines))
        progs.append("./p%d" % k)
    ARGS = [[], ["-sort=false"], ["-no-fail"], ["-exclude=G104"], ["-severity=medium"], ["-track-suppressions"], ["-concurrency=3"]]
    cmds, plain = [], {}
    def cmd(conf, plan, prog=None, args=None):
        nonlocal n
        n += 1
        rid = "c%d" % n
        p = prog or r.choice(progs[1:])
        a = args if args is not None else r.choice(ARGS)
        plain.setdefault((p, tuple(a)), None)
        cmds.append({"rid": rid, "conf": conf, "plan": plan, "prog": p, "args": a})
    for c in e["confs"]:
        for empty in ((False, True) if not c["env"] else (False,)):
            cmd(dict(c, empty=empty), [("answer", r.choice(fakeai.FORMS["answer"]))])
    good = {"provider": "gemini", "flag": True, "env": False, "empty": False}
    cmd(good, [("answer", "plain")], prog=progs[0])
    for a in ARGS:
        cmd(good, [("answer", "plain")], args=a)
        cmd(good, [("answer", "plain"), ("error", r.choice(fakeai.FORMS["error"]))], args=a)
    for f in r.sample(fakeai.FORMS["error"], ctx.pick(8, len(fakeai.FORMS["error"]))):
        cmd(dict(good, env=r.random() < .5), [("answer", "plain")] * r.randrange(3) + [("error", f)])
    cmd(good, [("late", "hang")], prog=progs[1])
    cmd(good, [("answer", "plain"), ("late", "trickle")], prog=progs[1])
    def once(a):
        args = ["-fmt=json"] + a["args"] + [a["prog"]]
        env = {"GOSEC_AI_API_KEY": None}
        if a["conf"] is not None:
            c = a["conf"]
            ai = ["-ai-endpoint=" + srv.add(a["rid"], a["texts"], a["plan"])]
            if c["provider"] != "none":
                ai.append("-ai-api-provider=" + ("gemini" if c["provider"] == "gemini" else OTHER[len(a["rid"]) % len(OTHER)]))
            if c["flag"]:
                ai.append("-ai-api-key=flagkey")
            if c["env"] or c["empty"]:
                env["GOSEC_AI_API_KEY"] = "envkey" if c["env"] else ""
            args = ai + args
        out = ctx.gosec(root, args, env=env, timeout=150)
        try:
            rep = json.loads(out["out"])
        except ValueError:
            rep = None
        return rep, out
    keys = sorted(plain)
    for k, (rep, out) in zip(keys, ctx.pool(lambda k: once({"prog": k[0], "args": list(k[1]), "conf": None}), keys)):
        if rep is None:
            ctx.fail("noreport", "no report without suggestions: %s" % out["err"][-1500:])
            return ctx.finish()
        if rep["Golang errors"]:
            raise vk.CheckError("a generated program does not compile: %s" % rep["Golang errors"])
        plain[k] = (rep, out)
    for c in cmds:
        c["texts"] = sorted({i["details"] for i in plain[(c["prog"], tuple(c["args"]))][0]["Issues"] or []})
    both = ctx.pool(lambda f: f(), [lambda: ctx.drive("autofix", [j["req"] for j in jobs], timeout=400), lambda: ctx.pool(once, cmds, workers=6)])
    (resp, p), ran = both
    if resp is None:
        ctx.fail("crash", "asking for suggestions aborted: %s" % (p.stderr[-1500:] if p else "timeout"))
        return ctx.finish()
    for j, a in zip(jobs, resp):
        q = j["req"]
        o = seen(srv, j["rid"], [i["What"] for i in q["Finds"]], a["fixes"] or [])
        o.update(conf={"provider": "gemini" if j["prov"] == "gemini" else "other", "flag": True, "env": False}, keys=[q["Key"]], same=a["same"], exit=True, logged=a["err"] != "", ended=a["panic"] == "")
        obs.append(o)
        meta.append(("library", j["plan"], [i["What"] for i in q["Finds"]], a, srv.runs[j["rid"]]["asks"]))
    strip = lambda rep: dict(rep, Issues=[{k: v for k, v in i.items() if k != "autofix"} for i in rep["Issues"] or []])
    notime = lambda t: {re.sub(r"\d\d\d\d/\d\d/\d\d \d\d:\d\d:\d\d", "", x) for x in t.split("\n") if x.strip()}
    for c, (rep, out) in zip(cmds, ran):
        base, bout = plain[(c["prog"], tuple(c["args"]))]
        iss = (rep or {}).get("Issues") or []
        o = seen(srv, c["rid"], [i["details"] for i in iss], [i.get("autofix", "") for i in iss])
        k = c["conf"]
        o.update(conf={"provider": k["provider"], "flag": k["flag"], "env": k["env"]}, keys=["flagkey"] * k["flag"] + ["envkey"] * k["env"], ended=rep is not None and not out["timeout"],
                 same=rep is not None and strip(rep) == strip(base), exit=out["rc"] == bout["rc"], logged=bool(notime(out["err"]) - notime(bout["err"])))
        obs.append(o)
        meta.append(("command", k, c["plan"], c["args"], o["texts"], out["err"][-1500:], srv.runs[c["rid"]]["asks"]))
    bad = ctx.validate("AutofixVal", obs, chunk=500)
    for i, why in bad.items():
        kind = meta[i][0]
        ctx.fail("%s:%s" % (kind, sorted(why)[0]), "%s: %s: %s" % (kind, "; ".join(sorted(why)), json.dumps(obs[i])[:700]), {"observation": obs[i], "run": repr(meta[i])[:6000]})
    if not any(o["fixes"] and all(o["fixes"]) for o in obs if o["conf"]["flag"]):
        raise vk.CheckError("no run brought suggestions: the stand-in for the service is not used")
    ctx.sample(obs[0])
    ctx.sample(obs[-1])
    ctx.extra = {"library runs": len(jobs), "command runs": len(cmds), "requests": sum(len(x["asks"]) for x in srv.runs.values())}
    return ctx.finish()
