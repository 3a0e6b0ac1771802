"""Shared machinery of the checks: builds, TLC, scans, verdicts, evidence.

A check decides its property like this:
  1. TLC model-checks the property's module in /verif/spec (the design) and
     enumerates the module's case space / behaviours;
  2. the cases are turned into real inputs and run through the real gosec,
     rebuilt from /repo's working tree;
  3. the recorded observations are handed back to TLC, which replays them
     against the same module (Conform.tla) and reports every observation the
     specification does not allow.
Only step 3 (or a direct crash / hang of the real code) yields a violation.
"""
import threading, atexit, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
GOENV = {
    "HOME": "/root", "LANG": "C.UTF-8", "TZ": "UTC",
    "PATH": "/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod -buildvcs=false",
    "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build",
    "CGO_ENABLED": "1", "GOSECGOVERSION": "go1.24.0",
}

class CheckError(Exception):
    """The check itself could not do its work (never a violation)."""

class Ctx:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        # digits only: no part of the name can be taken for a name in a sample
        self.scratch = "/tmp/vk-%s-%d%d" % (pid, os.getpid(), time.time_ns())
        os.mkdir(self.scratch, 0o700)
        atexit.register(self.cleanup)
        self.violations = []
        self.known_hit = {}
        self.known = {}
        kf = os.path.join(VERIF, "known-findings.jsonl")
        if os.path.exists(kf):
            for ln in open(kf):
                ln = ln.strip()
                if not ln:
                    continue
                r = json.loads(ln)
                if r.get("property") == pid and r.get("status") == "known":
                    self.known[r["key"]] = r["what"]
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.extra = {}
        self.tlc_n = 0
        self._cli = None
        self._drv = None
        self._mod_n = 0
        self._lock = threading.Lock()

    # ------------------------------------------------------------------ misc
    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.scratch)
            return
        subprocess.run(["chmod", "-R", "u+rwX", self.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def path(self, *p):
        r = os.path.join(self.scratch, *p)
        os.makedirs(os.path.dirname(r), exist_ok=True)
        return r

    def write(self, rel, content):
        p = self.path(rel)
        mode = "wb" if isinstance(content, bytes) else "w"
        with open(p, mode) as f:
            f.write(content)
        return p

    def log(self, *a):
        print("[%s %.1fs]" % (self.id, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- builds
    def cli(self):
        if self._cli is None:
            out = self.path("bin", "gosec")
            r = subprocess.run(["go", "build", "-o", out, "./cmd/gosec"], cwd=REPO, env=GOENV,
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError("building gosec failed:\n" + r.stderr[-4000:])
            self._cli = out
        return self._cli

    def build_race(self):
        out = self.path("bin", "gosec_race")
        r = subprocess.run(["go", "build", "-race", "-o", out, "./cmd/gosec"], cwd=REPO, env=GOENV, capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError("building gosec with the race detector failed:\n" + r.stderr[-4000:])
        return out

    def driver(self, race=False):
        if self._drv is None:
            src = os.path.join(VERIF, "harness")
            dst = self.path("harness", "go.mod")
            dst = os.path.dirname(dst)
            shutil.copytree(src, dst, dirs_exist_ok=True)
            gomod = open(os.path.join(REPO, "go.mod")).read()
            gomod = re.sub(r"(?m)^module .*$", "module verifharness", gomod)
            gomod += "\nrequire github.com/securego/gosec/v2 v2.0.0\nreplace github.com/securego/gosec/v2 => %s\n" % REPO
            open(os.path.join(dst, "go.mod"), "w").write(gomod)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(dst, "go.sum"))
            out = self.path("bin", "gv")
            cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
            r = subprocess.run(cmd, cwd=dst, env=GOENV, capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError("building the driver failed:\n" + r.stderr[-4000:])
            self._drv = out
        return self._drv

    def drive(self, mode, req, timeout=300, env=None, cwd=None):
        """Run the Go driver; returns (response or None, completed process)."""
        drv = self.driver()
        with self._lock:
            self._mod_n += 1
            n = self._mod_n
        rq = self.write("drv/req%d.json" % n, json.dumps(req))
        rs = self.path("drv/resp%d.json" % n)
        e = dict(GOENV)
        if env:
            e.update(env)
        try:
            p = subprocess.run([drv, mode, rq, rs], env=e, cwd=cwd or self.scratch, capture_output=True,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, None
        resp = None
        if os.path.exists(rs):
            try:
                resp = json.load(open(rs))
            except ValueError:
                resp = None
        return resp, p

    # --------------------------------------------------------- sample modules
    def module(self, name, files, requires=(), go="1.24", goreq=True):
        """Create a Go module under scratch with the given {relpath: text}."""
        root = os.path.join(self.scratch, "mods", name)
        os.makedirs(root, exist_ok=True)
        mod = "module %s\n\ngo %s\n" % (name.replace("/", "_"), go)
        for r in requires:
            mod += "require %s\n" % r
        if goreq and "go.mod" not in files:
            open(os.path.join(root, "go.mod"), "w").write(mod)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(root, "go.sum"))
        for rel, text in files.items():
            p = os.path.join(root, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb" if isinstance(text, bytes) else "w") as f:
                f.write(text)
        return root

    def gosec(self, cwd, args, env=None, timeout=240, binary=None):
        """Run the real command. Returns dict(rc, out, err, timeout)."""
        e = dict(GOENV)
        if env:
            for k, v in env.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
        try:
            p = subprocess.run([binary or self.cli()] + args, cwd=cwd, env=e, capture_output=True, timeout=timeout)
            return {"rc": p.returncode, "out": p.stdout.decode("utf-8", "replace"),
                    "err": p.stderr.decode("utf-8", "replace"), "timeout": False, "raw": p.stdout}
        except subprocess.TimeoutExpired as ex:
            return {"rc": None, "out": "", "err": (ex.stderr or b"").decode("utf-8", "replace"), "timeout": True, "raw": b""}

    def scan(self, cwd, args=(), paths=("./...",), env=None, timeout=240):
        """Scan with JSON output. Returns (report or None, run)."""
        r = self.gosec(cwd, ["-fmt=json"] + list(args) + list(paths), env=env, timeout=timeout)
        rep = None
        try:
            rep = json.loads(r["out"])
        except ValueError:
            rep = None
        return rep, r

    def must_scan(self, cwd, args=(), paths=("./...",), env=None, timeout=240, key="scan"):
        """As scan; a crash or hang of the scanner counts as a violation."""
        rep, r = self.scan(cwd, args, paths, env, timeout)
        if rep is None:
            if r["timeout"]:
                self.fail(key + ":hang", "scan did not finish in %ds: gosec %s" % (timeout, " ".join(args)), {"cwd_files": list_files(cwd), "args": list(args)})
            else:
                self.fail(key + ":noreport", "scan produced no report (exit %s): gosec %s: %s" % (r["rc"], " ".join(args), r["err"][-1500:]),
                          {"args": list(args), "stderr": r["err"][-6000:]})
        return rep

    def noise(self, rng):
        """Flags which change how a scan is run or shown, but neither its findings nor its outcome."""
        out = []
        if rng.random() < .4:
            out.append("-sort=false")
        if rng.random() < .4:
            out.append("-concurrency=%d" % rng.choice([1, 2, 3, 7]))
        if rng.random() < .2:
            out.append("-color=false")
        if rng.random() < .2:
            out.append("-terse")
        if rng.random() < .2:
            out.append("-log=" + self.path("log%d" % rng.getrandbits(40)))
        return out

    def pool(self, fn, items, workers=8):
        with concurrent.futures.ThreadPoolExecutor(max_workers=workers) as ex:
            return list(ex.map(fn, items))

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers="auto", extra=(), timeout=600, expect_ok=True, heap="4g", props=()):
        cfg = cfg or module + ".cfg"
        self.tlc_n += 1
        meta = self.path("tlc", "m%d-%d" % (self.tlc_n, random.getrandbits(30)), "x")
        meta = os.path.dirname(meta)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m"] + list(props) + [
               "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfg] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        out = p.stdout + p.stderr
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen = dist = 0
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        shutil.rmtree(meta, ignore_errors=True)
        if expect_ok and p.returncode != 0:
            raise CheckError("TLC failed on %s/%s (exit %d):\n%s" % (module, cfg, p.returncode,
                             "\n".join(l for l in out.split("\n") if not re.match(r"(Parsing|Semantic processing|Linting|Computed|Running)", l))[-3500:]))
        return {"rc": p.returncode, "out": out, "generated": gen, "distinct": dist}

    def model(self, module, cfg=None, env=None, timeout=600, **kw):
        """Model-check the design; counts into states/transitions."""
        r = self.tlc(module, cfg, env=env, timeout=timeout, **kw)
        self.states += r["distinct"]
        self.transitions += max(0, r["generated"])
        return r

    def enumerate(self, module, cfg=None, env=None, timeout=600, **kw):
        """Model-check and collect what the module emits to IOEnv.EMIT."""
        out = self.path("tlc", "emit%d-%d.ndjson" % (self.tlc_n, random.getrandbits(30)))
        e = dict(env or {})
        e["EMIT"] = out
        self.model(module, cfg, env=e, timeout=timeout, **kw)
        if not os.path.exists(out):
            raise CheckError("TLC emitted nothing for " + module)
        return [json.loads(x) for x in open(out) if x.strip()]

    def validate(self, module, obs, cfg=None, env=None, timeout=600, chunk=0, **kw):
        """Replay observations against the module. Returns {index: complaints}."""
        if not obs:
            return {}
        tag = random.getrandbits(40)
        op = self.write("tlc/obs%d.ndjson" % tag, "\n".join(json.dumps(o) for o in obs) + "\n")
        outp = self.path("tlc/verdict%d.json" % tag)
        e = dict(env or {})
        e["OBS"] = op
        e["VERDICT"] = outp
        r = self.tlc(module, cfg or (module + ".cfg" if os.path.exists(os.path.join(SPEC, module + ".cfg")) else "Val.cfg"), env=e, workers=1, timeout=timeout, **kw)
        if not os.path.exists(outp):
            raise CheckError("TLC wrote no verdict for %s:\n%s" % (module, r["out"][-3000:]))
        v = json.load(open(outp))
        if v["seen"] != len(obs):
            raise CheckError("TLC replayed %s of %d observations of %s" % (v["seen"], len(obs), module))
        self.validated += len(obs)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        return {b["i"] - 1: b["why"] for b in v["bad"]}

    # --------------------------------------------------------------- verdict
    def fail(self, key, msg, data=None):
        if key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        self.violations.append({"key": key, "msg": msg, "data": data})

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def finish(self, level="model_checking", **cov):
        coverage = {"states": self.states, "transitions": self.transitions,
                    "traces_validated_against_impl": self.validated, "samples": self.samples or ["none"]}
        coverage.update(self.extra)
        coverage.update(cov)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": level, "coverage": coverage,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, n in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (self.id, self.known[k], n))
        if self.violations:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.id + ".json")
            with open(rp, "w") as f:
                json.dump({"property": self.id, "tier": self.tier, "seed": self.seed, "violations": self.violations[:200]}, f, indent=1)
            seen = set()
            for v in self.violations:
                if v["key"] in seen:
                    continue
                seen.add(v["key"])
                if len(seen) > 12:
                    break
                print("  -", v["key"], "::", v["msg"][:600])
            print("%d violations" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.id, rp))
            return 1
        self.log("ok: states=%d transitions=%d validated=%d" % (self.states, self.transitions, self.validated))
        return 0

def list_files(root):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)[:100]

def line_range(s):
    a = s.split("-")
    return int(a[0]), int(a[-1])
