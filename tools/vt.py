"""Common machinery of the checks: building the harness, running it and TLC, evidence and verdicts."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class HarnessError(Exception):
    """The check itself failed: no verdict."""


class Crash(Exception):
    def __init__(self, rc, stderr, cmd):
        Exception.__init__(self, "rc %s: %s" % (rc, stderr[-2000:]))
        self.rc, self.stderr, self.cmd = rc, stderr, cmd


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.start = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%s" % (pid, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local")
        cache = self.env.get("GOCACHE") or os.path.join(self.env.get("HOME", "/root"), ".cache", "go-build")
        try:
            os.makedirs(cache, exist_ok=True)
            probe = os.path.join(cache, "probe-%d" % os.getpid())
            open(probe, "w").close()
            os.remove(probe)
        except OSError:
            cache = os.path.join(VERIF, ".work", "gocache")
            os.makedirs(cache, exist_ok=True)
        self.env["GOCACHE"] = cache
        self.violations = []   # (reason, replay path)
        self.known = []
        self.states = self.transitions = self.traces = 0
        self.parts = []        # what each stage covered
        self.samples = []
        self.assumptions = []
        self.exhaustive = []
        self.catalog = None

    def note(self, *a):
        print("[%6.1fs]" % (time.time() - self.start), *a, flush=True)

    def path(self, *p):
        return os.path.join(self.work, *p)

    # --- building ---------------------------------------------------------
    def make_catalog(self, nrand=None):
        if self.catalog:
            return
        cmd = [sys.executable, os.path.join(VERIF, "tools", "gencat.py"), str(self.seed), self.work]
        if nrand:
            cmd.append(str(nrand))
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise HarnessError("catalogue: " + p.stdout)
        self.catalog = self.path("catalog.ndjson")

    def build(self, cmd, race=False, catalog=False):
        out = self.path(cmd + ("-race" if race else ""))
        args = ["go", "build", "-o", out]
        if race:
            args += ["-race", "-gcflags=all=-d=checkptr=0"]
        if catalog:
            self.make_catalog()
            ov = self.path("overlay.json")
            with open(ov, "w") as f:
                json.dump({"Replace": {os.path.join(HARNESS, "cat", "types_gen.go"): self.path("types_gen.go")}}, f)
            args += ["-overlay", ov]
        args.append("./cmd/" + cmd)
        p = subprocess.run(args, cwd=HARNESS, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise HarnessError("the harness does not build against /repo:\n" + p.stdout[-4000:])
        self.note("built", cmd, "(race)" if race else "")
        return out

    # --- running the harness ----------------------------------------------
    def go(self, args, timeout=400, mem_gb=14, race=False, env=None):
        pre = [] if race else ["prlimit", "--as=%d" % (mem_gb << 30)]
        e = dict(self.env, GODEBUG="clobberfree=1")  # freed memory does not keep looking alive
        e.update(env or {})
        try:
            p = subprocess.run(pre + args, cwd=self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise HarnessError("timeout: " + " ".join(args))
        if p.returncode:
            raise Crash(p.returncode, p.stderr, args)
        lines = [l for l in p.stdout.splitlines() if l.startswith("{")]
        return json.loads(lines[-1]) if lines else {}

    # --- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, timeout=600, heap="8g", workers=8, extra=()):
        d = self.path("tlc-" + module + "-" + os.path.basename(cfg).replace(".cfg", ""))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla") or f.endswith(".cfg"):
                shutil.copy(os.path.join(SPEC, f), d)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss128m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-config", cfg] + list(extra) + [module + ".tla"]
        log = os.path.join(d, "out.txt")
        t0 = time.time()
        with open(log, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise HarnessError("TLC timeout on %s %s" % (module, cfg))
        out = open(log, errors="replace").read()
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        res = {"rc": rc, "out": out, "dir": d, "secs": round(time.time() - t0, 1),
               "generated": int(m[-1][0].replace(",", "")) if m else 0,
               "distinct": int(m[-1][1].replace(",", "")) if m else 0}
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        if rc not in (0, 12, 13):
            body = [l for l in out.splitlines() if not re.match(r"Parsing|Semantic|Linting|Computed", l)]
            text = "\n".join(body)
            if len(text) > 6000:
                text = text[:3000] + "\n...\n" + text[-3000:]
            raise HarnessError("TLC failed (rc %d) on %s %s:\n%s" % (rc, module, cfg, text))
        return res

    def model(self, module, cfg, **kw):
        """Model checking proper: an error in the specification itself is an error of the check."""
        r = self.tlc(module, cfg, **kw)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise HarnessError("the specification violates its own properties (%s %s):\n%s" % (module, cfg, r["out"][-3000:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.note("TLC", module, cfg, "distinct states", r["distinct"], "in", r["secs"], "s")
        return r

    # --- verdicts -----------------------------------------------------------
    def violation(self, why, detail, how):
        d = os.path.join(VERIF, ".work", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "why": why, "how": how, "detail": detail}, f, indent=1)
        self.violations.append((why, p))
        self.note("violation:", why)

    def part(self, name, **kw):
        kw["part"] = name
        self.parts.append(kw)

    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples[:6], "parts": self.parts,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 1),
            "violations": len(self.violations),
        }
        if self.exhaustive:
            ev["coverage"]["exhaustive_parts"] = self.exhaustive
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            ev["coverage"]["samples"] = [str(x)[:1500] for x in ev["coverage"]["samples"]]
            s = json.dumps(ev, indent=1)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            f.write(s + "\n")
        for why, p in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            print("  " + why)
        return 1 if self.violations else 0


def short(x, n=700):
    s = x if isinstance(x, str) else json.dumps(x, separators=(",", ":"))
    return s if len(s) <= n else s[:n] + "..."
