"""Shared machinery of the checks: build the harness from /repo, run TLC on the
specification, replay generated behaviours, validate recorded traces, report."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OFX_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself cannot give an answer (exit 2, never a violation)."""


def goenv():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="ofxcheck-%s-" % prop)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.viol = []
        self.knownhit = {}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "runs": []}
        self._vh = {}
        self._n = 0
        self.known = []
        for ln in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), encoding="utf8"):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", ln)
            if m and m.group(1) == prop:
                self.known.append({"match": m.group(2), "what": m.group(3)})

    # ------------------------------------------------------------------ build
    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.scratch, name)

    def harness_src(self):
        """A private copy of the harness module that points at REPO."""
        dst = self.path("harness")
        if not os.path.exists(dst):
            shutil.copytree(os.path.join(VERIF, "harness"), dst)
            gm = os.path.join(dst, "go.mod")
            s = open(gm).read()
            s = re.sub(r"(replace github.com/aclindsa/ofxgo =>) \S+", r"\1 " + REPO, s)
            open(gm, "w").write(s)
        return dst

    def gobuild(self, pkg, out, race=False, overlay=None):
        src = self.harness_src()
        cmd = ["go", "build", "-o", out]
        if race:
            cmd.append("-race")
        if overlay:
            cmd += ["-overlay", overlay]
        cmd.append(pkg)
        p = subprocess.run(cmd, cwd=src, env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True)
        if p.returncode != 0:
            raise CheckError("build of %s failed:\n%s" % (pkg, p.stdout))
        return out

    def vh(self, race=False):
        key = "vhrace" if race else "vh"
        if key not in self._vh:
            self._vh[key] = self.gobuild(".", self.path(key), race=race)
        return self._vh[key]

    def ofxcli(self):
        if "cli" not in self._vh:
            self._vh["cli"] = self.gobuild("github.com/aclindsa/ofxgo/cmd/ofx", self.path("ofx"))
        return self._vh["cli"]

    def run(self, args, race=False, timeout=600, env=None, ok=(0,)):
        """Run a harness command; a dead harness is an error of the check."""
        e = goenv()
        if env:
            e.update(env)
        try:
            p = subprocess.run([self.vh(race)] + [str(a) for a in args], cwd=self.scratch, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out: %s" % (args,))
        out, err = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        if p.returncode not in ok and p.returncode != 2 or (p.returncode == 2 and ("fatal error:" in err or "panic:" in err or "runtime error" in err)):
            # The harness guards against panics it can recover from; this is a crash or runaway of the code under test.
            self.violation("crash", "the process died (%d) in %s: %s" % (p.returncode, args[0], err[:1500] + " ... " + err[-500:]))
        elif p.returncode not in ok:
            raise CheckError("harness failed (%d): %s\n%s\n%s" % (p.returncode, args, out[-3000:], err[-3000:]))
        return p.returncode, out, err

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg="", consts=None, inv=(), env=None, simulate=None, depth=None, workers=6, heap="4g",
            timeout=800, consumed=None, deadlock=False, label=None):
        """Run TLC; returns the list of emitted records (parsed, sorted)."""
        self._n += 1
        d = self.path("tlc%d" % self._n)
        os.mkdir(d)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        # A wrapper module binds the constants, so that they can be any TLA+ expression.
        consts = consts or {}
        with open(os.path.join(d, "Run.tla"), "w", encoding="utf8") as fh:
            fh.write("---- MODULE Run ----\nEXTENDS %s\n" % module)
            for k, v in consts.items():
                fh.write("c_%s == %s\n" % (k, v))
            fh.write("====\n")
        with open(os.path.join(d, "Run.cfg"), "w") as fh:
            fh.write(cfg or "SPECIFICATION Spec\n")
            if inv:
                fh.write("INVARIANTS %s\n" % " ".join(inv))
            if consts:
                fh.write("CONSTANTS\n" + "".join(" %s <- c_%s\n" % (k, k) for k in consts))
        out = os.path.join(d, "out.ndjson")
        open(out, "w").close()
        e = dict(os.environ)
        e.update(OUT=out)
        for k, v in (env or {}).items():
            e[k] = str(v)
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss400m", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8",
               "-Dsun.jnu.encoding=UTF-8", "-cp", JAR, "tlc2.TLC", "-config", "Run.cfg",
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-fp", "17",
               "-workers", str(1 if simulate else workers)]
        if not deadlock:
            cmd.append("-deadlock")
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed), "-depth", str(depth or 100)]
        cmd.append("Run.tla")
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        txt = p.stdout.decode("utf8", "replace")
        if p.returncode != 0:
            err = "\n".join(x for x in txt.splitlines() if x.startswith("Error:"))[:3000]
            ex = CheckError("TLC failed on %s (exit %d):\n%s\n...%s" % (module, p.returncode, err, txt[-5000:]))
            ex.full = txt
            raise ex
        gen = dist = 0
        m = None
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", txt):
            pass
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r"The number of states generated: (\d+)", txt)
            if m:
                gen = dist = int(m.group(1))
        recs = []
        parts = {}
        with open(out, encoding="utf8") as fh:
            for ln in fh:
                k, k2, piece, pieces, text = ln.split("|", 4)
                parts.setdefault((k, k2), [None] * int(pieces))[int(piece) - 1] = json.loads(text)
        for txts in sorted("".join(p) for p in parts.values()):
            # TLC garbles non-ASCII characters of states it keeps on disk; the specification writes them ~e~.
            recs.append(json.loads(txts.replace("~e~", "é漢")))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["runs"].append({"tlc": label or module, "mode": "simulate" if simulate else "exhaustive",
                                 "states": dist, "generated": gen, "emitted": len(recs),
                                 "wall_s": round(time.time() - t, 1)})
        shutil.rmtree(os.path.join(d, "meta"), True)
        return recs

    def write_cases(self, name, recs):
        p = self.path(name)
        with open(p, "w", encoding="utf8") as fh:
            for r in recs:
                fh.write(json.dumps(r, ensure_ascii=False) + "\n")
        return p

    def read(self, path):
        out = []
        for x in open(path, encoding="utf8"):
            try:
                out.append(json.loads(x))
            except ValueError:
                if not self.viol:      # a line cut short is only to be expected after a crash
                    raise CheckError("bad line in %s: %r" % (path, x[:200]))
        return out

    def sample(self, *xs, limit=6):
        for x in xs:
            if len(self.cov["samples"]) < limit:
                s = json.dumps(x, ensure_ascii=False)
                self.cov["samples"].append(x if len(s) < 1500 else s[:1500] + "...")

    # --------------------------------------------------------------- verdicts
    def violation(self, sig, why, case=None):
        for k in self.known:
            if re.search(k["match"], sig + " :: " + why):
                self.knownhit.setdefault(k["what"], 0)
                self.knownhit[k["what"]] += 1
                return
        self.viol.append({"sig": sig, "why": why, "case": case})

    def results(self, path, cases=None, count=None):
        """Read failing results {"id","ok","why","sig"} written by the harness."""
        for r in self.read(path):
            if not r.get("ok"):
                c = cases[r["id"] - 1] if cases is not None and 0 < r["id"] <= len(cases) else None
                self.violation(r.get("sig", ""), r.get("why", ""), c)
        if count:
            self.cov["traces_validated_against_impl"] += count

    def trace(self, module, trace, cfg=None, label=None, env=None, n=None, heap="4g"):
        """Validate a recorded trace; every event the specification refuses is a violation."""
        cnt = sum(1 for _ in open(trace, encoding="utf8"))
        if cnt == 0:
            raise CheckError("empty trace for " + module)
        e = {"TRACE": trace}
        e.update(env or {})
        recs = self.tlc(module, cfg or "SPECIFICATION Spec\nPOSTCONDITION Consumed\n", env=e, workers=1,
                        label=label or module + " (trace)", heap=heap)
        for r in recs:
            self.violation("trace:" + str(r["event"].get("op", "")),
                           "recorded event not allowed by the specification: %s" % json.dumps(r.get("event"), ensure_ascii=False)[:1500], r)
        self.cov["traces_validated_against_impl"] += cnt
        return cnt

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        for k in self.known:
            if k["what"] in self.knownhit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol), "known_findings_seen": self.knownhit}
        if not self.cov["samples"]:
            self.cov["samples"] = ["none"]
        json.dump(ev, open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1, ensure_ascii=False)
        rd = os.path.join(EVID, "replay")
        if self.viol:
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, self.prop + ".json")
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                       "rerun": "VERIF_SEED=%d VERIF_TIER=%s bin/check %s" % (self.seed, self.tier, self.prop),
                       "violations": self.viol[:200]}, open(p, "w"), indent=1, ensure_ascii=False)
            seen = set()
            for v in self.viol:
                if v["sig"] in seen or len(seen) > 12:
                    continue
                seen.add(v["sig"])
                print("  %s: %s" % (v["sig"], v["why"][:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("%d violating cases" % len(self.viol))
            return 1
        print("OK property=%s states=%d cases=%d wall=%.1fs" % (self.prop, self.cov["states"],
              self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def tla(x):
    """A Python value as a TLA+ expression: str, bool, int, tuple/list -> sequence, set -> set, dict -> record."""
    if isinstance(x, str):
        return json.dumps(x, ensure_ascii=False)
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, (tuple, list)):
        return "<<" + ", ".join(tla(y) for y in x) + ">>"
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(y) for y in x)) + "}"
    if isinstance(x, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(v)) for k, v in x.items()) + "]"
    return str(x)


def setc(xs):
    return "{" + ", ".join(tla(x) for x in xs) + "}"
