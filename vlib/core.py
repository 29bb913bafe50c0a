"""Shared machinery of the checks: TLC runs, harness builds, driving the real code,
trace validation by TLC, verdicts, evidence files."""
import json, os, re, subprocess, sys, time, shutil, threading, random, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not do its job (never a verdict about the code)."""


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GO111MODULE="on", GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod")
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:" + e.get("PATH", "")
    return e


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.work = os.path.join(VERIF, ".work", "%s.%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(os.path.join(self.work, "tmp"))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.notes = {}
        self.violations = []      # list of (key, dict)
        self.model_runs = []
        self.assumptions = []
        self._lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough else q

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def path(self, *p):
        return os.path.join(self.work, *p)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, name=None, workers=4, args=(), env=None, timeout=600, heap="3g", expect_ok=True):
        """Run TLC on spec/<module>.tla with the cfg text given. Returns a dict."""
        name = name or module
        d = self.path("tlc_" + name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        for fn in os.listdir(SPEC):
            if fn.endswith(".tla"):
                os.symlink(os.path.join(SPEC, fn), os.path.join(d, fn))
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m",
               "-Djava.io.tmpdir=" + self.path("tmp"), "-cp", TLA_CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", module + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % name)
        out = r.stdout
        with open(os.path.join(d, "out.txt"), "w") as f:
            f.write(out)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (0, 0)
        if m:
            gen, dist = [int(x.replace(",", "")) for x in m[-1]]
        else:
            m = re.findall(r"states generated: ([\d,]+)|The number of states generated: ([\d,]+)", out)
            if m:
                gen = int((m[-1][0] or m[-1][1]).replace(",", ""))
                dist = gen
        res = dict(rc=r.returncode, out=out, generated=gen, distinct=dist, wall=time.time() - t, name=name)
        if expect_ok and r.returncode != 0:
            tail = "\n".join(out.splitlines()[-60:])
            raise CheckError("TLC failed on %s (rc %d):\n%s" % (name, r.returncode, tail))
        return res

    def model_check(self, module, cfg, name=None, **kw):
        """Model-check the design. Anything but success is an error of the specification."""
        r = self.tlc(module, cfg, name=name, **kw)
        with self._lock:
            self.states += r["distinct"]
            self.transitions += r["generated"]
            self.model_runs.append(dict(run=r["name"], distinct=r["distinct"], generated=r["generated"], wall_s=round(r["wall"], 1)))
        self.log("model checked %s: %d distinct / %d generated states in %.1fs" % (r["name"], r["distinct"], r["generated"], r["wall"]))
        return r

    def sanity_mutant(self, module, cfg, name, **kw):
        """A deliberately wrong variant of the design must be rejected by TLC (vacuity guard)."""
        kw["expect_ok"] = False
        r = self.tlc(module, cfg, name=name, **kw)
        if r["rc"] not in (12, 13):
            raise CheckError("vacuous model: the wrong design %s was not rejected by TLC (rc %d)\n%s" % (name, r["rc"], r["out"][-2000:]))
        self.log("wrong design %s is rejected by TLC, as it must be" % name)
        self.model_runs.append(dict(run=name + " (wrong design, rejected)", distinct=r["distinct"], generated=r["generated"], wall_s=round(r["wall"], 1)))

    @staticmethod
    def emitted(out, tag="CASE"):
        """Values printed by the specification with Emit: "CASE {json}"."""
        res = []
        pat = '"%s ' % tag
        for line in out.splitlines():
            if line.startswith(pat) and line.endswith('"'):
                s = line[len(pat):-1].replace('\\"', '"').replace("\\\\", "\\")
                res.append(json.loads(s))
        return res

    def generate(self, module, cfg, name=None, tag="CASE", num=None, depth=60, seed=None, **kw):
        """Behaviours/cases produced by TLC (simulation if num is given, else exhaustively)."""
        args = list(kw.pop("args", ()))
        if num is not None:
            args = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed if seed is None else seed)] + args
            kw.setdefault("workers", 1)
        r = self.tlc(module, cfg, name=name or (module + "_gen"), args=args, **kw)
        cases = self.emitted(r["out"], tag)
        seen, uniq = set(), []
        for c in cases:
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(c)
        uniq.sort(key=lambda c: json.dumps(c, sort_keys=True))
        with self._lock:
            self.model_runs.append(dict(run=r["name"], distinct=r["distinct"], generated=r["generated"], cases=len(uniq), wall_s=round(r["wall"], 1)))
            self.transitions += r["generated"]
        self.log("generated %d cases from %s in %.1fs" % (len(uniq), r["name"], r["wall"]))
        return uniq

    # -------------------------------------------------------------- harness
    def build(self, target="./cmd/drv", out="drv", extra=()):
        o = self.path(out)
        extra = list(extra)
        if REPO != "/repo":       # development only: a scratch copy of the repository
            h = os.path.join(VERIF, "harness")
            with open(os.path.join(h, "go.mod")) as f:
                gm = f.read().replace("=> /repo", "=> " + REPO)
            with open(self.path("go.mod"), "w") as f:
                f.write(gm)
            shutil.copy(os.path.join(h, "go.sum"), self.path("go.sum"))
            extra.append("-modfile=" + self.path("go.mod"))
        cmd = ["go", "build"] + extra + ["-o", o, target]
        for attempt in (1, 2):
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=goenv(), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                return o
        raise CheckError("harness does not build:\n" + r.stdout[-4000:])

    def build_repo(self, target, out):
        o = self.path(out)
        r = subprocess.run(["go", "build", "-o", o, target], cwd=REPO, env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("repo does not build:\n" + r.stdout[-4000:])
        return o

    def _run_shard(self, binary, family, cases, tag, env, per_case, gomaxprocs):
        """Run cases (list) in one or more processes; returns {id: observation}."""
        todo = list(cases)
        obs = {}
        n = 0
        while todo:
            n += 1
            inp = self.path("%s_%d.in" % (tag, n))
            outp = self.path("%s_%d.out" % (tag, n))
            with open(inp, "w") as f:
                for c in todo:
                    f.write(json.dumps(c) + "\n")
            e = dict(os.environ)
            tmp = self.path("tmp", "%s_%d" % (tag, n))
            os.makedirs(tmp, exist_ok=True)
            e.update(TMPDIR=tmp, GOMAXPROCS=str(gomaxprocs), CONN_TIMEOUT="10m", DEBUG_LVL="0", HOME=tmp,
                     VERIF_CASE_TIMEOUT=str(per_case), GOTRACEBACK="all")
            e.update(env or {})
            err = self.path("%s_%d.err" % (tag, n))
            with open(err, "w") as ef:
                p = subprocess.Popen([binary, family, inp, outp], cwd=tmp, env=e, stdout=ef, stderr=ef)
                try:
                    rc = p.wait(timeout=per_case * (len(todo) + 2) + 120)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc = -99
            if rc == -9:
                raise CheckError("the driver was killed (out of memory?)")
            begun = None
            done = set()
            if os.path.exists(outp):
                with open(outp) as f:
                    for line in f:
                        if not line.endswith("\n"):
                            continue
                        o = json.loads(line)
                        if o.get("begin"):
                            begun = o["id"]
                            continue
                        obs[o["id"]] = o
                        done.add(o["id"])
            shutil.rmtree(tmp, ignore_errors=True)
            rest = [c for c in todo if c["id"] not in done]
            if rc == 0 and not rest:
                break
            if rc == 0 and rest:
                raise CheckError("driver ended early without a result (%s)" % family)
            if begun is None:
                with open(err) as f:
                    raise CheckError("driver failed to start (%s): %s" % (family, f.read()[-3000:]))
            if begun in done:      # hang reported for this case, or a late crash right after it
                if len(rest) == len(todo):
                    raise CheckError("driver makes no progress")
                if not obs[begun].get("hang"):
                    # crashed after reporting the case: attribute it to that case (background goroutine)
                    with open(err) as f:
                        txt = f.read()
                    obs[begun] = dict(id=begun, crash=True, stderr=txt[-3000:])
            else:
                with open(err) as f:
                    txt = f.read()
                m = re.search(r"(panic: .*|fatal error: .*|signal: .*)", txt)
                obs[begun] = dict(id=begun, crash=True, why=(m.group(1) if m else "rc %d" % rc), stderr=txt[-3000:])
                rest = [c for c in rest if c["id"] != begun]
            todo = rest
            hung = sum(1 for o in obs.values() if o.get("hang"))
            died = sum(1 for o in obs.values() if o.get("crash"))
            if todo and (hung >= 2 or died >= 12):
                break       # enough evidence: the remaining cases of this shard are skipped
        return obs

    def drive(self, binary, family, cases, shards=None, env=None, per_case=30, gomaxprocs=2, confirm=True, isolate=False):
        """Run the real code on every case. Crashes and hangs are confirmed in isolation."""
        if not cases:
            return {}
        t = time.time()
        ids = [c["id"] for c in cases]
        assert len(set(ids)) == len(ids)
        shards = min(shards or max(1, NCPU - 1), len(cases))
        parts = [cases[i::shards] for i in range(shards)]
        if isolate:           # every case in a process of its own
            parts = [[c] for c in cases]
        with ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(lambda ip: self._run_shard(binary, family, ip[1], "%s_s%d" % (family, ip[0]), env, per_case, gomaxprocs), enumerate(parts)))
        obs = {}
        for r in rs:
            obs.update(r)
        skipped = [i for i in ids if i not in obs]
        if skipped:
            self.log("%d %s cases skipped after repeated crashes or hangs" % (len(skipped), family))
        hung = [i for i in ids if i in obs and obs[i].get("hang")]
        if hung and confirm:
            byid = {c["id"]: c for c in cases}
            self.log("%d case(s) did not end, confirming in isolation: %s" % (len(hung), hung[:5]))
            os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", "replay", self.pid + ".hang"), "w") as f:
                json.dump([dict(case=byid[i], stacks=obs[i].get("stderr")) for i in hung[:3]], f)
            seen = 0
            while hung:
                part, hung = hung[:4], hung[4:]
                with ThreadPoolExecutor(4) as ex:
                    rs = list(ex.map(lambda i: (i, self._run_shard(binary, family, [byid[i]], "%s_c%s" % (family, i), env, per_case * 3, 2)), part))
                for i, r in rs:
                    obs[i] = r[i]       # a case that completes when given more time is no hang
                    seen += bool(r[i].get("hang"))
                if seen and hung:
                    for i in hung:      # one is confirmed: the others add nothing
                        del obs[i]
                    break
        # a crash with a Go panic in the code under test is real even if it is a race
        self.log("drove %d %s cases through the real code in %.1fs" % (len(cases), family, time.time() - t))
        return obs

    # ----------------------------------------------------- trace validation
    def validate(self, module, lines, name=None, cfg=None, env=None, chunk=4000, shards=4, heap="3g", timeout=800):
        """Let TLC check observation lines; returns list of (id, text) for rejected lines."""
        name = name or module
        rejects = []
        chunks = [lines[i:i + chunk] for i in range(0, len(lines), chunk)]
        if len(chunks) == 1 and len(lines) > 200 and shards > 1 and not any("run" in x for x in lines[:1]):
            k = (len(lines) + shards - 1) // shards
            chunks = [lines[i:i + k] for i in range(0, len(lines), k)]

        def one(ix):
            i, ch = ix
            tf = self.path("%s_%d.ndjson" % (name, i))
            with open(tf, "w") as f:
                for o in ch:
                    f.write(json.dumps(o) + "\n")
            e = dict(env or {})
            e["TRACE"] = tf
            r = self.tlc(module, cfg or "SPECIFICATION TSpec\nPOSTCONDITION TAllRead\nCHECK_DEADLOCK FALSE\n",
                         name="%s_%d" % (name, i), workers=1, env=e, heap=heap, timeout=timeout)
            out = [(str(o["id"]), o.get("why", "")) for o in self.emitted(r["out"], "REJECT")]
            return out, r
        with ThreadPoolExecutor(max(1, min(len(chunks), shards))) as ex:
            for out, r in ex.map(one, enumerate(chunks)):
                rejects += out
                self.transitions += r["generated"]
        self.validated += len(lines)
        self.log("TLC validated %d observations against %s, %d rejected" % (len(lines), module, len(rejects)))
        return rejects

    def judge(self, binary, family, cases, module, keep=(), key=None, name=None, vkw=None, **kw):
        """Run the cases on the real code and let TLC judge every observation."""
        if not cases:
            return {}
        if self.violations and not self.thorough and time.time() - self.t0 > 240:
            self.log("violated already: %d %s cases skipped" % (len(cases), family))
            return {}
        obs = self.drive(binary, family, cases, **kw)
        lines = []
        byid = {c["id"]: c for c in cases}
        for c in cases:
            if c["id"] not in obs:
                continue
            o = dict(obs[c["id"]])
            why, err = o.pop("why", None), o.pop("stderr", None)
            line = {k: c[k] for k in keep if k in c}
            line.update(o)
            lines.append(line)
        for i, why in self.validate(module, lines, name=name or "%s_%s" % (module, family), **(vkw or {})):
            o = obs[i]
            k = "%s/%s: %s" % (family, key(byid[i]) if key else byid[i].get("kind", ""), why)
            self.violation(k, dict(case=byid[i], observed=o, why=why))
        if lines and cases[0]["id"] in obs:
            self.sample(dict(family=family, case=cases[0], observed=obs[cases[0]["id"]]))
        return obs

    # ------------------------------------------------------------- verdicts
    def violation(self, key, detail):
        self.violations.append((key, detail))

    def sample(self, obj):
        if len(self.samples) < 4:
            s = json.dumps(obj)
            self.samples.append(obj if len(s) < 3000 else s[:3000])

    def finish(self, level="model_checking"):
        known = load_known().get(self.pid, [])
        new = []
        hit = {}
        for key, det in self.violations:
            k = [f for f in known if re.search(f["match"], key)]
            if k:
                hit.setdefault(k[0]["what"], []).append(key)
            else:
                new.append((key, det))
        for f in known:
            if f["what"] in hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]), flush=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=self.samples or ["none"], model_runs=self.model_runs)
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if new:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + ".json")
            with open(rp, "w") as f:
                json.dump([dict(key=k, detail=d) for k, d in new[:50]], f, indent=1)
            for k, d in new[:5]:
                self.log("violating:", k, json.dumps(d)[:400])
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(rp, VERIF)), flush=True)
            rc = 1
        self.log("done rc=%d violations=%d (known %d)" % (rc, len(new), sum(map(len, hit.values()))))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        return rc


def load_known():
    """known_findings.json: {"open": [{"property","match","what"}], "fixed": [...]}"""
    p = os.path.join(VERIF, "known_findings.json")
    res = {}
    if os.path.exists(p):
        with open(p) as f:
            for k in json.load(f).get("open", []):
                res.setdefault(k["property"], []).append(k)
    return res


def main(pid, fn):
    ctx = Ctx(pid)
    try:
        fn(ctx)
        rc = ctx.finish()
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e), flush=True)
        rc = 3
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 4
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
