"""Driver library: TLC runs, harness runs, trace validation, evidence."""
import json, math, os, random, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build
from build import VERIF, BUILD, CLASSES, TLAJAR, COMMJAR

SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
NPAR = 4


class Unexplained(Exception):
    """evaluation of one record failed"""
    def __init__(self, at, text):
        super().__init__(text)
        self.at = at


class Infra(Exception):
    """The machinery could not decide (exit status 2)."""


def enc(x):
    """JSON value for TLC: floats become <<hi, lo>> pairs."""
    if isinstance(x, bool) or isinstance(x, str):
        return x
    if isinstance(x, int):
        if not -2**31 <= x < 2**31:
            raise Infra("integer %d too wide for TLC" % x)
        return x
    if x is None:
        x = float("nan")
    if isinstance(x, float):
        hi, lo = struct.unpack(">ii", struct.pack(">d", x))
        return [hi, lo]
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    return [enc(v) for v in x]


def tlc_cmd(module, cfg, meta, heap="3g", workers="1", extra=()):
    return ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
            "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta,
            "-cp", CLASSES + ":" + TLAJAR + ":" + COMMJAR, "tlc2.TLC",
            "-workers", workers, "-metadir", meta, "-noGenerateSpecTE",
            "-config", cfg, *extra, module]


def tidy(out):
    return "\n".join(l for l in out.splitlines() if l.strip() and not l.startswith(("Parsing file", "Semantic processing")))


class Ctx:
    def __init__(self, pid, tier, seed, title):
        self.pid, self.tier, self.seed, self.title = pid, tier, seed, title
        self.quick = tier == "quick"
        self.rng = random.Random("%s-%s-%s" % (seed, pid, tier))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.models, self.notes = [], [], []
        self.violations, self.known = [], []
        self.scratch = tempfile.mkdtemp(prefix="mocc-%s-" % pid)
        self.known_keys = load_known(pid)
        self.level = "model_checking"
        self.assumptions = []

    def path(self, name):
        return os.path.join(self.scratch, name)

    def n(self, quick, thorough=None):
        """number of random cases for the tier"""
        return quick if self.quick else (thorough or quick * 8)

    # ------------------------------------------------------------ TLC model
    def model(self, module, cfg=None, workers="4", timeout=800, extra=(), env=None, heap="4g"):
        """Model-check spec/<module>.tla with spec/<cfg>.cfg; count states."""
        cfg = cfg or module
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.scratch)
        e = dict(os.environ, **(env or {}))
        cmd = tlc_cmd(os.path.join(SPEC, module + ".tla"), os.path.join(SPEC, cfg + ".cfg"),
                      meta, heap, workers, extra)
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=meta)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", p.stdout)
        if p.returncode != 0 or not m:
            raise Infra("model %s/%s failed (%d):\n%s" % (module, cfg, p.returncode, tidy(p.stdout)[-3000:] + p.stderr[-500:]))
        g, d = (int(x.replace(",", "")) for x in m.groups())
        self.states += d
        self.transitions += g
        self.models.append({"module": module, "cfg": cfg, "states": d, "transitions": g})
        shutil.rmtree(meta, ignore_errors=True)
        return p.stdout

    def generate(self, module, cfg=None, timeout=600, env=None, extra=()):
        """Run a generator spec that appends JSON lines with ndJsonSerialize /
        PrintT(ToJson(..)) lines starting with GEN; returns the objects."""
        out = self.model(module, cfg, workers="1", timeout=timeout, env=env, extra=extra)
        res = []
        for line in out.splitlines():
            if line.startswith('"GEN '):
                res.append(json.loads(json.loads(line)[4:]))
        if not res:
            raise Infra("generator %s produced nothing" % module)
        return res

    # ------------------------------------------------------------- harness
    def harness(self, name, cases, timeout=120, par=NPAR, env=None):
        """Run the cases on the real code; one result object per case."""
        if not cases:
            return []
        par = max(1, min(par, len(cases)))
        shards = [list(range(k, len(cases), par)) for k in range(par)]
        res = [None] * len(cases)

        def one(k):
            idx = shards[k]
            d = tempfile.mkdtemp(prefix="h", dir=self.scratch)
            cf, of = os.path.join(d, "cases"), os.path.join(d, "out")
            with open(cf, "w") as f:
                for i in idx:
                    f.write(json.dumps(cases[i]) + "\n")
            open(of, "w").close()
            done = 0
            outs = []
            while done < len(idx):
                e = dict(os.environ, OMP_NUM_THREADS="1", **(env or {}))
                with open(os.path.join(d, "log"), "w") as lf:
                    p = subprocess.run([build.exe(name), cf, of, str(done), str(timeout)],
                                       stdout=lf, stderr=subprocess.STDOUT, cwd=d, env=e)
                with open(of) as f:
                    txt = f.read()
                if txt and not txt.endswith("\n"):
                    txt = txt[:txt.rfind("\n") + 1]
                lines = txt.splitlines()
                outs = [json.loads(s) for s in lines]
                if len(outs) >= len(idx):
                    break
                if p.returncode == 0:
                    raise Infra("harness %s stopped early" % name)
                if p.returncode == 2 and len(outs) == done and done == 0:
                    pass
                with open(os.path.join(d, "log"), errors="replace") as f:
                    tail = f.read()[-300:]
                outs.append({"crash": p.returncode, "tail": tail})
                with open(of, "w") as f:
                    for o in outs:
                        f.write(json.dumps(o) + "\n")
                done = len(outs)
            for i, o in zip(idx, outs):
                res[i] = o
            shutil.rmtree(d, ignore_errors=True)
        with ThreadPoolExecutor(par) as ex:
            for fut in [ex.submit(one, k) for k in range(par)]:
                fut.result()
        return res

    # ---------------------------------------------------- trace validation
    def tlc_trace(self, module, records, par=NPAR, timeout=800, heap="3g", count=True, group=None):
        """Validate records with spec/<module>.tla; returns {index: reason} of
        rejected ones.  `group` keeps consecutive records together: a function
        giving True where a new trace starts."""
        if not records:
            return {}
        starts = [i for i in range(len(records)) if group is None or group(records[i])]
        if starts[0] != 0:
            raise Infra("trace does not begin with a start record")
        bounds = starts + [len(records)]
        spans = [(bounds[j], bounds[j + 1]) for j in range(len(starts))]
        par = max(1, min(par, len(spans), (len(records) + 19) // 20))
        shards = [[] for _ in range(par)]
        for j, sp in enumerate(spans):
            shards[j % par].extend(range(*sp))
        cfg = os.path.join(SPEC, module + ".cfg")
        rej = {}

        def one(idx):
            # A record the specification cannot evaluate (a value outside the
            # domain of its definitions) is one it does not explain.
            lost, g, d = {}, 0, 0
            while idx:
                try:
                    bad, g1, d1 = judge(idx)
                    bad.update(lost)
                    return bad, g + g1, d + d1
                except Unexplained as e:
                    if group is not None or len(lost) >= 3:
                        if group is None:
                            break
                        raise Infra(str(e))
                    k = locate(idx) if e.at is None else e.at
                    lost[idx[k]] = "outside the domain of the specification"
                    idx = idx[:k] + idx[k + 1:]
            return lost, g, d

        def locate(idx):
            lo, hi = 0, len(idx)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                try:
                    judge(idx[lo:mid])
                    lo = mid
                except Unexplained:
                    hi = mid
            return lo

        def judge(idx):
            meta = tempfile.mkdtemp(prefix="tr", dir=self.scratch)
            tf = os.path.join(meta, "trace.ndjson")
            with open(tf, "w") as f:
                for i in idx:
                    f.write(json.dumps(enc(records[i])) + "\n")
            e = dict(os.environ, TRACE=tf)
            p = subprocess.run(tlc_cmd(os.path.join(SPEC, module + ".tla"), cfg, meta, heap),
                               capture_output=True, text=True, timeout=timeout, env=e, cwd=meta)
            m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", p.stdout)
            if p.returncode != 0 or not m:
                keep = os.path.join(BUILD, "failed-trace-%s.ndjson" % self.pid)
                shutil.copy(tf, keep)
                at = re.findall(r"^(?:/\\ )?l = (\d+)$", p.stdout, re.M)
                if re.search(r"Attempted to|evaluating the|unexpected exception", p.stdout) \
                        and not re.search(r"OutOfMemory|StackOverflow|heap space", p.stdout + p.stderr) and p.returncode not in (150, 151, 152, 153):
                    shutil.rmtree(meta, ignore_errors=True)
                    raise Unexplained(int(at[-1]) - 1 if at else None, tidy(p.stdout)[-3500:])
                raise Infra("trace spec %s failed (%d):\n%s\n%s" % (module, p.returncode, tidy(p.stdout)[-3500:], p.stderr[-500:]))
            g, d = (int(x.replace(",", "")) for x in m.groups())
            bad = {}
            txt = p.stdout
            for mm in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*"(.*?)"\s*>>', txt, re.S):
                k = int(mm.group(1)) - 1
                bad.setdefault(idx[k], re.sub(r"\s+", " ", mm.group(2)))
            if txt.count('"REJECT"') != len(re.findall(r'<<\s*"REJECT",\s*(\d+),\s*"(.*?)"\s*>>', txt, re.S)):
                raise Infra("unparsed rejection in TLC output:\n" + txt[-2000:])
            if group is None and d != len(idx) + 1:
                raise Infra("TLC visited %d states for %d records" % (d, len(idx)))
            shutil.rmtree(meta, ignore_errors=True)
            return bad, g, d
        with ThreadPoolExecutor(par) as ex:
            for bad, g, d in ex.map(one, [s for s in shards if s]):
                rej.update(bad)
                if count:
                    self.transitions += g
                    self.states += d
        if count:
            self.traces += len(spans)
        return rej

    # ---------------------------------------------------- standard pipeline
    def conform(self, harness, module, cases, timeout=120, par=NPAR, env=None, desc=None,
                merge=None, tlcpar=NPAR, heap="3g"):
        """cases -> real code -> records {in, out} -> TLC. Re-runs rejections."""
        for i, c in enumerate(cases):
            c.setdefault("key", "case-%d" % i)
        mk = merge or (lambda c, o: {"in": c, "out": norm_out(o)})
        outs = self.harness(harness, cases, timeout, par, env)
        recs = [mk(c, o) for c, o in zip(cases, outs)]
        rej = self.tlc_trace(module, recs, tlcpar, heap=heap)
        if cases:
            self.sample({"harness": harness, "spec": module, "cases": len(cases),
                         "example": shorten(cases[len(cases) // 2])})
        if rej:
            idx = sorted(rej)[:40]
            for _ in range(3):
                outs2 = self.harness(harness, [cases[i] for i in idx], timeout, par, env)
                rej2 = self.tlc_trace(module, [mk(cases[i], o) for i, o in zip(idx, outs2)], tlcpar, count=False, heap=heap)
                if rej2:
                    break
            for j, i in enumerate(idx):
                if j in rej2:
                    self.report(cases[i], rej2[j], outs2[j], harness, module)
            if not rej2:
                raise Infra("rejections of %s did not repeat: %s" % (module, list(rej.values())[:5]))
        return recs, rej

    def report(self, case, reason, out, harness="", module=""):
        key = case.get("key", "")
        for k, what in self.known_keys.items():
            if k == key:
                self.known.append((k, what))
                return
        self.violations.append({"case": case, "reason": reason, "out": out,
                                "harness": harness, "spec": module})

    def sample(self, s):
        if len(self.samples) < 24:
            self.samples.append(s)

    # -------------------------------------------------------------- finish
    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples, "models": self.models},
              "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions,
              "violations": len(self.violations)}
        if self.violations:
            ev["coverage"]["rejected"] = [{"reason": v["reason"], "case": shorten(v["case"])} for v in self.violations[:10]]
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, what in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        rp = os.path.join(EVID, "replay-%s.json" % self.pid)
        if os.path.exists(rp):
            os.remove(rp)
        if self.violations:
            rp = os.path.join(EVID, "replay-%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump(self.violations[:int(os.environ.get("VERIF_KEEP", 20))], f, indent=1, default=str)
            for v in self.violations[:3]:
                print("  rejected: %s  [%s]" % (v["reason"], json.dumps(shorten(v["case"]))[:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def norm_out(o):
    """every record has the fields exc and crash"""
    r = dict(o)
    r["exc"] = str(r["exc"]) if "exc" in r else ""
    r["crash"] = 1 if "crash" in r else 0
    r.pop("tail", None)
    return r


def shorten(x, lim=600):
    s = json.dumps(x, default=str)
    if len(s) <= lim:
        return x
    return s[:lim] + "..."


def load_known(pid):
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res
