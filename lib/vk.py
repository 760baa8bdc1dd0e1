"""Shared machinery of the checks: recording calls to the real code, running TLC on the
specifications, verdicts, known findings and evidence files."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, random, warnings, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
warnings.simplefilter("ignore")


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout("call did not finish")


class limit:
    """Time limit for calls into the real code."""

    hits = 0

    def __init__(self, seconds=20):
        # once calls have hung, give the next ones less time
        self.seconds = seconds if limit.hits < 3 else max(1, seconds / 10)

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, t, v, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if t is Timeout:
            limit.hits += 1
        return False


def attempt(fn, seconds=20):
    """Result of a call: ("ok", value) or ("raise", exception type name, text)."""
    try:
        with limit(seconds):
            return ("ok", fn())
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa
        return ("raise", type(e).__name__, str(e)[:200])


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.dir = tempfile.mkdtemp(prefix=f"vk-{pid}-")
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.fails = []  # (key, description, replay payload)
        self.counts = {}

    # -- sizes -------------------------------------------------------------
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def count(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, extra=(), timeout=None, workers=None, heap="6g"):
        """Runs TLC on spec/<module>.tla; returns its output. Any TLC error that is not the
        verdict of a specification is a failure of the machinery."""
        meta = tempfile.mkdtemp(dir=self.dir)
        cfg = cfg or module + ".cfg"
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC,
               "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
               "-config", os.path.join(SPEC, cfg), "-metadir", meta, "-nowarning", "-deadlock",
               "-workers", str(workers or os.cpu_count() or 4), *extra, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        timeout = timeout or (300 if self.quick else 840)
        try:
            p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors="replace")
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as x:
            out = x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
            rc = -9
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0].replace(",", ""))
            self.states += int(m[-1][1].replace(",", ""))
        return rc, out

    def machinery(self, what, out=""):
        print(f"ERROR: machinery of {self.pid}: {what}")
        if out:
            print(out[-6000:])
        self.cleanup()
        sys.exit(3)

    def model(self, module, cfg=None, **kw):
        """Model checks the design: a violated invariant here is an error of the specification."""
        rc, out = self.tlc(module, cfg, **kw)
        if rc != 0:
            self.machinery(f"TLC on {module}/{cfg} returned {rc}", out)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.cov.setdefault("models", []).append(
            {"module": module, "cfg": cfg or module + ".cfg",
             "distinct_states": int(m[-1][1].replace(",", "")) if m else None})
        return out

    @staticmethod
    def lines(out, tag):
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"' + tag):
                try:
                    yield json.loads(line)[len(tag):].strip()
                except json.JSONDecodeError:
                    continue

    def write(self, traces, name="traces.ndjson"):
        path = os.path.join(self.dir, name)
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        return path

    def validate(self, module, traces, cfg="Replay.cfg", env=None, **kw):
        """Checks recorded traces against spec/<module>.tla. Each trace: {"ev": [...], ...}.
        "case" (any JSON) and "_" keys are for reports only and are not given to TLC."""
        if not traces:
            return {}
        slim = [{k: v for k, v in t.items() if k != "case" and not k.startswith("_")} for t in traces]
        if any(not t["ev"] for t in slim):
            self.machinery("empty trace")
        path = self.write(slim, f"{module}.ndjson")
        rc, out = self.tlc(module, cfg, env={**(env or {}), "TRACE": path}, **kw)
        self.results = {}
        for s in self.lines(out, "@@R"):
            a, b, js = s.split(" ", 2)
            self.results[int(a) - 1, int(b) - 1] = json.loads(js)
        verdict = {}
        for s in self.lines(out, "@@V"):
            a, b, js = s.split(" ", 2)
            verdict[int(a)] = (int(b), json.loads(js))
        if rc != 0 or len(verdict) != len(traces):
            missing = [i for i in range(1, len(traces) + 1) if i not in verdict]
            self.machinery(f"TLC on {module} returned {rc}, {len(missing)} traces without a verdict", 
                           out + "\nfirst missing: " + json.dumps(slim[missing[0] - 1] if missing else None)[:3000])
        self.validated += len(traces)
        for i, t in enumerate(traces):
            at, clauses = verdict[i + 1]
            if clauses:
                self.fail(t, clauses, at, module)
        if len(self.samples) < 3:
            self.samples.append({"spec": module, "trace": json.loads(json.dumps(slim[0]))} if len(json.dumps(slim[0])) < 4000
                                else {"spec": module, "trace_excerpt": json.dumps(slim[0])[:2000]})
        return verdict

    def fail(self, trace, clauses, at, module):
        case = trace.get("case")
        key = trace.get("_key") or "|".join(sorted(clauses))
        self.fails.append({"clauses": sorted(clauses), "event": at, "spec": module, "key": key,
                           "case": case if case is not None else trace.get("ev")})

    def guard(self, fn, *a, case=None, seconds=60, **kw):
        """Runs a recorder; if observing the real code fails, that is an observation too."""
        try:
            with limit(seconds):
                return fn(*a, **kw)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # noqa
            tb = traceback.format_exc()
            self.fails.append({"clauses": ["observation-failed:" + type(e).__name__], "event": 0, "spec": "-",
                               "key": "observation-failed", "case": {"args": repr(case if case is not None else a)[:1500], "error": tb[-1500:]}})
            return None

    # -- verdict -----------------------------------------------------------
    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def known(self):
        try:
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                return [k for k in json.load(f)["findings"] if k["property"] == self.pid]
        except FileNotFoundError:
            return []

    def finish(self):
        known = self.known()
        new, seen = [], {}
        for f in self.fails:
            hit = None
            for k in known:
                if f["key"] == k["key"] and set(f["clauses"]) <= set(k["clauses"]):
                    hit = k
                    break
            if hit is None:
                new.append(f)
            else:
                seen[hit["key"]] = hit
        for k in seen.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "samples": self.samples or ["none"],
               "counts": self.counts, **self.cov}
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        self.cleanup()
        if new:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", self.pid + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "violations": new[:50]}, f, indent=1, default=str)
            kinds = {}
            for f in new:
                kinds.setdefault("|".join(f["clauses"]), []).append(f)
            for k, v in list(kinds.items())[:10]:
                print(f"  {len(v)} x {k} e.g. {json.dumps(v[0]['case'], default=str)[:600]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            sys.exit(1)
        print(f"OK property={self.pid}: {self.validated} histories validated, {self.states} states, {ev['wall_s']} s {json.dumps(self.counts)}")
        sys.exit(0)


def main(pid, run):
    c = Check(pid)
    try:
        run(c)
    except SystemExit:
        raise
    except BaseException:  # noqa
        print(f"ERROR: machinery of {pid}")
        traceback.print_exc()
        c.cleanup()
        sys.exit(3)
    c.finish()
