"""Common machinery of the checks: running TLC, running drivers, evidence, verdicts."""
import itertools, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
CP = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA)
SPEC = os.path.join(ROOT, "spec")
NPROC = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """The check itself could not be carried out."""


def build_java(dest=None):
    """Compile the operator override; returns the class directory."""
    src = os.path.join(ROOT, "java", "RatOverrides.java")
    dest = dest or os.path.join(ROOT, "build", "java")
    cls = os.path.join(dest, "RatOverrides.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return dest
    os.makedirs(dest, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="vjava", dir=dest)
    r = subprocess.run(["javac", "-nowarn", "-cp", CP, "-d", tmp, src], capture_output=True, text=True)
    if r.returncode:
        raise CheckError("javac failed: " + r.stderr[-2000:])
    for f in os.listdir(tmp):
        os.replace(os.path.join(tmp, f), os.path.join(dest, f))
    os.rmdir(tmp)
    return dest


class Run:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = sum(map(ord, os.environ["VERIF_SEED"]))
        self.quick = self.tier == "quick"
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.java = build_java()
        self.states = 0
        self.transitions = 0
        self.events = 0
        self.histories = 0
        self.cases_from_tlc = 0
        self.samples = []
        self.failures = []      # dicts: case, event, clause, expected
        self.known = {}
        self.extra = {}
        self._n = 0
        self.serial = itertools.count()
        self.lock = threading.Lock()
        self.pending = []

    # ---- TLC ----
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=600, heap="1500m", args=()):
        meta = os.path.join(self.tmp, "meta%d" % next(self.serial))
        cmd = ["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + self.tmp,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides",
               "-cp", CP + ":" + self.java, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
               "-metadir", meta, "-config", cfg or module + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        if m:
            with self.lock:
                self.transitions += int(m.group(1))
                self.states += int(m.group(2))
        return r

    def model(self, module, consts, workers=1, timeout=600, cfg=None):
        """Model-check a module; returns the cases it printed."""
        path = os.path.join(self.tmp, "%s%d.cfg" % (module, next(self.serial)))
        base = open(os.path.join(SPEC, cfg or module + ".cfg")).read()
        with open(path, "w") as f:
            f.write(base + "\nCONSTANTS\n" + "".join("  %s = %s\n" % (k, tla(v)) for k, v in consts.items()))
        r = self.tlc(module, cfg=path, workers=workers, timeout=timeout)
        if "Model checking completed. No error has been found" not in r.stdout:
            text = "\n".join(x for x in r.stdout.splitlines() if not x.startswith('"CASE '))
            raise CheckError("the specification model %s failed:\n%s" % (module, text[-4000:] + r.stderr[-500:]))
        cases = []
        for line in r.stdout.splitlines():
            if line.startswith('"CASE '):
                cases.append(json.loads(json.loads(line)[5:]))
        self.cases_from_tlc += len(cases)
        return cases

    def side(self, f, *args):
        """Do something while the rest of the check goes on; its errors count when the check finishes."""
        ex = ThreadPoolExecutor(1)
        self.pending.append(ex.submit(f, *args))
        ex.shutdown(wait=False)

    # ---- drivers ----
    def drive(self, driver, cases, nproc=None, timeout=500):
        """Run a driver over cases in parallel; returns the list of histories (lists of events)."""
        nproc = nproc or NPROC
        nproc = max(1, min(nproc, (len(cases) + 19) // 20))
        parts = [cases[i::nproc] for i in range(nproc)]
        def one_part(part, k):
            fi = os.path.join(self.tmp, "cases%d_%s.json" % (self._n, k))
            fo = os.path.join(self.tmp, "events%d_%s.ndjson" % (self._n, k))
            with open(fi, "w") as f:
                for c in part:
                    f.write(json.dumps(c) + "\n")
            e = dict(os.environ)
            e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="%s:%s" % (REPO, os.path.join(ROOT, "harness")),
                     PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1",
                     PYTHONPYCACHEPREFIX=os.path.join(self.tmp, "pyc"))
            try:
                r = subprocess.run([PY, "-W", "ignore", os.path.join(ROOT, "harness", driver + ".py"), fi, fo],
                                   cwd=self.tmp, env=e, capture_output=True, text=True, timeout=timeout)
                rc, err = r.returncode, r.stdout[-1500:] + r.stderr[-1500:]
            except subprocess.TimeoutExpired:
                rc, err = "timeout", "driver did not finish in %d s" % timeout
            hist = []
            if os.path.exists(fo):
                for line in open(fo):
                    try:
                        hist.append(json.loads(line))
                    except ValueError:
                        break
            return rc, err, hist
        self._n += 1
        with ThreadPoolExecutor(nproc) as ex:
            res = list(ex.map(lambda k: one_part(parts[k], k), range(nproc)))
        out = []
        for k, (rc, err, hist) in enumerate(res):
            if rc == 3:
                raise CheckError("driver: " + err)
            if rc != 0:
                done = {h["case"] for h in hist}
                cur = next((i for i in range(len(parts[k])) if i not in done), None)
                case = parts[k][cur] if cur is not None else None
                if rc != "timeout" and case is not None and len(parts[k]) > 1:
                    # does this history alone end the process? (native code may fail at random otherwise)
                    rest = parts[k][cur:]
                    r1 = one_part([rest[0]], "r%d" % k)
                    r2 = one_part(rest[1:], "s%d" % k) if len(rest) > 1 else (0, "", [])
                    for (c1, e1, h1), cs in ((r1, rest[:1]), (r2, rest[1:])):
                        if c1 != 0:
                            done = {h["case"] for h in h1}
                            cur = next((i for i in range(len(cs)) if i not in done), None)
                            self.failures.append(dict(case=cs[cur] if cur is not None else None, event=None, clause="the code under test ended the process (%s)" % c1, expected=e1, driver=driver))
                        for h in h1:
                            h["case"] = cs[h["case"]]
                            h["driver"] = driver
                            out.append(h)
                    self.extra["processes_restarted"] = self.extra.get("processes_restarted", 0) + 1
                    hist = [h for h in hist if h["case"] < len(parts[k]) - len(rest)]
                    for h in hist:
                        h["case"] = parts[k][h["case"]]
                        h["driver"] = driver
                        out.append(h)
                    continue
                self.failures.append(dict(case=case, event=None, clause="the code under test ended the process (%s)" % rc, expected=err, driver=driver))
            for h in hist:
                h["case"] = parts[k][h["case"]]
                h["driver"] = driver
                out.append(h)
        return out

    # ---- trace validation ----
    def validate(self, module, hists, chunk=None, timeout=600):
        """Validate histories with a TLC trace specification; collects failures."""
        for h in hists:
            for c in h.get("hang", []):
                self.failures.append(dict(case=h["case"], event=None, clause=c, expected=None, driver=h["driver"]))
        hists = [h for h in hists if h["events"]]
        if not hists:
            return
        n = min(NPROC, max(1, sum(len(h["events"]) for h in hists) // 40 + 1))
        order = sorted(range(len(hists)), key=lambda i: -h_cost(hists[i]))
        bins = [[] for _ in range(n)]
        load = [0] * n
        for i in order:
            k = load.index(min(load))
            bins[k].append(i)
            load[k] += h_cost(hists[i])
        self._n += 1
        tag = self._n
        def one(k):
            ft = os.path.join(self.tmp, "trace%d_%d.ndjson" % (tag, k))
            fv = os.path.join(self.tmp, "verdict%d_%d.json" % (tag, k))
            where = []
            with open(ft, "w") as f:
                for i in sorted(bins[k]):
                    for j, ev in enumerate(hists[i]["events"]):
                        f.write(json.dumps(ev) + "\n")
                        where.append((i, j))
            try:
                r, why = self.tlc(module, env=dict(TRACE=ft, VERDICT=fv), timeout=timeout), ""
            except CheckError as e:
                r, why = None, str(e)
            v = json.load(open(fv)) if os.path.exists(fv) else dict(n=0, bad=[])
            if v["n"] == len(where):
                return where, v["bad"]
            # the mismatches found before count; otherwise this is an error of the check
            bad = v["bad"]
            at = re.findall(r"^(?:/\\ )?l = (\d+)$", r.stdout, re.M) if r else []
            if at and "evaluat" in r.stdout:
                bad = bad + [dict(l=int(at[-1]), c="an observation outside the vocabulary of the specification", exp=errors(r.stdout))]
            if not bad:
                raise CheckError("trace validation by %s covered %d of %d lines\n%s" % (module, v["n"], len(where), why or (r.stdout[-3000:] + r.stderr[-500:])))
            return where, bad
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, range(n)))
        badh = set()
        for where, bad in res:
            for b in bad:
                i, j = where[b["l"] - 1]
                ev = hists[i]["events"][j]
                if b["c"].startswith("KNOWN:"):
                    self.known.setdefault(b["c"][6:], []).append(dict(case=hists[i]["case"], event=ev))
                    continue
                badh.add(i)
                self.failures.append(dict(case=hists[i]["case"], event=ev, index=j, clause=b["c"], expected=b.get("exp"), driver=hists[i]["driver"], module=module))
        self.events += sum(len(h["events"]) for h in hists)
        self.histories += len(hists) - len(badh)
        if len(self.samples) < 3:
            for h in hists[:: max(1, len(hists) // 3)][:3 - len(self.samples)]:
                self.samples.append(dict(module=module, events=[trim(e) for e in h["events"][:3]]))

    # ---- result ----
    def finish(self, level="model_checking"):
        for f in self.pending:
            f.result()
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.histories,
                   events_validated=self.events, behaviours_from_model=self.cases_from_tlc, samples=self.samples)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, wall_s=round(wall, 2),
                  failures=len(self.failures))
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        registered, elsewhere = known_keys(self.prop), known_keys(None)
        for k, l in sorted(self.known.items()):
            if k not in registered and k in elsewhere:
                continue        # reported by the check of the property it belongs to
            if k in registered:
                print("KNOWN-FINDING: property=%s %s (%d cases)" % (self.prop, registered[k], len(l)))
            else:
                self.failures += [dict(case=x["case"], event=x["event"], clause="KNOWN:" + k, expected=None) for x in l]
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.failures:
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.json" % (self.prop, self.seed))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, failures=self.failures[:20], total=len(self.failures)), f, indent=1)
            for x in self.failures[:5]:
                print("  failed: %s" % x["clause"])
                if x.get("event"):
                    print("    event: %s" % json.dumps(trim(x["event"]))[:600])
                    print("    expected: %s" % json.dumps(x.get("expected"))[:300])
                elif x.get("expected"):
                    print("    %s" % str(x["expected"])[-600:])
            print("%d failures, %d events, %.1f s" % (len(self.failures), self.events, wall))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("property %s held: %d states, %d behaviours from the model, %d histories (%d events) validated, %.1f s"
              % (self.prop, self.states, self.cases_from_tlc, self.histories, self.events, wall))
        return 0


def h_cost(h):
    return h.get("cost") or len(h["events"])


def errors(text):
    """the error messages of TLC, without the states"""
    i = text.find("Error:")
    return text[i:i + 1500]


def trim(x, n=400):
    s = json.dumps(x)
    if len(s) <= n:
        return x
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    return s[:n] + "..."


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    return str(v)


def known_keys(prop):
    out = {}
    for line in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
        if m and prop in (None, m.group(1)):
            out[m.group(2)] = m.group(3).strip()
    return out
