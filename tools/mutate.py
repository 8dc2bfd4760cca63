#!/usr/bin/env python3
"""Change the code under test in many small ways and see which changes nobody notices.

mutate.py WORK FILE [--lines a-b] [--limit n] [--seed s]
    WORK  scratch directory (outside /repo and /verif); keeps the cases and what the unchanged code does with them
    FILE  e.g. structure3.py or collocation/polynomial.py

A change counts as a candidate if the stable tests still pass. The drivers are run on it with the cases of the quick tier;
where the recorded events differ from those of the unchanged code, the specification judges the histories that differ.
Output, one line per candidate:  KILLED check | ACCEPTED (differs, the specification allows it) | SAME (nothing differs).
Not a check; never run by one."""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import vh

FILES = {"structure3.py": "C02 C03 C04 C07 C09 C01 C05 C06 C08", "inequality.py": "C10 C11", "dae_model.py": "C12 C13 C20", "system_trajectory.py": "C19",
         "collocation/polynomial.py": "C14 C15 C16 C17 C18 C19", "collocation/butcher.py": "C15 C20", "collocation/piecewise_poly.py": "C16 C17 C21",
         "collocation/collocation.py": "C20 C21 C22 C18 C19"}

# ---------------------------------------------------------------- small changes
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.Mod: ["//"], ast.Pow: ["*"], ast.FloorDiv: ["/"]}

def mutants(src):
    """(line, description, new source)"""
    lines = src.splitlines(keepends=True)
    raw = [l.encode() for l in lines]
    start = [0]
    for l in raw:
        start.append(start[-1] + len(l))
    data = src.encode()
    def pos(line, col):
        return start[line - 1] + col
    def seg(n):
        return data[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    def put(n, new):
        return (data[:pos(n.lineno, n.col_offset)] + new.encode() + data[pos(n.end_lineno, n.end_col_offset):]).decode()
    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                docs.add(m)
        if isinstance(n, ast.FunctionDef) and n.name in ("__str__", "__repr__", "primitiveString"):
            for m in ast.walk(n):
                docs.add(m)
    for n in ast.walk(tree):
        if n in docs:
            continue
        def out(what, new, at=n):
            return at.lineno, what, put(at, new)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                yield out("compare", "(%s %s %s)" % (seg(n.left), o, seg(n.comparators[0])))
        if isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                yield out("operator", "(%s %s %s)" % (seg(n.left), o, seg(n.right)))
            if isinstance(n.op, (ast.Add, ast.Sub)):
                yield out("left only", "(%s)" % seg(n.left))
                yield out("right only", "(%s)" % seg(n.right))
        if isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            yield out("bool", "(" + (" %s " % o).join("(%s)" % seg(v) for v in n.values) + ")")
            for k in range(len(n.values)):
                yield out("drop condition %d" % k, "(" + (" %s " % ("and" if o == "or" else "or")).join("(%s)" % seg(v) for i, v in enumerate(n.values) if i != k) + ")")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield out("unary", "(%s)" % seg(n.operand))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield out("constant", str(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield out("constant", "(%r)" % (n.value + 1))
            yield out("constant", "(%r)" % (n.value - 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str):
            yield out("text", repr(n.value + "_") if n.value else repr("_"))
        if isinstance(n, (ast.If, ast.While)):
            yield out("condition", "not (%s)" % seg(n.test), n.test)
            yield out("condition", "True", n.test)
            yield out("condition", "False", n.test)
        if isinstance(n, ast.IfExp):
            yield out("first branch", "(%s)" % seg(n.body))
            yield out("second branch", "(%s)" % seg(n.orelse))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert, ast.Raise, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            yield out("no statement", "pass")
        if isinstance(n, ast.Return) and n.value is not None:
            yield out("return nothing", "return None")
        if isinstance(n, ast.Call):
            a = [seg(x) for x in n.args]
            kw = [seg(x.value) for x in n.keywords]
            def call(args, kws):
                return "%s(%s)" % (seg(n.func), ", ".join(args + ["%s=%s" % (k.arg, v) if k.arg else "**" + v for k, v in kws]))
            kws = list(zip(n.keywords, kw))
            if len(a) == 2:
                yield out("swap arguments", call(a[::-1], kws))
            if len(a) > 1:
                for i in range(len(a)):
                    yield out("drop argument %d" % i, call(a[:i] + a[i + 1:], kws))
            if len(a) == 1 and not kws:
                yield out("no call", "(%s)" % a[0].lstrip("*")) if not a[0].startswith("*") else out("no call", "(%s)[0]" % a[0][1:])
            for i in range(len(kws)):
                yield out("drop keyword %s" % n.keywords[i].arg, call(a, kws[:i] + kws[i + 1:]))
        if isinstance(n, ast.Slice):
            for f in ("lower", "upper", "step"):
                v = getattr(n, f)
                if v is not None:
                    yield out("slice without " + f, "", v)
        if isinstance(n, ast.Attribute) and n.attr in ("T",):
            yield out("no transpose", seg(n.value))
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs:
                    yield out("filter", "True", c)
                if not isinstance(g.iter, ast.Call) or getattr(g.iter.func, "id", "") != "range":
                    yield out("reversed", "list(%s)[::-1]" % seg(g.iter), g.iter)
                yield out("skip first", "list(%s)[1:]" % seg(g.iter), g.iter)
        if isinstance(n, ast.For):
            yield out("reversed", "list(%s)[::-1]" % seg(n.iter), n.iter)
            yield out("skip first", "list(%s)[1:]" % seg(n.iter), n.iter)
            yield out("skip last", "list(%s)[:-1]" % seg(n.iter), n.iter)

# ---------------------------------------------------------------- running
class Recorder(vh.Run):
    """collects the cases of a check instead of running them"""
    def drive(self, driver, cases, **k):
        self.todo.append([driver, cases])
        return len(self.todo) - 1
    def validate(self, module, hists, **k):
        self.todo[hists].append(module)
    def side(self, *a):
        pass

def gather(work, ids):
    import checks
    for c in ids:
        f = os.path.join(work, c + ".cases.json")
        if os.path.exists(f):
            continue
        r = Recorder(c)
        r.todo = []
        checks.CHECKS[c](r)
        json.dump(r.todo, open(f, "w"))
        shutil.rmtree(r.tmp, ignore_errors=True)

def drive(work, repo, driver, fi, fo, limit):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="%s:%s" % (repo, os.path.join(HERE, "harness")), PYTHONHASHSEED="0", MPLBACKEND="Agg",
             OMP_NUM_THREADS="2", OPENBLAS_NUM_THREADS="1", PYTHONPYCACHEPREFIX=repo + "/pyc")
    try:
        return subprocess.run([vh.PY, "-W", "ignore", os.path.join(HERE, "harness", driver + ".py"), fi, fo], cwd=repo, env=e, capture_output=True, timeout=limit).returncode
    except subprocess.TimeoutExpired:
        return "timeout"

def load(f):
    return [json.loads(l) for l in open(f)] if os.path.exists(f) else []

def baseline(work, ids, parts=8):
    base = os.path.join(work, "base")
    if not os.path.exists(base):
        shutil.copytree("/repo/casadi_extras", base + "/casadi_extras")
    jobs = []
    for c in ids:
        for k, t in enumerate(json.load(open(os.path.join(work, c + ".cases.json")))):
            driver, cases, module = t
            for p in range(parts):
                fi = os.path.join(work, "%s.%d.%d.in" % (c, k, p))
                if not os.path.exists(fi):
                    with open(fi, "w") as f:
                        for x in cases[p::parts]:
                            f.write(json.dumps(x) + "\n")
                fo = fi[:-2] + "base"
                jobs.append((c, driver, module, fi, fo))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: os.path.exists(j[4]) or drive(work, base, j[1], j[3], j[4], 600), jobs))
    return jobs

def judge(module, hists, prop):
    r = vh.Run(prop)
    try:
        r.validate(module, hists)
        return sorted({f["clause"] for f in r.failures})
    except vh.CheckError as e:
        return ["error: " + str(e)[:100]]
    finally:
        shutil.rmtree(r.tmp, ignore_errors=True)

def try_one(work, k, rel, new, jobs):
    m = os.path.join(work, "m%d" % k)
    shutil.rmtree(m, ignore_errors=True)
    shutil.copytree("/repo", m, ignore=shutil.ignore_patterns(".git"))
    try:
        open(os.path.join(m, "casadi_extras", rel), "w", encoding="utf8").write(new)
        e = dict(os.environ, PYTHONPATH=m, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=m + "/pyc", MPLBACKEND="Agg")
        try:
            t = subprocess.run([vh.PY, "-W", "ignore", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-k", "not (directCollocationReach or directCollocationSimple)", "test"], cwd=m, env=e, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return "tests"
        if t.returncode:
            return "tests"
        accepted = set()
        for c, driver, module, fi, fb in jobs:
            fo = os.path.join(m, "out")
            rc = drive(work, m, driver, fi, fo, 200)
            if rc != 0:
                return "KILLED %s (process ended: %s)" % (c, rc)
            a, b = load(fb), load(fo)
            diff = [i for i in range(len(a)) if a[i] != b[i]]
            if diff:
                cases = load(fi)
                h = [dict(b[i], case=cases[i], driver=driver) for i in diff[:30]]
                why = judge(module, h, c)
                if why:
                    return "KILLED %s %s" % (c, why[0])
                accepted.add(c)
        return "ACCEPTED %s" % sorted(accepted) if accepted else "SAME"
    finally:
        shutil.rmtree(m, ignore_errors=True)

def main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("work")
    p.add_argument("file")
    p.add_argument("--lines")
    p.add_argument("--limit", type=int)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--jobs", type=int, default=8)
    a = p.parse_args()
    os.makedirs(a.work, exist_ok=True)
    ids = FILES[a.file].split()
    gather(a.work, ids)
    jobs = baseline(a.work, ids)
    # first a part of every check, then the rest
    jobs.sort(key=lambda j: (int(j[3].split(".")[-2]) > 0, ids.index(j[0])))
    src = open(os.path.join("/repo/casadi_extras", a.file), encoding="utf8").read()
    ms, seen = [], {src}
    for line, what, new in mutants(src):
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        if a.lines:
            lo, hi = map(int, a.lines.split("-"))
            if not lo <= line <= hi:
                continue
        ms.append((line, what, new))
    if a.limit and len(ms) > a.limit:
        ms = random.Random(a.seed).sample(ms, a.limit)
    ms.sort(key=lambda m: m[0])
    print("%d changes" % len(ms), flush=True)
    lines = src.splitlines()
    def one(x):
        k, (line, what, new) = x
        r = try_one(a.work, k, a.file, new, jobs)
        if r != "tests":
            old, nw = lines, new.splitlines()
            d = [(o, n) for o, n in zip(old, nw) if o != n][:1]
            print("%s | %s:%d %s | %s  =>  %s" % (r, a.file, line, what, d[0][0].strip() if d else "", d[0][1].strip() if d else ""), flush=True)
        return r
    with ThreadPoolExecutor(a.jobs) as ex:
        res = list(ex.map(one, enumerate(ms)))
    count = {}
    for r in res:
        count[r.split()[0]] = count.get(r.split()[0], 0) + 1
    print(count)

if __name__ == "__main__":
    main()
