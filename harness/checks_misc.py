"""Checks of inequalities (C10, C11) and models (C12, C13)."""
from checks import check
from checks_struct import case, chunks

NONE = dict(t="none")
def matrix(r, a, b, special=.1):
    return dict(t="mat", r=a, c=b, e=[r.choice(["inf", "-inf", "0", "0", "0", "-1/4", str(10 ** 20), "1/%d" % 2 ** 60]) if r.random() < special else str(r.randint(-999, 999)) for _ in range(a * b)])

def rand_mk(r, a, b, o, good=.9, nom=None):
    def arg():
        x = r.random()
        if x < .3:
            return NONE
        if x < good:
            return matrix(r, a, b)
        return matrix(r, *r.choice([(a + 1, b), (b, a), (1, 1), (a, b + 1), (a * b, 1), (1, a * b), (max(a - 1, 1), b)]))
    n = arg()
    if nom is not None:
        n = matrix(r, a, b) if nom else NONE
    return dict(op="mk", o=o, expr=matrix(r, a, b, 0), lb=arg(), ub=arg(), nom=n)

def rand_shape(r):
    return r.choice([(r.randint(1, 5), 1), (r.randint(1, 5), 1), (1, r.randint(1, 4)), (r.randint(1, 4), r.randint(1, 4)), (0, 1)])

@check("C10", "exhaustive over 6 expression shapes and 6 ways to give each of lower bound, upper bound and nominal value; random shapes, values and argument types beyond")
def c10(run):
    r = run.rng
    cases = []
    for kind in ("MX", "SX"):
        for c in run.model("IneqModel", dict(Scope="mk", Depth=0, MaxParts=0)):
            c.pop("a")
            cases.append(dict(case(r, [dict(c, op="mk", o=1)]), kind=kind))
    names = ["x", "var", "a_1", "q v", "long" * 10]
    for i in range(500 if run.quick else 6000):
        kind = r.choice(["MX", "MX", "SX"])
        a, b = rand_shape(r)
        ops = [rand_mk(r, a, b, 1, r.choice([.9, 1]))]
        if a * b > 1 and r.random() < .15:
            # an expression with structural zeros
            ops[0]["zeros"] = sorted(r.sample(range(a * b), r.randint(1, a * b - 1)))
            for k in ops[0]["zeros"]:
                ops[0]["expr"]["e"][k] = "0"
        a, b = rand_shape(r)
        good = r.choice([.9, 1])
        def arg(p):
            return NONE if r.random() < p else matrix(r, a, b) if r.random() < good else matrix(r, *r.choice([(a + 1, b), (b, a), (1, 1), (a, b + 1)]))
        ops.append(dict(op="var", o=2, name=r.choice(names), lb=arg(.3), ub=arg(.3), nom=matrix(r, a, b) if r.random() < .9 else NONE))
        ops += [dict(op="look", o=1), dict(op="look", o=2)]
        if r.random() < .4:
            # once more, after the caller has changed what was there before
            ops += [dict(op="spoil", o=1), dict(op="spoil", o=2), dict(rand_mk(r, ops[0]["expr"]["r"], ops[0]["expr"]["c"], 3, 1)), dict(op="look", o=3)]
        cases.append(dict(case(r, ops), kind=kind))
    run.validate("IneqTrace", run.drive("ineqdrv", cases))

@check("C11", "exhaustive over all programs of 2 concatenations of up to 3 (list or dictionary) of four base inequalities and earlier results; random programs beyond")
def c11(run):
    r = run.rng
    cases = []
    for c in run.model("IneqModel", dict(Scope="cat", Depth=2, MaxParts=2 if run.quick else 3)):
        ops, n = [], 0
        for b in c["base"]:
            n += 1
            ops.append(dict(op="mk", o=n, expr=b["expr"], lb=b["lb"], ub=b["ub"], nom=b["nom"]))
        for p in c["prog"]:
            n += 1
            if p["how"] == "list":
                ops.append(dict(op="cat", o=n, parts=p["p"]))
            else:
                ops.append(dict(op="catd", o=n, parts=p["p"], names=["a", "c", "b"][:len(p["p"])]))
        cases.append(case(r, ops))
    for i in range(500 if run.quick else 6000):
        ops, n = [], 0
        kind = "MX" if r.random() < .85 else "SX"
        cols = r.choice([1, 1, 1, 2, 3])
        nom = r.random() < .6
        mixed = r.random() < .1
        for _ in range(r.randint(1, 5)):
            n += 1
            a = r.choice([0, 1, 1, 2, 3, 4])
            b = cols if r.random() < .93 else r.choice([1, 2])
            ops.append(rand_mk(r, a, b, n, 1, r.random() < .5 if mixed else nom))
        if kind == "MX" and nom and r.random() < .3:
            n += 1
            ops.append(dict(op="var", o=n, name="v", lb=matrix(r, 2, cols), ub=NONE, nom=matrix(r, 2, cols)))
        base = n
        for _ in range(r.randint(1, 4)):
            parts = [r.randint(1, n) for _ in range(r.choice([1, 2, 2, 3, 4]) if r.random() < .95 else r.randint(11, 13))]
            if n > base and r.random() < .6:
                parts[r.randrange(len(parts))] = n
            n += 1
            if kind == "SX" or r.random() < .5:
                ops.append(dict(op="cat", o=n, parts=parts))
            else:
                ops.append(dict(op="catd", o=n, parts=parts, names=r.sample(["a", "b", "x", "lb", "k_0", "z9", "A"] if len(parts) < 8 else ["g%d" % q for q in range(14)], len(parts))))
            if r.random() < .3:
                ops.append(dict(op="look", o=r.randint(1, n)))
        cases.append(dict(case(r, ops), kind=kind))
    for i in range(6 if run.quick else 60):
        # many parts at once
        k, nom = r.randint(17, 40), r.random() < .5
        ops = [rand_mk(r, r.choice([1, 1, 2]), 1, n + 1, 1, nom) for n in range(k)]
        parts = r.sample(range(1, k + 1), k)
        ops.append(dict(op="cat", o=k + 1, parts=parts) if r.random() < .5 else dict(op="catd", o=k + 1, parts=parts, names=["g%d" % q for q in range(k)]))
        cases.append(dict(case(r, ops), kind="MX"))
    run.validate("IneqTrace", run.drive("ineqdrv", cases))

# ---------------------------------------------------------------- models
ARGS = ["x", "z", "u", "p", "t", "tdp", "quad", "ode", "alg", "xdot", "dae"]
ABSENT = dict(given=False, how="sym", r=0, c=1)

def rand_args(r):
    """mostly proper constructor arguments of a model"""
    kind = r.choice(["semi", "impl"])
    nx, nz = r.randint(0, 4), r.choice([0, 0, 1, 2])
    P = lambda how, a, b=1: dict(given=True, how=how, r=a, c=b)
    sym = lambda: r.choice(["sym", "expr"])
    a = {n: ABSENT for n in ARGS}
    a["x"] = P("sym", nx)
    if nz or r.random() < .3:
        a["z"] = P("sym", nz)
    for n in ("u", "quad"):
        if r.random() < .6:
            a[n] = P("sym", r.randint(0, 3)) if n == "u" else P(sym(), r.randint(1, 3))
    for n in ("p", "tdp"):
        if r.random() < .6:
            a[n] = P("sym", r.randint(1, 3), r.choice([1, 1, 2]))
    if r.random() < .5:
        a["t"] = P("sym", 1)
    if kind == "semi":
        a["ode"] = P(sym(), nx)
        if nz or r.random() < .3:
            a["alg"] = P(sym(), nz)
    else:
        a["xdot"] = P("sym", nx)
        a["dae"] = P(sym(), nx + nz)
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        n = r.choice([q for q in ARGS if q not in (("xdot", "dae") if kind == "semi" else ("ode", "alg"))])
        m = max(a[n]["r"], 1)
        a[n] = r.choice([ABSENT, P("sym", m), P("sym", m + 1), P("expr", m), P("sym", m, 2), P("expr", m, 2), P("sym", 1, m), P("num", m), P("sym", 0), P("sym", 0, 0) if n in ("x", "z", "u") else P("sym", m)])
    return dict(op="args", kind=kind, arg=a)

@check("C12", "exhaustive over all argument lists that deviate from a proper model in up to 2 (thorough: 3) places, 12 forms per argument; random argument lists beyond")
def c12(run):
    r = run.rng
    ops = [dict(c, op="args") for c in run.model("DaeModel", dict(Scope="args", Depth=2 if run.quick else 3, Level=0), timeout=800)]
    if len(ops) > 60000:
        ops = r.sample(ops, 60000)
    ops += [rand_args(r) for _ in range(1500 if run.quick else 15000)]
    run.validate("DaeTrace", run.drive("daedrv", [case(r, p) for p in chunks(ops, 20)]))

def rand_poly(r, n, parts, deg=3):
    vs = [dict(p=q, i=i) for q in parts for i in range(n[q])]
    out = []
    for _ in range(r.choice([0, 1, 2, 2, 3])):
        out.append(dict(c=r.choice([-3, -2, -1, 1, 2, 3]), v=[r.choice(vs) for _ in range(r.randint(0, deg))] if vs else []))
    return out

def rand_model(r, kind="semi", invariant=False):
    n = dict(x=r.randint(1, 3), z=r.choice([0, 0, 1, 2]), u=r.choice([0, 1, 2]), p=r.choice([0, 1, 2, 4]), t=1, tdp=0 if invariant else r.choice([0, 0, 1, 2]), xdot=0)
    for q in ("x", "z", "u", "p") if r.random() < .06 else ("x",) if r.random() < .04 else ():
        n[q] = 0
    if kind == "impl":
        n["xdot"] = n["x"]
    s = {q: [n[q], 1] for q in n}
    if n["p"] == 4:
        s["p"] = [2, 2]
    parts = ["x", "z", "u", "p"] + ([] if invariant else ["t", "tdp"]) + (["xdot"] if kind == "impl" else [])
    m = dict(kind=kind, n=n, s=s, ode=[], alg=[], dae=[], quad=[rand_poly(r, n, parts) for _ in range(r.choice([0, 0, 1, 2]))])
    if kind == "semi":
        m["ode"] = [rand_poly(r, n, parts) for _ in range(n["x"])]
        m["alg"] = [rand_poly(r, n, parts) for _ in range(n["z"])]
    else:
        m["dae"] = [rand_poly(r, n, parts) for _ in range(n["x"] + n["z"])]
    return m

IN = ["x", "z", "u", "p", "t", "tdp"]
def rand_fun(r, src, n, kind):
    """evaluate a selection of quantities, all of them given as inputs in some order"""
    ins = IN + (["xdot"] if kind == "impl" else [])
    outs = ins + (["ode", "alg"] if kind == "semi" else ["dae"]) + ["quad"]
    pt = {q: [r.randint(-4, 4) for _ in range(n[q])] for q in IN + ["xdot"]}
    i = r.sample(ins, len(ins))
    if r.random() < .15:
        i = i[:-1]
    o = r.sample(outs, r.randint(1, 4))
    if not r.random() < .97:
        o.append(r.choice(["nope", "dae" if kind == "semi" else "ode"]))
    o = [q for q in o if q not in i]       # the matrix library wants distinct names
    return dict(op="fun", src=src, ins=i, outs=o, pt=pt, named=r.random() < .5) if o else rand_fun(r, src, n, kind)

def echo_fun(r, src, n, kind):
    """variables handed through under the names of fewer inputs"""
    pt = {q: [r.randint(-4, 4) for _ in range(n[q])] for q in IN + ["xdot"]}
    k = r.choice(["x", "u", "p"])
    return dict(op="fun", src=src, ins=[k], outs=[r.choice(["ode", "quad"] if kind == "semi" else ["dae", "quad"])], pt=pt, named=False)

def par_n(ns):
    n = {q: sum(m[q] for m in ns) for q in ("x", "z", "u", "p")}
    n.update(t=1, tdp=0, xdot=0)
    return n

def imp_n(n, kind):
    return dict(n, xdot=n["x"])

@check("C13", "exhaustive over all programs of 2 (thorough: 3) conversions and parallel connections of three models and earlier results; random polynomial models, programs, selections of inputs and outputs and evaluation points beyond (integer arithmetic, compared exactly)")
def c13(run):
    r = run.rng
    cases = []
    def close(ops, ns, kinds, o):
        for _ in range(3):
            ops.append(rand_fun(r, o, ns[o], kinds[o]))
        if r.random() < .3:
            ops.append(echo_fun(r, o, ns[o], kinds[o]))
    for c in run.model("DaeModel", dict(Scope="prog", Depth=2 if run.quick else 3, Level=3)):
        ops, ns, kinds = [], {}, {}
        for i, m in enumerate(c["base"]):
            ops.append(dict(op="model", o=i + 1, m=m))
            ns[i + 1], kinds[i + 1] = m["n"], m["kind"]
        for j, e in enumerate(c["prog"]):
            o = 4 + j
            if e["how"] == "parallel":
                ops.append(dict(op="parallel", o=o, src=e["p"]))
                ns[o], kinds[o] = par_n([ns[p] for p in e["p"]]), "semi"
            else:
                ops.append(dict(op="implicit", o=o, src=e["p"][0]))
                ns[o], kinds[o] = imp_n(ns[e["p"][0]], 0), "impl"
            close(ops, ns, kinds, o)
        cases.append(case(r, ops))
    for i in range(400 if run.quick else 5000):
        ops, ns, kinds, conn = [], {}, {}, {}
        n = 0
        inv = r.random() < .6
        many = r.random() < .05
        inv = inv or many
        for _ in range(r.randint(11, 13) if many else r.randint(1, 4)):
            n += 1
            k = "semi" if many or r.random() < .75 else "impl"
            m = rand_model(r, k, inv)
            ops.append(dict(op="model", o=n, m=m))
            ns[n], kinds[n], conn[n] = m["n"], k, {n} if inv and k == "semi" else None
            if not many:
                close(ops, ns, kinds, n)
        if many:
            n += 1
            ops.append(dict(op="parallel", o=n, src=list(range(1, n))))
            ns[n], kinds[n], conn[n] = par_n([ns[q] for q in range(1, n)]), "semi", set(range(1, n))
            close(ops, ns, kinds, n)
        for _ in range(r.randint(0, 3)):
            c = [q for q in conn if conn[q]]
            n += 1
            if c and r.random() < .6:
                src = []
                for q in r.sample(c, len(c)):
                    if not any(conn[q] & conn[p] for p in src) and r.random() < .8:
                        src.append(q)
                src = src or [c[-1]]
                ops.append(dict(op="parallel", o=n, src=src))
                ns[n], kinds[n], conn[n] = par_n([ns[q] for q in src]), "semi", set().union(*[conn[q] for q in src])
            else:
                src = r.randint(1, n - 1)
                ops.append(dict(op="implicit", o=n, src=src))
                ns[n], kinds[n], conn[n] = imp_n(ns[src], 0), "impl", None
            close(ops, ns, kinds, n)
        cases.append(case(r, ops))
    run.validate("DaeTrace", run.drive("daedrv", cases))
