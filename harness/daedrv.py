"""Replays constructions, conversions and evaluations of models into /repo and records what they return."""
from structdrv import *
try:
    from casadi_extras import dae_model as dm
except Exception as e:
    print("cannot import the package under test: %r" % e)
    sys.exit(1)

def symbol(rnd, name, r, c, forms=True):
    """a purely symbolic matrix"""
    x = rnd.random()
    if c == 1 and r > 1 and forms:
        if x < .25:
            k = rnd.randint(1, r - 1)
            return cs.vertcat(MX.sym(name + "1", k), MX.sym(name + "2", r - k))
        if x < .5:
            k = rnd.randint(1, r - 1)
            s = s3.struct_symMX([s3.entry("k", shape=k), s3.entry("l", shape=r - k)])
            return s
    return MX.sym(name, r, c)

def argument(rnd, name, a):
    if a["how"] == "sym":
        return symbol(rnd, name, a["r"], a["c"])
    if a["how"] == "num":
        return DM.ones(a["r"], a["c"])
    s = MX.sym(name, a["r"], a["c"])
    if rnd.random() < .3 and a["r"] > 1:
        # only partly symbolic
        return cs.vertcat(s[:-1, :], 2 * s[-1, :])
    return rnd.choice([lambda: 2 * s, lambda: s + 1, lambda: cs.sin(s)])()

SIZES = ["nx", "nz", "nu", "np", "ntdp", "nq"]
def sizes(m):
    return {f: int(getattr(m, f)) for f in SIZES}
NOSIZES = {f: -1 for f in SIZES}

def flat(x):
    return x.cat if isinstance(x, s3.Structured) else x

def build(poly, syms):
    e = MX(0)
    for t in poly:
        m = MX(t["c"])
        for v in t["v"]:
            m = m * syms[v["p"]][v["i"]]
        e = e + m
    return e

def column(polys, syms):
    return cs.vertcat(*[build(p, syms) for p in polys]) if polys else MX(0, 1)

def run_case(case, ev):
    rnd = random.Random(case.get("var", 0))
    reg = {}
    for n, op in enumerate(case["ops"]):
        e = dict(op, reset=n == 0, out="ok")
        k = op["op"]
        src = op.get("src", [])
        if any(s not in reg for s in (src if isinstance(src, list) else [src])):
            continue
        ev.append(e)
        try:
            if k == "args":
                e.update(sizes=NOSIZES, kept=[], tscalar=True)
                a = {q: argument(rnd, q, x) for q, x in op["arg"].items() if x["given"]}
                m = (dm.SemiExplicitDae if op["kind"] == "semi" else dm.ImplicitDae)(**a)
                e["sizes"] = sizes(m)
                e["kept"] = [dict(n=q, same=bool(cs.is_equal(flat(getattr(m, q)), flat(x), 5))) for q, x in sorted(a.items())]
                e["tscalar"] = bool(m.t.is_scalar() and m.t.is_valid_input())
                continue
            e["sizes"] = NOSIZES
            if k == "model":
                m = op["m"]
                syms = {q: symbol(rnd, q, *m["s"][q], forms=True) for q in m["n"] if m["n"][q] or q == "x" or q == "xdot" and m["kind"] == "impl" or q not in ("t", "xdot") and rnd.random() < .2}
                fs = {q: MX(0, 1) for q in m["n"]}
                fs.update({q: cs.vec(flat(x)) for q, x in syms.items()})
                kw = dict(syms)
                if m["kind"] == "semi":
                    kw.pop("xdot", None)
                    kw["ode"] = column(m["ode"], fs)
                    if m["alg"] or rnd.random() < .3:
                        kw["alg"] = column(m["alg"], fs)
                    cls = dm.SemiExplicitDae
                else:
                    kw["dae"] = column(m["dae"], fs)
                    cls = dm.ImplicitDae
                if m["quad"] or rnd.random() < .3:
                    kw["quad"] = column(m["quad"], fs)
                if "t" in kw and not uses_t(m) and rnd.random() < .6:
                    del kw["t"]
                r = cls(**kw)
            elif k == "implicit":
                e["same"] = False
                r = reg[op["src"]].makeImplicit()
                e["same"] = r is reg[op["src"]]
            elif k == "parallel":
                r = dm.parallel([reg[s] for s in op["src"]])
            elif k == "fun":
                e.update(vals=[], inames=[], onames=[], shapes=[])
                m = reg[op["src"]]
                f = m.createFunction("f", list(op["ins"]), list(op["outs"]))
                e["inames"], e["onames"] = [f.name_in(i) for i in range(f.n_in())], [f.name_out(i) for i in range(f.n_out())]
                args = []
                for i, q in enumerate(op["ins"]):
                    v = np.array([float(x) for x in op["pt"][q]])
                    args.append(DM(v.reshape(f.size_in(i), order="F")) if v.size else DM(*f.size_in(i)))
                if op.get("named"):
                    o = f(**dict(zip(op["ins"], args)))
                    out = [o[q] for q in op["outs"]]
                else:
                    out = f.call(args)
                e["vals"] = [vecof(x) for x in out]
                e["shapes"] = [list(x.shape) for x in out]
                continue
            e["sizes"] = sizes(r)
            reg[op["o"]] = r
        except Exception:
            e["out"] = "exc"

def uses_t(m):
    return any(v["p"] == "t" for f in ("ode", "alg", "quad", "dae") for p in m[f] for t in p for v in t["v"])

if __name__ == "__main__":
    main(run_case)
