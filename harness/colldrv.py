"""Replays collocation schemes and integrators into /repo."""
import random
from drv import *
from polydrv import rows, vec, floats, points
try:
    import casadi_extras as ce
    from casadi_extras import collocation as co
    from casadi_extras import structure3 as s3
    import daedrv
except Exception as e:
    print("cannot import the package under test: %r" % e)
    sys.exit(1)
DM, MX = cs.DM, cs.MX

def make_model(m, rnd):
    syms = {q: daedrv.symbol(rnd, q, *m["s"][q]) for q in m["n"] if m["n"][q]}
    fs = {q: MX(0, 1) for q in m["n"]}
    fs.update({q: cs.vec(daedrv.flat(x)) for q, x in syms.items()})
    kw = dict(syms)
    if m["quad"]:
        kw["quad"] = daedrv.column(m["quad"], fs)
    if m["kind"] == "semi":
        kw.pop("xdot", None)
        kw["ode"] = daedrv.column(m["ode"], fs)
        if m["alg"]:
            kw["alg"] = daedrv.column(m["alg"], fs)
        return daedrv.dm.SemiExplicitDae(**kw)
    kw["dae"] = daedrv.column(m["dae"], fs)
    return daedrv.dm.ImplicitDae(**kw)

def tdp_fun(polys, rnd):
    if not polys:
        return None
    def at(t):
        r = []
        for p in polys:
            s = 0.
            for x in p:
                s += x["c"] * float(t) ** len(x["v"])
            r.append(s)
        return r
    k = rnd.randrange(3)
    return [lambda t: DM(at(t)), lambda t: np.array(at(t)), lambda t: at(t)[0] if len(polys) == 1 else cs.vertcat(*at(t))][k]

def dm(m, r, c):
    a = np.array([[val(x) for x in row] for row in m], dtype=float).reshape((r, c))
    return DM(a) if r * c else DM(r, c)

def bounds(rnd, t):
    return points(rnd, t)

NEED = dict(scheme=dict(c=[], tc=[], bounds=[], total=0, a=[], b=[], cc=[]), integrator=dict(c=[]), eval=dict(xdot=[], e1=[], e2=[], e3=[], cat=[], U=[], X=[], q=[], Q=[], quad=[]),
            traj=dict(X=[], vals=[], bounds=[]), combine=dict(names=[], cat=[], parts=[], alone=[]),
            run=dict(xf=[], X=[], Q=[], qf=[], tc=[], vals=[]), chain=dict(xs=[], qs=[]))

def arg(rnd, d):
    k = rnd.random()
    return d if k < .6 or not d.numel() else np.array(d)

def apply(op, e, reg, rnd):
    k = op["op"]
    if k == "scheme":
        m = op["m"]
        dae = make_model(m, rnd)
        t = bounds(rnd, op["t"])
        kw = {}
        if op["method"] != "legendre" or rnd.random() < .5:
            kw["method"] = op["method"]
        if op["par"] != "serial" or rnd.random() < .5:
            kw["parallelization"] = op["par"]
        if not op["expand"] or rnd.random() < .5:
            kw["expand"] = op["expand"]
        if op["rep"] or rnd.random() < .5:
            kw["repeat_param"] = op["rep"]
        f = tdp_fun(op["tdp"], rnd)
        if f is not None:
            kw["tdp_fun"] = f
        s = co.CollocationScheme(dae, t, op["n"], **kw)
        reg[op["o"]] = (s, m, op)
        e.update(c=vec(cs.collocation_points(op["n"], op["method"])), tc=vec(s.tc), bounds=vec(s.t), total=int(s.numTotalCollocationPoints),
                 a=rows(s.butcher.A), b=vec(s.butcher.b), cc=vec(s.butcher.c))
    elif k in ("eval", "traj", "combine"):
        s, m, sop = reg[op["o"]]
        n, N, M = m["n"], len(sop["t"]) - 1, sop["n"]
        v = op["v"]
        pc = N * M if sop["rep"] else 1
        vals = [dm(v["x"], n["x"], N + 1), dm(v["K"], n["x"], N * M), dm(v["Z"], n["z"], N * M), dm(v["u"], n["u"], N), dm(v["p"], n["p"], pc)]
        syms = [s.x, s.K, s.Z, s.u, s.p]
        if k == "eval":
            exprs = [s.eq["collocation"], s.eq["continuity"], s.eq["param"], s.eq.cat, s.U, s.X, s.q, s.Q, s.quad, s.xdot]
            out = cs.Function("f", syms, exprs).call(vals)
            for f, x in zip(("e1", "e2", "e3", None, "U", "X", "q", "Q", "quad", "xdot"), out):
                if f:
                    e[f] = rows(x)
            e["cat"] = vec(out[3])
        elif k == "traj":
            e["X"] = rows(s.evalX(vals[0], vals[1]))
            p = s.piecewisePolyX(vals[0], vals[1])
            e["vals"] = rows(p(floats(op["ts"]), op["side"]))
            e["bounds"] = vec(p.intervals)
        else:
            c = s.combine(list(op["what"]))
            parts = [c[w] for w in c.keys()]
            parts = [x.cat if isinstance(x, s3.Structured) else x for x in parts]
            alone = [getattr(s, w) for w in op["what"]]
            alone = [x.cat if isinstance(x, s3.Structured) else x for x in alone]
            out = cs.Function("f", syms, [c.cat] + [cs.vec(x) for x in parts] + [cs.vec(x) for x in alone]).call(vals)
            e.update(names=list(c.keys()), cat=vec(out[0]), parts=[vec(x) for x in out[1:1 + len(parts)]], alone=[vec(x) for x in out[1 + len(parts):]])
    elif k == "integrator":
        m = op["m"]
        dae = make_model(m, rnd)
        make = lambda t: co.collocationIntegrator("integrator", dae, t, op["n"], *([op["method"]] if op["method"] != "legendre" or rnd.random() < .5 else []),
                                                  **({} if not op["tdp"] else dict(tdp_fun=tdp_fun(op["tdp"], rnd))))
        i = make(bounds(rnd, op["t"]))
        reg[op["o"]] = (i, m, op, make)
        e["c"] = vec(cs.collocation_points(op["n"], op["method"]))
    elif k == "run":
        i, m, sop, make = reg[op["o"]]
        n, N = m["n"], len(sop["t"]) - 1
        a = dict(x0=dm([[x] for x in op["x0"]], n["x"], 1), z0=dm([[x] for x in op["z0"]], n["z"], 1), u=dm(op["u"], n["u"], N), p=dm(op["p"], n["p"], 1))
        e["v"] = dict(u=op["u"], p=op["p"], x=[], K=[], Z=[])
        order = [i.name_in(j) for j in range(i.n_in())]
        a = {q: arg(rnd, x) for q, x in a.items()}

        kind = op["how"]
        if kind == "call":
            o = i(**a)
        elif kind == "positional":
            o = dict(zip([i.name_out(j) for j in range(i.n_out())], i(*[a[q] for q in order])))
        elif kind == "integrate":
            o = i.integrate(**a)
        else:
            o = i.integrate(*[a[q] for q in order])
        e["v"].update(x=rows(o["x"]), K=rows(o["K"]), Z=rows(o["Z"]))
        e.update(xf=rows(o["xf"]), X=rows(o["X"]), Q=rows(o["Q"]), qf=vec(o["qf"]), tc=vec(o["tc"]))
        if kind.startswith("integrate"):
            e["vals"] = rows(o["x_traj"](floats(op["ts"])))
        else:
            e["ts"] = []
    elif k == "chain":
        i, m, sop, make = reg[op["o"]]
        n, t = m["n"], floats(sop["t"])
        x = dm([[x] for x in op["x0"]], n["x"], 1)
        p, z0, u = dm(op["p"], n["p"], 1), dm([[x] for x in op["z0"]], n["z"], 1), dm(op["u"], n["u"], len(t) - 1)
        xs, qs = [x], [DM.zeros(len(m["quad"]), 1)]
        for j in range(len(t) - 1):
            o = make(t[j:j + 2])(x0=x, z0=z0, u=u[:, j], p=p)
            x = o["xf"]
            xs.append(x)
            qs.append(qs[-1] + o["qf"])
        e.update(xs=rows(cs.horzcat(*xs)), qs=rows(cs.horzcat(*qs)))

def run_case(case, ev):
    rnd = random.Random(case.get("var", 0))
    reg = {}
    for n, op in enumerate(case["ops"]):
        if op["op"] not in ("scheme", "integrator") and op["o"] not in reg:
            continue
        e = {f: x for f, x in NEED[op["op"]].items()}
        e.update(op, reset=not ev, out="ok")
        ev.append(e)
        try:
            apply(op, e, reg, rnd)
        except Exception:
            e["out"] = "exc"
            if case.get("debug"):
                traceback.print_exc()
    return len(str(ev))

if __name__ == "__main__":
    main(run_case)
