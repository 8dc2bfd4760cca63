"""Replays constructions and concatenations of inequalities into /repo and records what they return."""
from structdrv import *
try:
    from casadi_extras import inequality as iq
    from casadi_extras.inequality import Inequality, BoundedVariable
except Exception as e:
    print("cannot import the package under test: %r" % e)
    sys.exit(1)

NONE = dict(t="none")

def array(m):
    return np.array([val(x) for x in m["e"]], dtype=float).reshape((m["r"], m["c"]), order="F")

def column_struct(rnd, n):
    k = rnd.randint(1, n)
    return s3.struct([s3.entry("k", shape=k)] + ([s3.entry("l", shape=n - k)] if n > k else []))

def numeric(ctx, m, forms=True):
    """a numeric matrix in one of the forms a caller may use"""
    if m["t"] == "none":
        return None
    a = array(m)
    if a.size == 0:
        return DM(*a.shape)
    f = [lambda: DM(a), lambda: DM(a)]
    if forms:
        f.append(lambda: a)
        if a.shape[1] == 1:
            f += [lambda: [float(x) for x in a[:, 0]], lambda: a[:, 0], lambda: tuple(float(x) for x in a[:, 0]),
                  lambda: column_struct(ctx.rnd, a.shape[0])(DM(a))]
        else:
            f += [lambda: [[float(x) for x in r] for r in a]]
        if a.shape == (1, 1):
            f += [lambda: float(a[0, 0])] * 3 + ([lambda: int(a[0, 0])] * 3 if abs(a[0, 0]) < 1e9 and a[0, 0] == int(a[0, 0]) else [])
    return ctx.rnd.choice(f)()

def expression(ctx, m, kind, zeros=()):
    a = array(m)
    new, S = (ctx.sxsym, s3.struct_symSX) if kind == "SX" else (ctx.mxsym, s3.struct_symMX)
    x = ctx.rnd.random()
    if zeros:
        at = [k for k in range(a.size) if k not in zeros]
        e = new([a.flatten("F")[k] for k in at], len(at), 1)
        sp = Sparsity.triplet(*a.shape, [k % a.shape[0] for k in at], [k // a.shape[0] for k in at])
        return (SX if kind == "SX" else MX)(sp, e)
    if a.shape[1] == 1 and a.size and x < .2 and kind == "MX":
        s = S(column_struct(ctx.rnd, a.shape[0]))
        ctx.mx.append(s.cat)
        ctx.mxv.append(DM(a))
        return s
    e = new(a.flatten("F"), *a.shape)
    return e if x < .6 else 3 * e - 2 * e

def plain(x):
    """matrix behind a structure"""
    return x.cat if hasattr(x, "cat") and not isinstance(x, (DM, SX, MX)) else x

def look(ctx, q):
    es = [plain(q.expr), plain(q.lb), plain(q.ub)] + ([plain(q.nominal)] if q.nominal is not None else [])
    v = [mat(m) for m in ctx.evaluate(es)]
    return dict(expr=v[0], lb=v[1], ub=v[2], nom=v[3] if len(v) > 3 else NONE, numel=int(q.numel()))

EMPTY = dict(expr=NONE, lb=NONE, ub=NONE, nom=NONE, numel=-1)

def run_case(case, ev):
    ctx = Ctx(case)
    reg = {}
    for n, op in enumerate(case["ops"]):
        e = dict(op, reset=n == 0, out="ok", res=EMPTY)
        ev.append(e)
        k = op["op"]
        if k in ("cat", "catd"):
            if any(p not in reg for p in op["parts"]):
                ev.pop()
                continue
            e["under"] = []
        if k == "look" and op["o"] not in reg:
            ev.pop()
            continue
        if k == "spoil":
            # nobody looks at this one again
            ev.pop()
            q = reg.pop(op["o"], None)
            for x in (q.lb, q.ub, q.nominal) if q is not None else ():
                scribble(plain(x))
            continue
        if k == "var":
            e["seen"], e["symbolic"] = "", False
        try:
            if k == "mk":
                x = expression(ctx, op["expr"], case.get("kind", "MX"), op.get("zeros", ()))
                kw = {f: numeric(ctx, op[g]) for f, g in (("lb", "lb"), ("ub", "ub"), ("nominal", "nom")) if op[g]["t"] != "none" or ctx.rnd.random() < .3}
                q = Inequality(x, **kw) if ctx.rnd.random() < .5 else Inequality(expr=x, **kw)
            elif k == "var":
                kw = {f: numeric(ctx, op[g], f != "nominal") for f, g in (("lb", "lb"), ("ub", "ub"), ("nominal", "nom")) if op[g]["t"] != "none"}
                q = BoundedVariable(op["name"], **kw)
                if q.expr.is_symbolic() and q.expr.numel():
                    e["symbolic"], e["seen"] = bool(q.expr.is_valid_input()), q.expr.name()
                    ctx.mx.append(q.expr)
                    ctx.mxv.append(DM(np.arange(50001 + 100 * n, 50001 + 100 * n + q.expr.numel()).reshape(q.expr.shape, order="F")))
                e["symbolic"] = e["symbolic"] or q.expr.numel() == 0
            elif k == "cat":
                l = [reg[p] for p in op["parts"]]
                q = iq.vertcat(tuple(l) if ctx.rnd.random() < .2 else l)
            elif k == "catd":
                q = iq.vertcat({m: reg[p] for m, p in zip(op["names"], op["parts"])})
                def under(x, m):
                    return NONE if x is None else mat(ctx.evaluate([x[m]])[0])
                e["under"] = [dict(expr=under(q.expr, m), lb=under(q.lb, m), ub=under(q.ub, m), nom=under(q.nominal, m)) for m in op["names"]]
            elif k == "look":
                e["res"] = look(ctx, reg[op["o"]])
                continue
            e["res"] = look(ctx, q)
            reg[op["o"]] = q
            if k in ("mk", "var") and ctx.rnd.random() < .4:
                # the caller's matrices are the caller's (a structure given as a bound stays the one of the caller)
                for x in kw.values():
                    if isinstance(x, (DM, np.ndarray)):
                        scribble(x)
        except Exception:
            e["out"] = "exc"

if __name__ == "__main__":
    main(run_case)
