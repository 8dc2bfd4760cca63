"""Replays calls on polynomial bases, tableaus, piecewise polynomials and differential quadrature into /repo."""
import copy, random
from drv import *
try:
    import casadi_extras as ce
    from casadi_extras import collocation as co
    from casadi_extras.system_trajectory import SystemTrajectory
except Exception as e:
    print("cannot import the package under test: %r" % e)
    sys.exit(1)
DM, MX = cs.DM, cs.MX

def vec(l):
    return [num(x) for x in np.asarray(l, dtype=float).ravel()]
def rows(m):
    """rows of a matrix; anything else is nobody's expectation"""
    if isinstance(m, (MX, cs.SX)):
        m = cs.evalf(m)
    m = np.array(m, dtype=float)
    if m.ndim != 2:
        return "%d-dimensional" % m.ndim
    return [[num(x) for x in r] for r in m]
def coefs(p):
    return [num(x) for x in p.coef[::-1]]
def floats(l):
    return [val(x) for x in l]

def points(rnd, l, scalar=False):
    """a vector the way users write it"""
    v = floats(l)
    if all(x == int(x) for x in v) and rnd.random() < .4:
        v = [int(x) for x in v]
        return rnd.choice([list, np.array])(v)
    return rnd.choice([list, np.array, np.array, tuple])(v)
def query(rnd, l):
    if len(l) == 1 and rnd.random() < .5:
        x = val(l[0])
        if rnd.random() < .3:
            return rnd.choice([np.float64, np.array])(x)
        return rnd.choice([int, np.int64])(x) if x == int(x) and rnd.random() < .5 else x
    return points(rnd, l)
def matrix(rnd, m, kinds=("np",)):
    a = np.array([[val(x) for x in r] for r in m]).reshape((len(m), len(m[0]) if m else 0))
    k = rnd.choice(kinds)
    if k == "np":
        if np.all(a == np.round(a)) and rnd.random() < .3:
            a = a.astype(int)
        if rnd.random() < .2:
            a = np.asfortranarray(a)
        return a
    return DM(a) if k == "dm" else MX(DM(a))

def plain(rnd, ms):
    """matrices without saying so, all in the same form"""
    ls = [m.tolist() for m in ms]
    if all(len(l) == 1 for l in ls) and rnd.random() < .7:
        ls = [l[0] for l in ls]
        return ls if rnd.random() < .5 else [np.array(l) for l in ls]
    return ls

class Guard:
    """remembers arguments, to see whether a call changed them"""
    def __init__(self, *args):
        self.args, self.copies = args, [self.copy(a) for a in args]
    @staticmethod
    def copy(a):
        return MX(a) if isinstance(a, MX) else copy.deepcopy(a)
    def same(self):
        for a, b in zip(self.args, self.copies):
            if isinstance(a, MX):
                continue
            if not (type(a) is type(b) and np.array_equal(np.array(a), np.array(b))):
                return False
        return True

def spoil(rnd, *results):
    """a result belongs to the caller, who may change it"""
    if rnd.random() < .3:
        for x in results:
            x = x.coef if isinstance(x, np.poly1d) else x
            if isinstance(x, np.ndarray) and x.size and x.flags.writeable:
                x.flat[0] = 12345
            elif isinstance(x, DM) and x.nnz():
                x.nz[0] = 12345

def rehearse(rnd, f, *args):
    """the same arrays with other numbers in them, first"""
    if rnd.random() < .3:
        a = [x for x in args if isinstance(x, np.ndarray) and x.size and x.flags.writeable]
        old = [x.copy() for x in a]
        for x in a:
            x[...] = x + 1
        try:
            f()
        except Exception:
            pass
        for x, y in zip(a, old):
            x[...] = y

def kept(reg, rnd, key, make):
    """the same function object again, or another one"""
    if key not in reg["memo"] or rnd.random() < .4:
        reg["memo"][key] = make()
    return reg["memo"][key]

def describe(b):
    return dict(tau=vec(b.tau), n=int(b.numPoints), order=int(b.order), d=rows(b.D), polys=[coefs(p) for p in b.poly])

def apply(op, e, reg, rnd):
    k = op["op"]
    if k == "basis":
        t = points(rnd, op["nodes"]) if len(op["nodes"]) > 1 or rnd.random() < .5 else val(op["nodes"][0])
        g = Guard(t)
        b = reg[op["o"]] = co.PolynomialBasis(t)
        e.update(describe(b), same=g.same())
    elif k == "look":
        e.update(describe(reg[op["o"]]))
    elif k == "interp":
        t = query(rnd, op["t"])
        g = Guard(t)
        rehearse(rnd, lambda: reg[op["o"]].interpolationMatrix(t), t)
        r = reg[op["o"]].interpolationMatrix(t)
        e.update(m=rows(r), same=g.same())
        spoil(rnd, r)
    elif k == "compose":
        c = matrix(rnd, op["c"])
        g = Guard(c)
        rehearse(rnd, lambda: reg[op["o"]].compose(c), c)
        r = reg[op["o"]].compose(c)
        e.update(polys=[coefs(p) for p in r], same=g.same())
        spoil(rnd, *r)
    elif k == "values":
        x = np.array(points(rnd, op["nodes"]))
        u = matrix(rnd, op["u"])
        flat = len(op["u"]) == 1 and rnd.random() < .5
        if flat:
            u = u[0]
        t = query(rnd, op["t"]) if op["how"] == "barycentric" else np.array(points(rnd, op["t"]))
        g = Guard(x, u, t)
        f = kept(reg, rnd, (op["how"], tuple(op["nodes"])), lambda: (co.barycentricInterpolator if op["how"] == "barycentric" else co.polynomialInterpolator)(x))
        rehearse(rnd, lambda: f(u, t), u, t)
        spoil(rnd, f(u, t))
        r = np.array(f(u, t))
        e.update(vals=rows(r.reshape((1, -1)) if flat and r.ndim == 1 else r), same=g.same())
    elif k == "cheb":
        d, t = co.cheb(op["n"], val(op["t0"]), val(op["tf"]))
        e.update(d=rows(d), t=vec(t))
        spoil(rnd, d, t)
    elif k == "points":
        spoil(rnd, co.collocationPoints(op["n"], op["scheme"]))
        r = co.collocationPoints(op["n"], op["scheme"])
        e["p"] = vec(r)
        spoil(rnd, r)
    elif k == "tableau":
        if op["scheme"]:
            e["tau"] = vec(cs.collocation_points(op["n"], op["scheme"]))
            make = lambda: co.butcherTableuForCollocationMethod(op["n"], op["scheme"])
        else:
            t = points(rnd, op["tau"])
            if isinstance(t, tuple):
                t = list(t)
            g = Guard(t)
            make = lambda: co.butcherTableuForCollocationPoints(t)
            rehearse(rnd, make, t)
        b = make()
        if op["scheme"]:
            spoil(rnd, b.A, b.b, b.c)
            b = make()
        else:
            e["same"] = g.same()
        e.update(a=rows(b.A), b=vec(b.b), c=vec(b.c))
    elif k == "raw":
        a, b, c = [np.arange(1., 1 + np.prod(op[s])).reshape(op[s]) for s in ("sa", "sb", "sc")]
        t = co.ButcherTableau(a, b, c)
        e["kept"] = bool(np.array_equal(t.A, a) and np.array_equal(t.b, b) and np.array_equal(t.c, c))
    elif k == "pp":
        iv = points(rnd, op["iv"])
        if isinstance(iv, tuple):
            iv = list(iv)
        cf = [matrix(rnd, m) for m in op["co"]]
        if op.get("plain"):
            cf = plain(rnd, cf)
        b = co.PolynomialBasis(points(rnd, op["nodes"]))
        g = Guard(iv, *cf)
        f = reg[op["o"]] = co.PiecewisePoly(iv, cf, b)
        e.update(bounds=vec(f.intervals), n=int(f.numIntervals), same=g.same())
        reg["guards"].append(g)
    elif k == "call":
        t = query(rnd, op["t"])
        g = Guard(t)
        f = reg[op["o"]]
        rehearse(rnd, lambda: f(t, op["side"]), t)
        r = f(t) if op["side"] == "right" and rnd.random() < .3 else (f(t, op["side"]) if rnd.random() < .5 else f(t, continuity=op["side"]))
        e.update(vals=rows(r), same=g.same() and all(x.same() for x in reg["guards"]))
        spoil(rnd, r)
    elif k == "derivative":
        f = reg[op["o"]] = reg[op["src"]].derivative()
        e.update(bounds=vec(f.intervals), n=int(f.numIntervals))
    elif k == "poly":
        p = reg[op["o"]].poly(op["i"] - 1)
        e.update(polys=[coefs(x) for x in p], same=all(x.same() for x in reg["guards"]))
        spoil(rnd, *p)
    elif k == "sample":
        x, y = reg[op["o"]].discretize(val(op["step"]))
        e.update(x=vec(x), y=rows(y), same=all(x.same() for x in reg["guards"]))
        spoil(rnd, x, y)
    elif k == "pdq":
        b = points(rnd, op["b"])
        g = Guard(b)
        kw = {}
        if op["m"] != 5 or rnd.random() < .5:
            kw["poly_order"] = op["m"]
        if op["scheme"] != "chebyshev" or rnd.random() < .5:
            kw["polynomial_type"] = op["scheme"]
        q = reg[op["o"]] = co.Pdq(b, **kw)
        reg["memo"] = {}
        e.update(pts=vec(q.collocationPoints), sp=vec(co.collocationPoints(op["m"], op["scheme"])), bounds=vec(q.intervalBounds), n=int(q.numIntervals),
                 order=int(q.polyOrder), t0=num(q.t0), tf=num(q.tf), length=num(q.intervalLength()), same=g.same())
    elif k in ("deriv", "integral", "round", "expand"):
        q = reg[op["o"]]
        y = matrix(rnd, op["y"], ("np", "dm", "mx"))
        g = Guard(y)
        rehearse(rnd, lambda: dict(deriv=q.derivative, integral=q.integral, expand=q.expandInput, round=q.derivative)[k](y), y)
        if k == "round":
            r = q.integral(q.derivative(y))
        else:
            r = dict(deriv=q.derivative, integral=q.integral, expand=q.expandInput)[k](y)
        e.update(vals=rows(r), same=g.same())
        spoil(rnd, r)
    elif k == "interpolate":
        y = matrix(rnd, op["y"], ("np", "np", "dm"))
        t = query(rnd, op["t"])
        g = Guard(y, t)
        q = reg[op["o"]]
        f = kept(reg, rnd, (op["o"], op["cont"]), lambda: q.interpolator() if op["cont"] == "both" and rnd.random() < .3 else (q.interpolator(op["cont"]) if rnd.random() < .5 else q.interpolator(continuity=op["cont"])))
        rehearse(rnd, lambda: f(y, t), y, t)
        if rnd.random() < .3:
            spoil(rnd, f(y, t))
        r = f(y, t)
        e.update(vals=rows(r), same=g.same())
        spoil(rnd, r)
    elif k == "system":
        x, z, u = [matrix(rnd, op[n], ("np", "np", "np", "dm")) for n in "xzu"]
        x, z, u = [a[0] if isinstance(a, np.ndarray) and len(a) == 1 and rnd.random() < .3 else a for a in (x, z, u)]
        t = query(rnd, op["t"])
        g = Guard(x, z, u, t)
        s = SystemTrajectory(x, z, u, reg[op["o"]])
        ask = [("xs", s.state), ("zs", s.algState), ("us", s.input)]
        rnd.shuffle(ask)
        for n, f in ask:
            rehearse(rnd, lambda: f(t), t)
        for n, f in ask + ask[:rnd.choice([0, 0, 1, 2])]:
            r = f(t)
            e[n] = rows(r)
            spoil(rnd, r)
        e.update(time=vec(s.time), same=g.same())

FIELDS = dict(tau=[], n=0, order=0, d=[], polys=[], m=[], vals=[], t=[], p=[], a=[], b=[], c=[], kept=False, bounds=[], x=[], y=[], pts=[], sp=[],
              t0="0", tf="0", length="0", xs=[], zs=[], us=[], time=[], same=True)
NEED = dict(basis="tau n order d polys same", look="tau n order d polys", interp="m same", compose="polys same", values="vals same", cheb="d t", points="p",
            tableau="tau a b c same", raw="kept", pp="bounds n same", call="vals same", derivative="bounds n", poly="polys same", sample="x y same",
            pdq="pts sp bounds n order t0 tf length same", deriv="vals same", integral="vals same", round="vals same", expand="vals same", interpolate="vals same",
            system="xs zs us time same")

def run_case(case, ev):
    rnd = random.Random(case.get("var", 0))
    reg = dict(guards=[], memo={})
    cost = 0
    for n, op in enumerate(case["ops"]):
        if op["op"] not in ("basis", "pp", "pdq", "derivative") and "o" in op and op["o"] not in reg or "src" in op and op["src"] not in reg:
            continue
        e = {f: FIELDS[f] for f in NEED[op["op"]].split()}
        e.update(op, reset=not ev, out="ok")
        ev.append(e)
        try:
            apply(op, e, reg, rnd)
        except Exception:
            e["out"] = "exc"
        # a result that is no matrix
        for f in ("m", "d", "vals", "y", "xs", "zs", "us", "a"):
            if isinstance(e.get(f), str):
                e[f] = []
        cost += len(str(e))
    return cost

if __name__ == "__main__":
    main(run_case)
