"""Checks of the numerical parts: bases, tableaus, piecewise polynomials, differential quadrature, collocation."""
from checks import check
from checks_struct import case, chunks
import math
from fractions import Fraction as F

def frac(x):
    x = F(x)
    return str(x.numerator) if x.denominator == 1 else "%d/%d" % (x.numerator, x.denominator)

LONG = frac(F(3 ** 300 + 1, 7 ** 150))
def rat_ok(run):
    """the arithmetic of the oracles themselves"""
    run.side(run.model, "RatCheck", dict(Bound=4 if run.quick else 7))
    run.side(run.model, "NumCheck", dict(Size=3 if run.quick else 5, Items=["0", "1", "-2", "1/3", LONG, "nan"]))

def rand_num(r, lo, hi, den=None):
    """an exactly representable number"""
    if r.random() < .2:
        return frac(F(r.uniform(float(lo), float(hi))))
    d = den or r.choice([1, 2, 4, 8, 64])
    return frac(F(r.randint(math.ceil(F(lo) * d), math.floor(F(hi) * d)), d))

def rand_nodes(r, n, lo=-1, hi=1, gap=F(1, 16), srt=False):
    """n distinct nodes that are not too close to each other"""
    while True:
        l = [rand_num(r, lo, hi) for _ in range(n)]
        q = sorted(F(x) for x in l)
        if all(b - a >= gap for a, b in zip(q, q[1:])):
            return [frac(x) for x in q] if srt else l

def rand_vals(r, rows, cols):
    big = r.choice([4, 4, 100])
    z = r.random() < .2
    m = [["0" if z and r.random() < .5 else rand_num(r, -big, big) for _ in range(cols)] for _ in range(rows)]
    if r.random() < .15:
        # rows in other units
        all_ = r.choice([None, None, F(1, 2 ** 50)])
        for i in range(rows):
            f = all_ or r.choice([1, 1, F(1, 2 ** 50), F(1, 2 ** 20), 2 ** 30])
            m[i] = [frac(F(x) * f) for x in m[i]]
    return m

def whole_vals(r, rows, cols):
    return [[str(r.randint(-9, 9)) for _ in range(cols)] for _ in range(rows)]

def rand_ascending(r, n, lo=None, gap=F(1, 8)):
    x = F(rand_num(r, -3, 3)) if lo is None else F(lo)
    l = [x]
    mode = r.choice(["any"] * 4 + ["whole"] * 3 + ["alike", "equal", "unlike"])
    w = F(rand_num(r, gap, 2))
    for _ in range(n - 1):
        if mode == "alike":
            d = w * (1 + F(r.choice([-1, 0, 1]), 2 ** r.randint(6, 24)))
        else:
            d = dict(whole=r.randint(1, 3), equal=w, unlike=r.choice([F(1, 128), F(1, 2), 8, w]), any=F(rand_num(r, gap, 2)))[mode]
        x = F(float(x + d))
        l.append(x)
    return [frac(x) for x in l]

def rand_grid(r, n, wide=0):
    """as above, sometimes (as often as wide says) with many intervals"""
    if r.random() < wide:
        return rand_ascending(r, r.randint(7, 14) if r.random() < .7 else r.randint(18, 40))
    return rand_ascending(r, n)

def rescale(r, l, most=10**5):
    """the same points in other units, and seen from elsewhere"""
    x = r.random()
    if x < .55:
        return l
    if x < .7:
        # whole numbers, possibly large
        f = r.choice([x for x in (1, 100, 10**4, 10**6) if x <= most])
        out = [round(F(x) * 16) * f for x in l]
        return [str(x) for x in out] if len(set(out)) == len(out) else l
    f = r.choice([x for x in (F(10), F(1000), F(10**5), F(10**7), F(1, 1024), F(1, 2**20), F(1, 1000)) if x <= most])
    o = r.choice([0, 0, 0, 1, -3, 100, 1000]) * r.choice([1, f])
    out = [F(float(F(x) * f + o)) for x in l]
    q = sorted(out)
    # little lost by rounding
    if len(q) > 1 and max(map(abs, q)) > 10**4 * min(b - a for a, b in zip(q, q[1:])):
        return l
    return [frac(x) for x in out]

def near(r, x, w=1):
    """a point close to another one, but not the same"""
    x = F(x)
    d = F(w) * r.choice([1, -1]) / 2 ** r.randint(10, 34)
    y = F(float(x + d))
    return frac(y) if abs((y - x) / d - 1) < F(1, 1000) else frac(F(float(x + F(w) / 64)))

def close_nodes(r, n, lo, hi):
    """nodes of which two or three are close to each other"""
    k = r.randint(1, min(2, n - 1))
    l = rand_nodes(r, n - k, lo, hi, gap=F(hi - lo, 4 * n))
    for _ in range(k):
        d = F(hi - lo) * r.choice([1, -1]) / 2 ** r.randint(7, 13)
        l.append(frac(F(float(F(r.choice(l[:n - k])) + d))))
    r.shuffle(l)
    q = sorted(F(x) for x in l)
    return l if all(b - a > F(hi - lo, 2 ** 14) for a, b in zip(q, q[1:])) else close_nodes(r, n, lo, hi)

def rand_queries(r, iv, n, nodes=()):
    """on the bounds, between them, at nodes, outside; in any order"""
    b = [F(x) for x in iv]
    w = b[-1] - b[0]
    out = []
    if r.random() < .25:
        # from bound to interval to bound, mostly onwards
        n, k, d = max(n, 4), r.randrange(2 * len(b) - 1), r.choice([1, -1])
        for _ in range(n):
            out.append(b[k // 2] if k % 2 == 0 else F(float(b[k // 2] + (b[k // 2 + 1] - b[k // 2]) * F(r.uniform(.05, .95)))))
            d = -d if r.random() < .2 or not 0 <= k + d < 2 * len(b) - 1 else d
            k = min(max(k + d, 0), 2 * len(b) - 2)
        n = 0
    for _ in range(n):
        k = r.random()
        if k < .3:
            out.append(r.choice(b))
        elif k < .35:
            out.append(F(near(r, r.choice(b), min(y - x for x, y in zip(b, b[1:])))))
        elif k < .5 and nodes:
            i = r.randrange(len(b) - 1)
            out.append(F(float(b[i] + (b[i + 1] - b[i]) * F(r.choice(nodes)))))
        elif k < .65:
            out.append(F(float(r.choice([b[0] - F(r.uniform(0, 1)) * (b[1] - b[0]), b[-1] + F(r.uniform(0, 1)) * (b[-1] - b[-2])]))))
        else:
            out.append(F(float(b[0] + w * F(r.random()))))
    return [frac(x) for x in out]

NODES = ["-1", "0", "1/4", "1", "2"]
QUERIES = ["-2", "-1", "-1/2", "0", "1/4", "1", "3"]

def basis_ops(r, nodes, extra=()):
    """a history of calls on one basis"""
    n = len(nodes)
    q = [F(x) for x in nodes]
    lo, hi = min(q), max(q)
    w = hi - lo or 1
    ops = [dict(op="basis", o=1, nodes=nodes)]
    def ask():
        def one():
            x = r.random()
            return r.choice(nodes) if x < .3 else near(r, r.choice(nodes), w) if x < .5 else frac(F(float(lo - w / 2 + 2 * w * F(r.random()))))
        return dict(op="interp", o=1, t=[one() for _ in range(r.randint(1, 4) if r.random() < .98 else r.randint(101, 140))])
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if k < .45:
            ops.append(ask())
        elif k < .7:
            ops.append(dict(op="compose", o=1, c=rand_vals(r, r.randint(1, 3), n)))
        else:
            ops.append(dict(op="values", how="barycentric", nodes=nodes, u=rand_vals(r, r.randint(1, 3), n), t=ask()["t"]))
    if extra:
        ops.append(dict(op="interp", o=1, t=list(extra)))
    if r.random() < .5:
        ops.append(dict(op="look", o=1))
    return ops

@check("C14", "exhaustive over all sequences of up to 3 (thorough: 4) distinct nodes out of 5, with fixed query points (oracle compared exactly with powers of t); random nodes up to 10, queries, coefficients, call orders beyond; exact rational oracle, rounding tolerance scaled by the Lebesgue function")
def c14(run):
    r = run.rng
    rat_ok(run)
    cases = [case(r, basis_ops(r, c["nodes"], QUERIES[:r.randint(1, 6)])) for c in run.model("PolyModel", dict(Scope="basis", Size=3 if run.quick else 4, Nodes=NODES, Queries=QUERIES))]
    for _ in range(150 if run.quick else 2000):
        n = r.choice([1, 2, 3, 3, 4, 5, 6, 8, 10])
        lo, hi = r.choice([(0, 1), (-1, 1), (-1, 1), (-3, 4), (2, 5), (-40, 60)])
        nodes = rand_nodes(r, n, lo, hi, gap=F(hi - lo, 4 * n)) if n == 1 or r.random() < .8 else close_nodes(r, n, lo, hi)
        cases.append(case(r, basis_ops(r, rescale(r, nodes, 10**7 if n < 6 else 10**5))))
    for _ in range(80 if run.quick else 600):
        n = r.randint(1, 5)
        nodes = rand_nodes(r, n, -2, 2, gap=F(1, 4)) if n == 1 or r.random() < .7 else close_nodes(r, n, 0, 1)
        f = r.choice([1, 1, 1, F(1, 1024), 10, 16 * 10**3, 16 * 10**5])
        scaled = lambda l: [frac(F(float(F(x) * f))) for x in l]
        cases.append(case(r, [dict(op="values", how="power", nodes=scaled(nodes), u=rand_vals(r, r.randint(1, 3), n), t=scaled([rand_num(r, -2, 2) for _ in range(r.randint(1, 4))]))]))
    for _ in range(40 if run.quick else 300):
        t0 = rand_num(r, -4, 4)
        tf = frac(F(float(F(t0) + r.choice([1, 1, 1, -1]) * F(rand_num(r, F(1, 4), 6)))))
        cases.append(case(r, [dict(op="cheb", n=r.randint(1, 9), t0=t0, tf=tf)]))
    run.validate("PolyTrace", run.drive("polydrv", cases))

@check("C15", "exhaustive over all orders (1-9; Chebyshev 0-16) and schemes, over all tableaus for up to 3 (thorough: 4) distinct nodes out of 5 and over all argument shapes up to size 3; random nodes beyond; points are decided by sign changes of the defining polynomials in exact arithmetic")
def c15(run):
    r = run.rng
    rat_ok(run)
    cases = []
    for n in range(0, 17):
        cases.append(case(r, [dict(op="points", n=n, scheme="chebyshev")]))
        for s in ("legendre", "radau"):
            if 1 <= n <= 9:
                cases.append(case(r, [dict(op="points", n=n, scheme=s), dict(op="tableau", n=n, scheme=s, tau=[])]))
    for _ in range(12 if run.quick else 100):
        # several orders and schemes after each other
        ops = []
        for n in r.sample(range(1, 10), 3) * 2:
            s = r.choice(["legendre", "radau", "chebyshev"])
            ops.append(dict(op="points", n=n, scheme=s))
            if s != "chebyshev":
                ops.append(dict(op="tableau", n=n, scheme=s, tau=[]))
        cases.append(case(r, r.sample(ops, len(ops))))
    for c in run.model("PolyModel", dict(Scope="basis", Size=3 if run.quick else 4, Nodes=NODES, Queries=QUERIES)):
        cases.append(case(r, [dict(op="tableau", n=0, scheme="", tau=c["nodes"])]))
    for _ in range(150 if run.quick else 2000):
        n = r.choice([1, 2, 3, 4, 5, 6, 8])
        lo, hi = r.choice([(0, 1), (0, 1), (-1, 1), (0, 2), (-2, 3)])
        cases.append(case(r, [dict(op="tableau", n=0, scheme="", tau=rand_nodes(r, n, lo, hi, gap=F(hi - lo, 4 * n), srt=r.random() < .5))]))
    for _ in range(60 if run.quick else 600):
        n = r.choice([2, 3, 4, 5])
        lo, hi = r.choice([(0, 1), (0, 1), (-1, 1)])
        tau = close_nodes(r, n, lo, hi) if r.random() < .5 else rescale(r, rand_nodes(r, n, lo, hi, gap=F(hi - lo, 4 * n)), 1000)
        cases.append(case(r, [dict(op="tableau", n=0, scheme="", tau=tau)]))
    shapes = [[1], [2], [3], [], [1, 1], [2, 1], [1, 2], [2, 2], [3, 3], [2, 3], [2, 2, 2], [1, 1, 1]]
    for sa in shapes:
        for sb in shapes:
            cases.append(case(r, [dict(op="raw", sa=sa, sb=sb, sc=sc) for sc in shapes]))
    run.validate("PolyTrace", run.drive("polydrv", cases))

def pp_op(r, iv, nodes, rows=None, o=1):
    rows = rows or (r.randint(1, 3) if r.random() < .95 else r.randint(4, 12))
    n = len(nodes)
    co = []
    for i in range(len(iv) - 1):
        m = rand_vals(r, rows, n)
        if r.random() < .25:
            # a polynomial of lower degree on this interval
            row = r.randrange(rows)
            a, b = r.randint(-3, 3), r.choice([0, 0, 1, 2])
            m[row] = [frac(F(float(a + b * F(x)))) for x in nodes]
        co.append(m)
    return dict(op="pp", o=o, iv=iv, nodes=nodes, co=co)

def pp_nodes(r):
    return r.choice([["0", "1"], ["0", "1/2", "1"], ["0"], ["1/2"], ["0", "1/4", "1"], ["1/4", "3/4"], ["1", "0"], rand_nodes(r, r.randint(1, 6), 0, 1, gap=F(1, 20)), ["0"] + rand_nodes(r, r.randint(1, 3), F(1, 8), 1, gap=F(1, 10), srt=True)])

def calls(r, o, iv, nodes, k=None):
    out = []
    for _ in range(k or r.randint(1, 4)):
        out.append(dict(op="call", o=o, t=rand_queries(r, iv, r.randint(1, 5) if r.random() < .95 else r.choice([r.randint(11, 25), r.randint(50, 120)]), nodes), side=r.choice(["left", "right"]) if r.random() > .05 else r.choice(["both", "Right", "", "centre", "l", "r", "LEFT"])))
        if r.random() < .3:
            # the same points from the other side
            out.append(dict(out[-1], side=r.choice(["left", "right"])))
    return out

def plain_forms(r, cases):
    """coefficients as nested lists, a single row as a vector or number; interval polynomials want matrices"""
    for c in cases:
        if r.random() < .25 and not any(o["op"] == "poly" for o in c["ops"]):
            for o in c["ops"]:
                if o["op"] == "pp":
                    o["plain"] = True

@check("C16", "exhaustive over all 2-3 (thorough: 4) bounds out of 5 with query points on, between and outside them, both continuities, three degrees; random piecewise polynomials, query lists and call sequences beyond")
def c16(run):
    r = run.rng
    rat_ok(run)
    cases = []
    for c in run.model("PolyModel", dict(Scope="pp", Size=3 if run.quick else 4, Nodes=NODES, Queries=["-2", "-1", "-1/2", "0", "1/4", "1/2", "1", "3/2", "2", "3"])):
        q = c["queries"]
        nodes = [frac(F(i, c["m"])) if c["m"] != 3 else frac(F(i, 4)) for i in range(c["m"] + 1)]
        cases.append(case(r, [pp_op(r, c["iv"], nodes)] + [dict(op="call", o=1, t=l, side=s) for s in ("left", "right") for l in (q, q[::-1], [r.choice(q)])]))
    for _ in range(250 if run.quick else 3000):
        nodes = pp_nodes(r)
        iv = rescale(r, rand_grid(r, r.randint(2, 6), .08), 10**6)
        cases.append(case(r, [pp_op(r, iv, nodes)] + calls(r, 1, iv, nodes)))
    plain_forms(r, cases)
    run.validate("PolyTrace", run.drive("polydrv", cases))

@check("C17", "exhaustive over all 2-3 (thorough: 4) bounds out of 5 and three degrees with derivative, interval polynomials and several steps; random piecewise polynomials (also with rows of lower degree), second derivatives, steps and interleavings with evaluations beyond")
def c17(run):
    r = run.rng
    rat_ok(run)
    cases = []
    def steps(iv):
        w = [F(b) - F(a) for a, b in zip(iv, iv[1:])]
        c = [r.choice(w), max(w) * 2, min(w) / 4, min(w) / 3, max(w) / 10, max(w) * F(r.uniform(.2, 1)), r.choice(w) / r.randint(1, 7)]
        s = F(float(r.choice(c)))
        return frac(max(s, F(float(max(w) / (60 if len(w) < 14 else 3)))))
    def history(iv, nodes):
        ops = [pp_op(r, iv, nodes)]
        live = [1]
        for _ in range(r.randint(2, 5)):
            k = r.random()
            o = r.choice(live)
            if k < .25 and len(live) < 3:
                new = len(live) + 1
                ops.append(dict(op="derivative", o=new, src=o))
                live.append(new)
                ops += calls(r, new, iv, nodes, 1)
            elif k < .5:
                ops.append(dict(op="poly", o=o, i=r.randint(1, len(iv) - 1)))
            elif k < .75:
                ops.append(dict(op="sample", o=o, step=steps(iv)))
            else:
                ops += calls(r, o, iv, nodes, 1)
        if r.random() < .4:
            ops.append(dict(op="derivative", o=len(live) + 1, src=live[-1]))
            ops += calls(r, len(live) + 1, iv, nodes, 1)
        return ops + calls(r, 1, iv, nodes, 1)
    for c in run.model("PolyModel", dict(Scope="pp", Size=3 if run.quick else 4, Nodes=NODES, Queries=["-1", "0", "1/2", "1", "2", "3"])):
        nodes = [frac(F(i, c["m"])) if c["m"] != 3 else frac(F(i, 4)) for i in range(c["m"] + 1)]
        iv = c["iv"]
        ops = [pp_op(r, iv, nodes), dict(op="derivative", o=2, src=1)] + [dict(op="call", o=o, t=c["queries"], side=s) for o in (1, 2) for s in ("left", "right")]
        ops += [dict(op="poly", o=1, i=i + 1) for i in range(len(iv) - 1)] + [dict(op="sample", o=1, step=s) for s in ("1", "1/3" if False else "3/8", steps(iv))]
        cases.append(case(r, ops + calls(r, 1, iv, nodes, 1)))
    for _ in range(250 if run.quick else 3000):
        if r.random() < .1:
            # whole numbers all along, of any size
            f, x, iv, nodes = 10 ** r.randint(0, 7), r.randint(-3, 3), [], rand_nodes(r, r.randint(2, 6), 0, 1, gap=F(1, 20))
            for _ in range(r.randint(2, 4)):
                iv.append(str(x * f))
                x += r.randint(1, 5)
            cases.append(case(r, [pp_op(r, iv, nodes)] + [dict(op="poly", o=1, i=i + 1) for i in range(len(iv) - 1)] + calls(r, 1, iv, nodes, 1)))
        cases.append(case(r, history(rescale(r, rand_grid(r, r.randint(2, 5), .03), 10**6), pp_nodes(r))))
    plain_forms(r, cases)
    run.validate("PolyTrace", run.drive("polydrv", cases))

def pdq_op(r, b=None, m=None, o=1):
    if b is None and r.random() < .03:
        b, m = rescale(r, rand_ascending(r, r.randint(12, 14))), r.choice([1, 2])
    elif b is None and r.random() < .02:
        b, m = rand_ascending(r, r.randint(36, 44)), r.choice([4, 5])
    return dict(op="pdq", o=o, b=b or rescale(r, rand_ascending(r, r.randint(2, 5))), m=m or r.choice([1, 2, 3, 4, 5, 5, 6]), scheme=r.choice(["chebyshev", "radau"]))

def pdq_cases(run, r, follow):
    cases = []
    for c in run.model("PolyModel", dict(Scope="pdq", Size=3 if run.quick else 4, Nodes=NODES, Queries=["-2", "-1", "0", "1/8", "1", "3"])):
        for s in ("chebyshev", "radau"):
            op = dict(op="pdq", o=1, b=c["iv"], m=c["m"], scheme=s)
            cases.append(case(r, [op] + follow(op, c["queries"])))
    return cases

@check("C18", "exhaustive over all 2-3 (thorough: 4) bounds out of 5, orders 1-4 and both schemes; random bounds, orders up to 8, value matrices beyond (numpy, DM and MX arguments)")
def c18(run):
    r = run.rng
    rat_ok(run)
    def follow(op, q=None):
        n = (len(op["b"]) - 1) * op["m"] + 1
        rows = r.randint(1, 3) if r.random() < .92 or n > 60 else r.randint(4, 9)
        out = [dict(op="deriv", o=1, y=rand_vals(r, rows, n)), dict(op="integral", o=1, y=rand_vals(r, rows, n - 1)), dict(op="round", o=1, y=rand_vals(r, rows, n)),
               dict(op="expand", o=1, y=rand_vals(r, rows, len(op["b"]) - 1 if r.random() < .9 else r.choice([len(op["b"]), n - 1, 1])))]
        r.shuffle(out)
        return out
    cases = pdq_cases(run, r, follow)
    for i in range(120 if run.quick else 1500):
        op = pdq_op(r, m=r.choice([None, None, None, 7, 8])) if i % 100 else pdq_op(r, rand_ascending(r, r.randint(36, 44)), 4)
        cases.append(case(r, [op] + follow(op)))
    run.validate("PolyTrace", run.drive("polydrv", cases))

@check("C19", "exhaustive over all 2-3 (thorough: 4) bounds out of 5, orders 1-4, both schemes and all continuities with query points on, between and outside the bounds; random bounds, orders, values, query lists and column counts beyond")
def c19(run):
    r = run.rng
    rat_ok(run)
    def follow(op, q=None):
        n = (len(op["b"]) - 1) * op["m"] + 1
        out = []
        def ts():
            return q if q and r.random() < .5 else rand_queries(r, op["b"], r.randint(1, 5))
        def off(k):
            return k if r.random() < .95 else max(1, k + r.choice([-1, 1, 2]))
        for c in ("both", "left", "right"):
            out.append(dict(op="interpolate", o=1, cont=c, y=rand_vals(r, r.randint(1, 3) if r.random() < .95 else r.randint(4, 9), off(n if c == "both" else n - 1)), t=ts()))
        if r.random() < .1:
            out.append(dict(op="interpolate", o=1, cont=r.choice(["", "none", "Both", "r", "LEFT"]), y=rand_vals(r, 1, r.choice([n, n - 1, n - 1])), t=ts()))
        if r.random() < .6:
            some = lambda: rand_vals if r.random() < .7 else whole_vals
            out.append(dict(op="system", o=1, x=some()(r, r.randint(1, 3), off(n)), z=some()(r, r.randint(1, 2), off(n - 1)), u=some()(r, r.randint(1, 2), off(n - 1)), t=ts()))
        r.shuffle(out)
        return out
    cases = pdq_cases(run, r, follow)
    for i in range(150 if run.quick else 2000):
        op = pdq_op(r) if i % 100 else pdq_op(r, rand_ascending(r, r.randint(36, 44)), 4)
        cases.append(case(r, [op] + follow(op)))
    run.validate("PolyTrace", run.drive("polydrv", cases))

# ---------------------------------------------------------------- collocation
PARALLEL = ["serial", "unroll", "inline", "openmp", "thread"]

def quarter(r, n):
    return [frac(F(r.randint(-8, 8), 4)) for _ in range(n)]

def small_poly(r, n, parts, deg=2, terms=3):
    vs = [dict(p=q, i=i) for q in parts for i in range(n[q])]
    return [dict(c=r.choice([-2, -1, 1, 2, 3]), v=[r.choice(vs) for _ in range(r.randint(0, deg))] if vs else []) for _ in range(r.randint(1, terms))]

def quadratures(r, n, parts, k):
    """some of them far larger than the states"""
    l = [small_poly(r, n, parts) for _ in range(k)]
    return [[dict(t, c=t["c"] * f) for t in q] for q, f in [(q, r.choice([1] * 8 + [5000, -10 ** 6])) for q in l]]

def coll_model(r, kind):
    """any polynomial model"""
    n = dict(x=r.choice([1, 2, 2, 3]), z=r.choice([0, 1, 2]), u=r.choice([0, 1, 2]), p=r.choice([0, 1, 2]), t=1, tdp=r.choice([0, 0, 1, 2]), xdot=0)
    if r.random() < .1:
        for q in r.sample(["x", "z", "u", "p", "tdp"], 2):
            n[q] = r.randint(3, 6)
    parts = ["x", "z", "u", "p", "t", "tdp"]
    if kind == "impl":
        n["xdot"] = n["x"]
        parts.append("xdot")
    m = dict(kind=kind, n=n, s={q: [n[q], 1] for q in n}, ode=[], alg=[], dae=[], quad=quadratures(r, n, parts, r.choice([0, 1, 2]) if r.random() < .93 else r.randint(3, 6)), a=[1])
    # every quantity occurs somewhere
    musts = [dict(p=q, i=i) for q in parts for i in range(n[q])]
    r.shuffle(musts)
    if kind == "semi":
        m["ode"] = [small_poly(r, n, parts) for _ in range(n["x"])]
        m["alg"] = [small_poly(r, n, parts) for _ in range(n["z"])]
        eqs = m["ode"] + m["alg"]
    else:
        m["dae"] = eqs = [small_poly(r, n, parts) for _ in range(n["x"] + n["z"])]
    for v in musts:
        r.choice(eqs + m["quad"]).append(dict(c=r.choice([-1, 1, 2]), v=[v]))
    return m

def time_polys(r, k):
    return [[dict(c=r.choice([-2, -1, 1, 2]), v=[dict(p="t", i=0)] * r.randint(0, 2)) for _ in range(r.randint(1, 2))] for _ in range(k)]

def scheme_op(r, t, n, method, kind, rep, expand, m=None):
    m = m or coll_model(r, kind)
    return dict(op="scheme", o=1, m=m, t=t, n=n, method=method, par=r.choice(PARALLEL), expand=expand, rep=rep, tdp=time_polys(r, m["n"]["tdp"]))

def scheme_vals(r, s):
    n, N, M = s["m"]["n"], len(s["t"]) - 1, s["n"]
    mat = lambda a, b: [quarter(r, b) for _ in range(a)]
    # states in other units
    f = r.choice([1] * 10 + [F(1, 2 ** 60), F(1, 1024), 2 ** 30])
    unit = lambda m: [[frac(F(x) * f) for x in row] for row in m]
    return dict(x=unit(mat(n["x"], N + 1)), K=unit(mat(n["x"], N * M)), Z=mat(n["z"], N * M), u=mat(n["u"], N), p=mat(n["p"], N * M if s["rep"] else 1))

def rand_scheme(r):
    wide, high = r.random() < .04, r.random() < .06
    t = rand_ascending(r, r.randint(12, 13) if wide else r.choice([2, 2, 3, 3, 4, 5]) if not high else r.choice([2, 2, 3]))
    if r.random() < .12:
        # far from zero
        o = r.choice([1, -1]) * r.choice([64, 100, 1000])
        t = [frac(F(float(F(x) + o))) for x in t]
    return scheme_op(r, t, r.choice([1, 2]) if wide else r.randint(6, 9) if high else r.choice([1, 2, 2, 3, 3, 4, 5]), r.choice(["legendre", "radau"]), r.choice(["semi", "impl"]), r.random() < .4, r.random() < .6)

def scheme_cases(run, r, follow, count):
    cases = []
    l = run.model("CollocationModel", dict(Grid=["0", "1/2", "1", "3"] if run.quick else ["-1/4", "0", "1/2", "1", "3"], MaxPoints=2 if run.quick else 3, Kinds=["semi", "impl"]))
    if len(l) > count:
        l = r.sample(l, count)
    for c in l:
        s = scheme_op(r, c["t"], c["n"], c["method"], c["kind"], c["rep"], c["expand"])
        cases.append(case(r, [s] + follow(s)))
    return cases

@check("C20", "exhaustive over all grids of 2-4 (thorough: 5) times out of 4-5, 1-2 (thorough: 3) points, methods, parameter repetition, expansion and kinds of model, each with a random polynomial model; random grids, up to 5 points, all parallelizations beyond; oracle from the definition in rational arithmetic")
def c20(run):
    r = run.rng
    rat_ok(run)
    def follow(s):
        return [dict(op="eval", o=1, about="equations", v=scheme_vals(r, s)) for _ in range(r.choice([1, 1, 2]))]
    cases = scheme_cases(run, r, follow, 240 if run.quick else 1200)
    for _ in range(150 if run.quick else 1500):
        s = rand_scheme(r)
        cases.append(case(r, [s] + follow(s)))
    run.validate("CollocationTrace", run.drive("colldrv", cases))

WHAT = ["K", "x", "Z", "U", "u", "p", "eq", "q"]
@check("C21", "as C20 for quadratures, states, trajectories; all combinations of up to 2 (thorough: 3) parts in order, random selections beyond, unknown parts")
def c21(run):
    r = run.rng
    rat_ok(run)
    sel = [[a] for a in WHAT] + [[a, b] for a in WHAT for b in WHAT if a != b]
    if not run.quick:
        sel += [[a, b, c] for a in WHAT for b in WHAT for c in WHAT if len({a, b, c}) == 3]
    r.shuffle(sel)
    def follow(s):
        out = [dict(op="eval", o=1, about="quadratures", v=scheme_vals(r, s)), dict(op="traj", o=1, v=scheme_vals(r, s), ts=rand_queries(r, s["t"], r.randint(1, 5)), side=r.choice(["left", "right"]))]
        what = sel.pop() if sel else r.sample(WHAT, r.randint(1, len(WHAT)))
        if r.random() < .1:
            what = what + [r.choice(["X", "quad", "tc", "y", "", "Q", "z", "k"])]
            r.shuffle(what)
        out.append(dict(op="combine", o=1, v=scheme_vals(r, s), what=what))
        if r.random() < .2:
            out.append(dict(op="combine", o=1, v=scheme_vals(r, s), what=r.sample(what, len(what)) if r.random() < .7 else r.sample(WHAT, r.randint(2, len(WHAT)))))
        r.shuffle(out)
        return out
    cases = scheme_cases(run, r, follow, 200 if run.quick else 1000)
    for _ in range(120 if run.quick else 1200):
        s = rand_scheme(r)
        cases.append(case(r, [s] + follow(s)))
    run.validate("CollocationTrace", run.drive("colldrv", cases))

def solvable_model(r, kind, t):
    """a model whose collocation equations Newton's method solves: triangular, mild in the states, growing only if the intervals are short"""
    short = max(F(b) - F(a) for a, b in zip(t, t[1:])) < F(2, 5)
    n = dict(x=r.choice([1, 2, 2, 3]) if r.random() < .92 else r.randint(4, 6), z=r.choice([0, 0, 1, 2]), u=r.choice([0, 1, 2]), p=r.choice([0, 1, 2]), t=1, tdp=r.choice([0, 0, 1]), xdot=0)
    ext = ["u", "p", "t", "tdp"]
    V = lambda q, i: dict(p=q, i=i)
    T = lambda c, *v: dict(c=c, v=list(v))
    def forcing():
        vs = [V(q, i) for q in ext for i in range(n[q])]
        return [T(r.choice([-1, 1, 2]), *[r.choice(vs) for _ in range(r.randint(0, 2))]) for _ in range(r.randint(1, 2))]
    ode = []
    for i in range(n["x"]):
        f = forcing()
        f.append(T(r.choice([-2, -1, 1, 1] if short else [-3, -2, -1, -1]), V("x", i)))
        for j in range(i):
            if r.random() < .7:
                f.append(T(r.choice([-1, 1, 2]), *[V("x", j)] * r.choice([1, 1, 2])) if n["x"] < 4 else T(r.choice([-1, 1]), V("x", j)))
        if n["u"] and r.random() < .3:
            f.append(T(r.choice([-1, 1]), V("u", 0), V("x", i)))
        if n["z"] and r.random() < .7:
            # the algebraic states are functions of the first state and what is given
            f.append(T(r.choice([-1, 1]), V("z", r.randrange(n["z"]))) if i else T(0))
        ode.append(f)
    alg = []
    for i in range(n["z"]):
        g = [T(r.choice([-2, -1, 1, 3]), V("z", i))] + forcing()
        if r.random() < .8:
            g.append(T(r.choice([-1, 1]), *[V("x", 0)] * r.choice([1, 2])))
        if i and r.random() < .6:
            g.append(T(1, V("z", i - 1)))
        alg.append(g)
    parts = ["x", "z", "u", "p", "t", "tdp"]
    quad = quadratures(r, n, parts, r.choice([0, 1, 1, 2]) if r.random() < .95 else r.randint(3, 5))
    m = dict(kind=kind, n=n, s=None, ode=ode, alg=alg, dae=[], quad=quad, a=[1])
    if kind == "impl":
        n["xdot"] = n["x"]
        dae = []
        for i, f in enumerate(ode):
            c = r.choice([1, -1, 2, 3])
            g = [T(c, V("xdot", i))] + [dict(t, c=-c * t["c"]) for t in f]
            if i and r.random() < .5:
                g.append(T(1, V("xdot", i - 1)))
            dae.append(g)
        eqs = dae + alg
        m.update(ode=[], alg=[], dae=eqs)
        if quad and r.random() < .3:
            quad[0].append(T(1, V("xdot", 0)))
    m["s"] = {q: [n[q], 1] for q in n}
    return m

@check("C22", "exhaustive over all grids of 2-4 times out of 4-5, 1-2 (thorough: 3) points and methods with random solvable models; random grids, models, initial states, inputs, parameters and ways of calling beyond; the returned solution is put into the specification's collocation equations in rational arithmetic")
def c22(run):
    r = run.rng
    rat_ok(run)
    def history(t, n, method, kind):
        m = solvable_model(r, kind, t)
        k = m["n"]
        unit = lambda a: [frac(F(r.randint(-4, 4), 4)) for _ in range(a)]
        s = dict(op="integrator", o=1, m=m, t=t, n=n, method=method, tdp=time_polys(r, k["tdp"]), rep=False)
        ops = [s]
        for i in range(r.choice([1, 1, 2])):
            a = dict(x0=unit(k["x"]), z0=unit(k["z"]), u=[unit(len(t) - 1) for _ in range(k["u"])], p=[unit(1) for _ in range(k["p"])])
            ops.append(dict(op="run", o=1, how=r.choice(["call", "positional", "integrate", "integrate", "integrate positional"]), ts=rand_queries(r, t, r.randint(1, 5)), **a))
        if 2 < len(t) < 15 and r.random() < .6:
            ops.append(dict(op="chain", o=1, **a))
        return ops
    cases = []
    l = run.model("CollocationModel", dict(Grid=["0", "1/8", "1/2", "3/4"] if run.quick else ["-1/4", "0", "1/8", "1/2", "3/4"], MaxPoints=2 if run.quick else 3, Kinds=["semi", "impl"]))
    l = [c for c in l if not c["rep"] and c["expand"]]
    if len(l) > 600:
        l = r.sample(l, 600)
    for c in l:
        cases.append(case(r, history(c["t"], c["n"], c["method"], c["kind"])))
    for _ in range(120 if run.quick else 1500):
        lo = F(r.choice([0, 0, 1, -1]))
        t = [lo]
        wide = r.random() < .04
        for _ in range(r.randint(11, 12) if wide else r.choice([1, 2, 2, 3, 4])):
            t.append(t[-1] + F(r.randint(1, 8), 16 if not wide else 64))
        cases.append(case(r, history([frac(x) for x in t], r.choice([1, 2]) if wide else r.choice([1, 2, 3, 3, 4, 5]) if len(t) > 3 or r.random() < .85 else r.randint(6, 8), r.choice(["legendre", "radau"]), r.choice(["semi", "impl"]))))
    for _ in range(2 if run.quick else 20):
        # many points
        t = [F(0)]
        for _ in range(r.randint(21, 24)):
            t.append(t[-1] + F(r.randint(1, 8), 128))
        cases.append(case(r, history([frac(x) for x in t], r.choice([2, 3]), r.choice(["legendre", "legendre", "radau"]), r.choice(["semi", "impl"]))))
    run.validate("CollocationTrace", run.drive("colldrv", cases))
