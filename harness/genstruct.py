"""Seeded random declarations, indices and payloads (shapes only; the meaning is in the TLA+ modules)."""

def leaf(n, r=1, c=1, nz=None, dims=(), sym=False, ss=()):
    if nz is None:
        nz = [[i, j] for j in range(c) for i in range(r) if not sym or i <= j]
    return dict(n=n, dims=list(dims), k="leaf", r=r, c=c, nz=nz, sym=sym, sub=dict(entries=[], order=[]), ss=list(ss))

def node(n, sub, dims=()):
    return dict(n=n, dims=list(dims), k="struct", r=0, c=0, nz=[], sym=False, sub=sub, ss=[])

def decl(entries, order=None):
    return dict(entries=entries, order=order or [[e["n"]] for e in entries])

NAMES = ["a", "b", "c", "x", "y", "aa", "ab", "u", "v", "p_1", "q", "m", "Z", "an_entry_with_a_rather_long_name_1", "an_entry_with_a_rather_long_name_2"]
ODD = ["a b", "0", "-1", "size", "cat", "a,0", "a.b", "\u00e9", "A", "..."]
def some_names(r, n):
    return r.sample(NAMES, n) if r.random() < .93 else r.sample(NAMES + ODD * 2, n) if n == 1 else r.sample(NAMES[:4] + ODD, n)

def isfull(e):
    return len(e["nz"]) == (e["r"] * (e["r"] + 1) // 2 if e["sym"] else e["r"] * e["c"])

def size(d):
    def es(e):
        n = len(e["nz"]) if e["k"] == "leaf" else size(e["sub"])
        for k in e["dims"]:
            n *= k
        return n
    return sum(es(e) for e in d["entries"])

def rand_leaf(r, n, opts, dims):
    x = r.random()
    if x < .2:
        return leaf(n, 1, 1, dims=dims)
    if x < .45:
        return leaf(n, r.randint(1, 4), 1, dims=dims)
    if x < .52:
        return leaf(n, 1, r.randint(2, 4), dims=dims)
    if x < .72:
        return leaf(n, r.randint(2, 3), r.randint(2, 3), dims=dims)
    if x < .82 and opts.get("sparse", True):
        a, b = r.randint(1, 3), r.randint(1, 3)
        nz = [[i, j] for j in range(b) for i in range(a) if r.random() < .6]
        return leaf(n, a, b, nz=nz, dims=dims) if nz else leaf(n, a, b, dims=dims)
    if x < .94 and opts.get("sym", True):
        k = r.randint(1, 4)
        return leaf(n, k, k, dims=dims, sym=True)
    if x < .97 and opts.get("empty", True):
        return r.choice([leaf(n, 0, 1, dims=dims), leaf(n, 0, 1, dims=dims), leaf(n, 1, 0, dims=dims), leaf(n, 0, 3, dims=dims), leaf(n, 2, 2, nz=[], dims=dims)])
    return leaf(n, 2, 2, dims=dims)

def rand_decl(r, depth=2, opts={}, maxsize=40):
    while True:
        d = _rand_decl(r, depth, opts) if r.random() < .95 or maxsize < 14 else wide_decl(r, opts)
        if depth > 1 and opts.get("nest", True) and r.random() < .04:
            d = deep_decl(r, opts)
        if size(d) <= maxsize and (size(d) > 0 or opts.get("empty", True)):
            return d

def deep_decl(r, opts):
    """several levels of nesting"""
    d = _rand_decl(r, 0, dict(opts, empty=False))
    for _ in range(r.randint(3, 5)):
        n = r.sample(NAMES, 2)
        dims = r.choice([[], [], [2], [1]]) if opts.get("repeat", True) else []
        es = [node(n[0], d, dims)] + ([leaf(n[1], r.choice([1, 2]), 1)] if r.random() < .4 else [])
        d = decl(r.sample(es, len(es)))
    return d

def large_decl(r):
    """more elements than usual"""
    while True:
        es = [leaf("a", r.choice([1, 2, 7, 9]), r.choice([1, 3, 8]), dims=r.choice([[], [2], [5], [17]]))]
        es += [rand_leaf(r, "b", {}, r.choice([[], [3], [20]])) for _ in range(r.randint(0, 1))]
        es += [node("s", _rand_decl(r, 0, dict(empty=False)), r.choice([[], [3], [12]])) for _ in range(r.randint(0, 1))]
        d = decl(r.sample(es, len(es)))
        if len(es) > 1 and r.random() < .3:
            d["order"] = [[e["n"] for e in d["entries"][:2]]] + [[e["n"]] for e in d["entries"][2:]]
        if 65 < size(d) < 200:
            return d

def wide_decl(r, opts):
    """more than ten entries or repetitions: numbers do not sort like text"""
    if r.random() < .5 or not opts.get("repeat", True):
        k = r.randint(11, 13)
        d = decl([leaf("e%d" % i, r.choice([1, 1, 1, 2]), 1) for i in range(k)])
        if r.random() < .5:
            d["order"] = r.sample(d["order"], k)
            d["useorder"] = True
        return d
    es = [leaf("w", r.choice([1, 2]), 1, dims=[r.randint(11, 13)]), leaf("a", 1, 1, dims=r.choice([[], [11], [12], [2]]))]
    d = decl(r.sample(es, 2))
    if r.random() < .4:
        d["order"] = [[e["n"] for e in d["entries"]]]
    return d

def _rand_decl(r, depth, opts):
    n = r.choice([1, 2, 2, 3, 3, 4])
    names = some_names(r, n)
    es = []
    for nm in names:
        dims = r.choice([[], [], [], [1], [2], [3], [2], [2, 2], [2, 3], [3, 2], [1, 2], [2, 2, 2] if r.random() < .2 else [2]])
        if r.random() < .02:
            dims = r.choice([[1, 2, 1, 2], [2, 1, 1, 1], [1, 1, 1, 1, 2], [1, 2, 2, 1]])
        if opts.get("empty", True) and r.random() < .02:
            dims = r.choice([[0], [0], [2, 0], [0, 2], [2, 0, 1]])
        if not opts.get("repeat", True):
            dims = []
        if depth > 0 and opts.get("nest", True) and r.random() < .25:
            subs = [e["sub"] for e in es if e["k"] == "struct"]
            # the same structure may occur twice
            es.append(node(nm, r.choice(subs) if subs and r.random() < .5 else _rand_decl(r, depth - 1, dict(opts, empty=False)), dims))
        else:
            es.append(rand_leaf(r, nm, opts, dims))
    order = [[e["n"]] for e in es]
    x = r.random()
    d = decl(es)
    if x < .3 and n > 1:        # tuple groups over consecutive entries
        order, k = [], 0
        while k < n:
            g = r.randint(1, min(3, n - k))
            order.append([e["n"] for e in es[k:k + g]])
            k += g
        d["order"] = order
    elif x < .5:
        order = [[m] for m in r.sample([e["n"] for e in es], n)]
        if n > 1 and r.random() < .4:
            order = [order[0] + order[1]] + order[2:]
        d["order"] = order
        d["useorder"] = True
    return d

# ---------------------------------------------------------------- indices
N = lambda v: dict(k="n", v=v)
I = lambda v: dict(k="i", v=v)
Lst = lambda v: dict(k="l", v=list(v))
def S(a=None, b=None, c=None):
    return dict(k="s", ha=a is not None, a=a or 0, hb=b is not None, b=b or 0, hc=c is not None, c=1 if c is None else c)
E_, D_, ND = dict(k="e"), dict(k="d"), dict(k="nd")
F = lambda v: dict(k="f", v=v)

def entry_of(d, n):
    return next(e for e in d["entries"] if e["n"] == n)

def rslice(r, n, level):
    k = r.random()
    if k < .3:
        return S()
    if level == "mat":
        a = r.randint(0, n - 1) if n else 0
        b = r.randint(a + 1, n) if n else 0
        if k < .5:
            return S(a, b)
        if k < .65:
            return S(None, b)
        if k < .8:
            return S(a, None)
        if k < .9 and a > 0:
            return S(a - n, None)
        return S(None, None, 2)
    a, b = r.randint(-n - 1, n + 1), r.randint(-n - 1, n + 1)
    return r.choice([S(a, b), S(a), S(None, b), S(None, None, -1), S(None, None, 2), S(a, None, -1), S(a, b, 2)])

def rint(r, n):
    return I(r.randint(-n, n - 1)) if n else I(0)

def rlist(r, n):
    if n == 0:
        return Lst([])
    return Lst([r.randint(-n, n - 1) for _ in range(r.randint(1, n))]) if r.random() < .4 else Lst(r.sample(range(n), r.randint(1, n)))

def mat_ix(r, e):
    n = e["r"] * e["c"]
    if n == 0:
        return []
    x = r.random()
    if x < .5:
        k = [r.random() for _ in range(2)]
        return [rint(r, m) if y < .4 else rslice(r, m, "mat") if y < .8 else Lst(r.sample(range(m), r.randint(1, m))) for y, m in zip(k, (e["r"], e["c"]))]
    if x < .75:
        return [rint(r, n)]
    if n == 1:
        return [I(0)]
    return [rslice(r, n, "mat") if r.random() < .5 else Lst([r.randint(-n, n - 1) for _ in range(r.randint(1, n))])]

def rand_ix(r, d, p_more=.6, funs=True, depth=0, write=False):
    """a mostly well-formed index for declaration d"""
    x = r.random()
    names = [e["n"] for e in d["entries"]]
    if x < (.75 if depth == 0 else .65):
        e = entry_of(d, r.choice(names))
        return [N(e["n"])] + entry_ix(r, e, list(e["dims"]), p_more, funs, write)
    if x < .79:
        return [E_] + common_ix(r, d)
    if x < .83:
        return [D_] + common_ix(r, d)
    if x < .88:
        return [ND]
    if x < .92:
        return [dict(k="set", v=r.sample(names, r.randint(1, len(names))))] + common_ix(r, d)
    if x < .97 or not funs:
        # a name may be there more than once
        some = r.sample(names, r.randint(1, len(names))) if r.random() < .7 else r.choices(names, k=r.randint(2, 4))
        return [dict(k="ln", v=some)] + common_ix(r, d)
    return [F(r.choice(["id", "vcat", "rev", "first"]))] + ([E_] if r.random() < .6 else rand_ix(r, d, p_more, False))

def common_ix(r, d):
    """something that may apply to all entries"""
    x = r.random()
    if x < .7:
        return []
    return [r.choice([I(0), I(-1), S(), Lst([0]), N("a"), ND, D_])]

def entry_ix(r, e, dims, p_more, funs, write):
    if dims:
        if r.random() > p_more + .2:
            return []
        n = dims[0]
        x = r.random()
        if x < .45:
            return [rint(r, n)] + entry_ix(r, e, dims[1:], p_more, funs, write)
        if x < .7:
            return [rslice(r, n, "rep")] + entry_ix(r, e, dims[1:], p_more, funs, write)
        if x < .82:
            return [rlist(r, n)] + entry_ix(r, e, dims[1:], p_more, funs, write)
        if x < .88:
            return [ND]
        if funs and x < .96:
            return [F(r.choice(["id", "vcat", "hcat", "rev", "first"]))] + entry_ix(r, e, dims, p_more, False, write)
        return []
    if r.random() > p_more:
        return []
    if e["k"] == "struct":
        return rand_ix(r, e["sub"], p_more, funs, 1, write)
    if e["ss"] and r.random() < .8:
        a = shape_ix(r, e["ss"][0], e["r"])
        return [a] if e["c"] == 1 and r.random() < .5 else [a, shape_ix(r, e["ss"][1], e["c"])]
    x = r.random()
    if x < .05:
        return [ND]
    if x < .1 and funs:
        return [F("T")] * r.choice([1, 1, 2, 3]) + (mat_ix(r, e)[:2] if r.random() < .5 else [])
    return mat_ix(r, e)

# ---------------------------------------------------------------- payloads
class Vals:
    """fresh values; nested: nested lists may stand for matrices (the MX type of the matrix library refuses them)"""
    def __init__(self, start=1000, nested=True, flip=True):
        self.n = start
        self.nested = nested
        self.seen = {}
        self.flip = flip        # vectors may be given transposed
    def __call__(self):
        self.n += 1
        return number(self.n)

def number(k):
    """a number told apart by its leading digits; some need more than single precision"""
    if k % 32 == 7:
        return str(-k)
    if k % 32 == 15:
        return str(k * 2**70)
    if k % 32 == 23:
        return "%d/%d" % (k, 2**80)
    return "%d/%d" % (k * 2**30 + 1, 2**30) if k % 4 == 1 else str(k)

def Num(v):
    return dict(t="num", v=v)
def Matp(r, c, e):
    return dict(t="mat", r=r, c=c, e=e)

def slice_len(x, n):
    return len(range(*slice(x["a"] if x["ha"] else None, x["b"] if x["hb"] else None, x["c"] if x["hc"] else None).indices(n)))

def positions(x, n):
    if x["k"] == "i":
        return [x["v"] % n] if n else []
    if x["k"] == "l":
        return [v % n if n else 0 for v in x["v"]]
    if x["k"] == "s":
        return list(range(n))[slice(x["a"] if x["ha"] else None, x["b"] if x["hb"] else None, x["c"] if x["hc"] else None)]
    return list(range(n))

def mat_payload(r, v, rr, cc, forms=True):
    x = r.random()
    if x < .25:
        return Num(v())
    if forms and x < .35 and cc == 1 and rr > 1:
        return dict(t="list", v=[Num(v()) for _ in range(rr)])
    if forms and x < .4 and min(rr, cc) > 1 and v.nested:
        return dict(t="list", v=[dict(t="list", v=[Num(v()) for _ in range(cc)]) for _ in range(rr)])
    if x < .5 and min(rr, cc) == 1 and v.flip:
        return Matp(cc, rr, [v() for _ in range(rr * cc)])
    return Matp(rr, cc, [v() for _ in range(rr * cc)])

def sym_payload(r, v, rows, cols, e, scalar=True):
    """symmetric data for the block rows x cols of a symmetric matrix"""
    if scalar and r.random() < .25:
        return Num(v())
    val = {}
    for j in cols:
        for i in rows:
            val.setdefault((min(i, j), max(i, j)), v())
    m = Matp(len(rows), len(cols), [val[(min(i, j), max(i, j))] for j in cols for i in rows])
    nz = [[a, b] for b, j in enumerate(cols) for a, i in enumerate(rows) if [min(i, j), max(i, j)] in e["nz"]]
    if len(nz) < len(m["e"]) and r.random() < .7:
        # the pattern of the entry, or nearly
        if nz and r.random() < .15:
            nz.remove(r.choice(nz))
        m["nz"] = nz
        m["e"] = [x if [k % m["r"], k // m["r"]] in nz else "0" for k, x in enumerate(m["e"])]
    return m

def leaf_payload(r, v, e, ix):
    ix = [x for x in ix if x["k"] not in ("f", "nd")]
    if any(x["k"] in ("n", "ln", "x") for x in ix):
        # size of the block not known here: a scalar, or one row/column element count guess
        return Num(v())
    R, C = e["r"], e["c"]
    if R * C == 0:
        return Num(v())
    if len(ix) >= 2:
        p, q = positions(ix[0], R), positions(ix[1], C)
        return sym_payload(r, v, p, q, e) if e["sym"] else mat_payload(r, v, len(p), len(q))
    if len(ix) == 1:
        p = positions(ix[0], R * C)
        if e["sym"]:
            if len(p) == 1 and ix[0]["k"] == "i":
                return Num(v())
            val = {}
            for k in p:
                i, j = k % R, k // R
                val.setdefault((min(i, j), max(i, j)), v())
            return Matp(len(p), 1, [val[(min(k % R, k // R), max(k % R, k // R))] for k in p])
        if ix[0]["k"] == "i":
            return Num(v())
        return mat_payload(r, v, len(p), 1) if not (R == 1 and C > 1) else mat_payload(r, v, 1, len(p))
    if e["sym"]:
        return sym_payload(r, v, range(R), range(C), e)
    return mat_payload(r, v, R, C)

def payload(r, v, d, ix):
    """a payload that mostly fits index ix of declaration d"""
    return p_struct(r, v, d, ix)

def p_struct(r, v, d, ix):
    if not ix:
        n = size(d)
        return mat_payload(r, v, n, 1, forms=True) if n else Num(v())
    x = ix[0]
    rest = ix[1:] if x["k"] != "nd" else [x]
    keys = [n for g in d["order"] for n in g]
    def sub(n):
        if n not in keys:
            return Num(v())
        e = entry_of(d, n)
        return p_entry(r, v, e, list(e["dims"]), rest)
    if x["k"] == "n":
        return sub(x["v"])
    if r.random() < .15:
        return Num(v())
    if x["k"] == "e":
        return dict(t="list", v=[sub(n) for n in keys])
    if x["k"] == "ln":
        return dict(t="list", v=[sub(n) for n in x["v"]])
    if x["k"] in ("d", "nd", "set"):
        ns = keys if x["k"] != "set" else x["v"]
        if r.random() < .3 and len(ns) > 1:
            ns = r.sample(ns, r.randint(1, len(ns)))
        if x["k"] == "set" and r.random() < .4:
            # more than the set asks for
            ns = list(ns) + [n for n in keys if n not in x["v"]] + r.choice([[], ["nope"]])
            r.shuffle(ns)
        return dict(t="dict", v=[dict(k=n, v=sub(n)) for n in ns])
    return Num(v())

def p_entry(r, v, e, dims, ix):
    if dims:
        if r.random() < .12:
            return Num(v())
        x = ix[0] if ix else S()
        rest = ix[1:] if ix and x["k"] != "nd" else ix if ix else []
        if x["k"] == "i":
            return p_entry(r, v, e, dims[1:], rest)
        if x["k"] == "f":
            return Num(v())
        n = len(positions(x, dims[0])) if x["k"] != "nd" else dims[0]
        if r.random() < .1:
            # one matrix or dictionary for all of them
            p = p_entry(r, v, e, dims[1:], rest)
            if p["t"] in ("mat", "dict"):
                return p
        if r.random() < .15:
            return dict(t="rep", v=p_entry(r, v, e, dims[1:], rest))
        return dict(t="list", v=[p_entry(r, v, e, dims[1:], rest) for _ in range(n)])
    if e["k"] == "struct":
        return p_struct(r, v, e["sub"], ix)
    return leaf_payload(r, v, e, ix)

# ---------------------------------------------------------------- ill-formed variants
ODDIX = ["fraction", "whole float", "nothing", "object", "bytes", "set of numbers", "tuple", "array"]

def spoil_ix(r, d, ix):
    """something wrong somewhere in the index"""
    ix = [dict(x) for x in ix]
    k = r.randrange(len(ix)) if ix else 0
    x = r.random()
    if not ix:
        return [N("nope")]
    if x < .25:
        ix[k] = N(r.choice(["nope", "aA", "", "A"]))
    elif x < .45:
        ix[k] = I(r.choice([7, 99, -99, -8]))
    elif x < .55:
        ix[k] = Lst([0, r.choice([50, -50])])
    elif x < .65:
        ix[k] = dict(k="ln", v=["nope"])
    elif x < .72:
        ix = ix[:k] + [D_] + ix[k:]
    elif x < .8:
        ix = ix + [I(0), I(0), I(0)]
    elif x < .86:
        ix = ix[:k] + [S()] + ix[k:]
    elif x < .92:
        ix = ix[:k] + [dict(k="set", v=["nope", "a"])] + ix[k + 1:]
    elif x < .95:
        ix = ix[:k] + [dict(k="odd", v=r.choice(ODDIX))] + ix[k + 1:] if r.random() < .5 else ix[:k] + [dict(k="odd", v=r.choice(ODDIX))] + ix[k:]
    else:
        ix = ix[:k] + [N("a")] + ix[k:]
    return ix

def spoil_payload(r, v, p):
    """a payload of a wrong shape"""
    x = r.random()
    def plain(q):
        return q["t"] == "num" or q["t"] == "list" and all(map(plain, q["v"]))
    if p["t"] == "list" and len(p["v"]) > 1 and plain(p) and x < .6:
        # the matrix library must not see lists that mix numbers and matrices
        return dict(p, v=p["v"][:-1])
    if p["t"] in ("list", "dict") and p["v"] and not plain(p) and x < .6:
        q = dict(p, v=list(p["v"]))
        if p["t"] == "list" and x < .3:
            q["v"] = q["v"][:-1]
            return q
        k = r.randrange(len(q["v"]))
        q["v"][k] = dict(q["v"][k], v=spoil_payload(r, v, q["v"][k]["v"])) if p["t"] == "dict" else spoil_payload(r, v, q["v"][k])
        return q
    if x < .8:
        a, b = r.choice([(2, 3), (5, 1), (3, 2), (7, 1), (4, 4), (1, 6), (2, 1), (3, 1), (2, 2)])
        return Matp(a, b, [v() for _ in range(a * b)])
    if x < .9:
        return dict(t="dict", v=[dict(k="nope", v=Num(v()))])
    return dict(t="rep", v=dict(t="rep", v=Num(v())))

def spoil_decl(r, d):
    """duplicate a name or order an unknown one, at the top or in a nested structure"""
    import copy
    d = copy.deepcopy(d)
    subs = [e for e in d["entries"] if e["k"] == "struct"]
    if subs and r.random() < .4:
        e = r.choice(subs)
        e["sub"] = spoil_decl(r, e["sub"])
        return d
    e = r.choice(d["entries"])
    if r.random() < .5:
        x = rand_leaf(r, e["n"], {}, r.choice([[], [2]]))
        d["entries"].append(x)
        if d.get("useorder") is None and [n for g in d["order"] for n in g] == [y["n"] for y in d["entries"][:-1]]:
            d["order"].append([x["n"]])
    else:
        k = r.randrange(len(d["order"]))
        if r.random() < .5:
            d["order"][k] = d["order"][k] + ["nope"]
        else:
            d["order"].insert(k, ["nope"])
        d["useorder"] = True
    return d

def spoil_dict(r, v, a):
    a = dict(a, v=list(a["v"]))
    x = r.random()
    if x < .35:
        a["v"].pop(r.randrange(len(a["v"])))
    elif x < .7:
        a["v"].append(dict(k=r.choice(["nope", "zz"]), v=Num(v())))
    elif x < .85:
        k = r.randrange(len(a["v"]))
        a["v"][k] = dict(k="nope", v=a["v"][k]["v"])
    else:
        k = r.randrange(len(a["v"]))
        a["v"][k] = dict(k=a["v"][k]["k"], v=spoil_payload(r, v, a["v"][k]["v"]))
    return a

def shape_decl(r):
    """a declaration with a matrix whose rows and/or columns are named by structures"""
    simple = dict(nest=False, sparse=False, sym=False, empty=False)
    while True:
        a = rand_decl(r, 1, dict(simple, nest=r.random() < .3), 6)
        b = rand_decl(r, 0, simple, 5)
        none = dict(has=False, d=dict(entries=[], order=[]))
        A, B = dict(has=True, d=a), dict(has=True, d=b)
        ra, rb = size(a), size(b)
        k = r.choice(["ab", "aa", "a1", "an", "na"])
        ss, rr, cc = dict(ab=([A, B], ra, rb), aa=([A, A], ra, ra), a1=([A, none], ra, 1), an=([A, none], ra, 2), na=([none, A], 2, ra))[k]
        dims = r.choice([[], [], [2]])
        e = leaf("m", rr, cc, dims=dims, ss=ss)
        x = r.random()
        if x < .15:
            # only some of the elements are there
            e = leaf("m", rr, cc, nz=[p for p in e["nz"] if r.random() < .7] or e["nz"], dims=dims, ss=ss)
        elif x < .3 and k == "aa":
            e = leaf("m", rr, cc, dims=dims, sym=True, ss=ss)
        es = [e] + ([rand_leaf(r, "z", {}, [])] if r.random() < .5 else [])
        d = decl(es)
        if size(d) <= 60:
            return d

def shape_ix(r, side, n):
    """index into one dimension of such a matrix"""
    if not side["has"] or r.random() < .25:
        return r.choice([rint(r, n), S(), Lst(r.sample(range(n), r.randint(1, n)))])
    d = side["d"]
    names = [e["n"] for e in d["entries"]]
    x = r.random()
    if x < .35:
        return N(r.choice(names))
    if x < .55:
        return dict(k="ln", v=r.sample(names, r.randint(1, len(names))))
    e = entry_of(d, r.choice(names))
    ix = [N(e["n"])] + [rint(r, k) if r.random() < .7 else S() for k in e["dims"]]
    if e["k"] == "leaf" and r.random() < .4:
        ix += [rint(r, e["r"] * e["c"])]
    elif e["k"] == "struct" and r.random() < .5:
        ix += [N(r.choice([x["n"] for x in e["sub"]["entries"]]))]
    return dict(k="x", v=ix, flat=r.random() < .6)

def sym_leaf(r, n, dims):
    k = r.choice([1, 2, 2, 3, 3, 4, 5]) if r.random() < .95 else r.randint(6, 9)
    nz = None
    if k > 1 and r.random() < .25:
        nz = [[i, j] for j in range(k) for i in range(j + 1) if r.random() < .6] or [[0, 0]]
    return leaf(n, k, k, nz=nz, dims=dims, sym=True)

def sym_decl(r, depth=1):
    """mostly symmetric entries, some others around them"""
    while True:
        names = r.sample(NAMES, r.choice([1, 2, 2, 3]))
        es = []
        for nm in names:
            dims = r.choice([[], [], [2], [3], [2, 2], [1]])
            x = r.random()
            if depth and x < .2:
                es.append(node(nm, sym_decl(r, depth - 1), dims))
            elif x < .75:
                es.append(sym_leaf(r, nm, dims))
            else:
                es.append(rand_leaf(r, nm, dict(empty=False), dims))
        d = decl(es)
        if len(es) > 1 and r.random() < .4:
            d["order"] = [[e["n"] for e in es[:2]]] + [[e["n"]] for e in es[2:]]
        if size(d) <= 60:
            return d

def sym_path(r, d):
    """index of one instance of some leaf; also its entry"""
    e = r.choice(d["entries"])
    ix = [N(e["n"])] + [rint(r, k) for k in e["dims"]]
    if e["k"] == "struct":
        p, f = sym_path(r, e["sub"])
        return ix + p, f
    return ix, e

def view_entry(how, d, e, cols):
    """the entry a view stands for"""
    n, m = size(d), size(e)
    A, B = dict(has=True, d=d), dict(has=True, d=e)
    if how == "repeated":
        return node("t", d, [cols])
    if how == "squared":
        return leaf("t", n, n, ss=[A, A])
    if how == "product":
        return leaf("t", n, m, ss=[A, B])
    return leaf("t", n, n, dims=[cols // n], ss=[A, A])

# ---------------------------------------------------------------- expressions
def expr_leaf(r, v, rr, cc, nz):
    at = {(i, j) for i, j in nz}
    key = (rr, cc, str(nz))
    # the same expression may serve several times
    if key in v.seen and r.random() < .15:
        return v.seen[key]
    v.seen[key] = dict(t="mat", r=rr, c=cc, nz=nz, e=[v() if (i, j) in at else "0" for j in range(cc) for i in range(rr)])
    return v.seen[key]

def expr_tree(r, v, dims, rr, cc, nz):
    if not dims:
        return expr_leaf(r, v, rr, cc, nz)
    return dict(t="list", v=[expr_tree(r, v, dims[1:], rr, cc, nz) for _ in range(dims[0])])

def slot_shape(e):
    if e["k"] == "struct":
        n = size(e["sub"])
        return n, 1, [[i, 0] for i in range(n)]
    return e["r"], e["c"], sorted(e["nz"], key=lambda p: (p[1], p[0]))

def other_pattern(r, v, t):
    """the same expression with an element more or less in its pattern"""
    if t["t"] == "list":
        l = list(t["v"])
        k = r.randrange(len(l))
        l[k] = other_pattern(r, v, l[k])
        return dict(t, v=l)
    cells = [[i, j] for j in range(t["c"]) for i in range(t["r"])]
    nz = [list(p) for p in t["nz"]]
    rest = [p for p in cells if p not in nz]
    x = r.random()
    if rest and x < .4:
        nz = cells
    elif rest and x < .7:
        nz = nz + [r.choice(rest)]
    elif rest and nz and x < .85:
        nz.remove(r.choice(nz))
        nz.append(r.choice(rest))
    elif len(nz) > 1:
        nz.remove(r.choice(nz))
    return expr_leaf(r, v, t["r"], t["c"], sorted(nz, key=lambda p: (p[1], p[0])))

def ingredients(r, v, d, kind):
    out = []
    for e in d["entries"]:
        g = dict(n=e["n"], how="expr", has=False, sub=decl([]), pe=e, e=dict(t="mat", r=0, c=0, nz=[], e=[]), structured=r.random() < .4)
        if kind == "symSX":
            g["how"] = "plain" if e["dims"] or e["sym"] or r.random() < .4 else "sym"
        if g["how"] != "plain":
            g["e"] = expr_tree(r, v, e["dims"], *slot_shape(e))
            if e["k"] == "struct":
                g["has"], g["sub"] = True, e["sub"]
        out.append(g)
    return out

def spoil_expr(r, v, t):
    """a nested list that is too short somewhere, or a matrix of another shape"""
    if t["t"] == "mat":
        return expr_leaf(r, v, t["r"] + 1, t["c"] + 1, [[i, j] for j in range(t["c"] + 1) for i in range(t["r"] + 1)])
    l = list(t["v"])
    if r.random() < .5 and len(l) > 1:
        return dict(t, v=l[:1] + l[2:])
    k = r.randrange(len(l))
    l[k] = spoil_expr(r, v, l[k])
    return dict(t, v=l)
