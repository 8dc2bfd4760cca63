"""Replays histories of structure operations into /repo and records what they return."""
import copy, fractions, os, pickle, random, subprocess, tempfile
from drv import *
try:
    import casadi_extras as ce
    from casadi_extras import structure3 as s3
except Exception as e:
    print("cannot import the package under test: %r" % e)
    sys.exit(1)
DM, SX, MX, Sparsity = cs.DM, cs.SX, cs.MX, cs.Sparsity

FUN = {"id": lambda x: x, "vcat": lambda l: cs.vertcat(*l), "hcat": lambda l: cs.horzcat(*l),
       "rev": lambda l: list(reversed(l)) if isinstance(l, list) else l.nolist, "first": lambda l: l[0], "T": lambda m: m.T}

# ---------------------------------------------------------------- declarations
def sparsity(e):
    sp = Sparsity.triplet(e["r"], e["c"], [p[0] for p in e["nz"]], [p[1] for p in e["nz"]])
    return sp

def full_sparsity(e):
    if not e["sym"]:
        return sparsity(e)
    ps = {(p[0], p[1]) for p in e["nz"]} | {(p[1], p[0]) for p in e["nz"]}
    ps = sorted(ps)
    return Sparsity.triplet(e["r"], e["c"], [p[0] for p in ps], [p[1] for p in ps])

def is_full(e):
    n = e["r"] * (e["r"] + 1) // 2 if e["sym"] else e["r"] * e["c"]
    return len(e["nz"]) == n

VEC = "refused"

class Skip(Exception):
    pass

def unsafe(p):
    """lists of which the matrix library must not be asked to make a matrix: converting lists with anything
    but numbers in them, like DM([list, number]) or DM([[number, matrix]]), corrupts the memory of the process"""
    if p["t"] == "list":
        deep = {x["t"] for x in p["v"]}
        return len(deep) > 1 or not deep <= {"num", "list"} or any(map(unsafe, p["v"]))
    if p["t"] == "dict":
        return any(unsafe(x["v"]) for x in p["v"])
    return p["t"] == "rep" and unsafe(p["v"])

class Ctx:
    risky = False       # the payload may arrive somewhere it does not belong
    def __init__(self, case):
        self.rnd = random.Random(case.get("var", 0))
        self.sx, self.sxv, self.mx, self.mxv = [], [], [], []
        self.shared, self.exprs = {}, {}
        self.dir = tempfile.mkdtemp(dir=os.getcwd())
        self.structs, self.objs, self.decls, self.imgs, self.imgkind = {}, {}, {}, {}, {}

    # symbols with known values
    def sxsym(self, vals, r, c):
        s = SX.sym("s%d" % len(self.sx), r, c)
        self.sx.append(s)
        self.sxv.append(DM(np.array(vals, dtype=float).reshape((r, c), order="F")) if r * c else DM(r, c))
        return s
    def mxsym(self, vals, r, c):
        s = MX.sym("m%d" % len(self.mx), r, c)
        self.mx.append(s)
        self.mxv.append(DM(np.array(vals, dtype=float).reshape((r, c), order="F")) if r * c else DM(r, c))
        return s

    def evaluate(self, exprs):
        """numeric values of a list of DM/SX/MX matrices"""
        out = [None] * len(exprs)
        for T, syms, vals in ((SX, self.sx, self.sxv), (MX, self.mx, self.mxv)):
            k = [i for i, e in enumerate(exprs) if isinstance(e, T)]
            if k:
                f = cs.Function("f", syms, [exprs[i] for i in k])
                r = f.call(vals)
                for i, v in zip(k, r):
                    out[i] = v
        for i, e in enumerate(exprs):
            if out[i] is None and e is not None:
                out[i] = e if isinstance(e, DM) else DM(e)
        return out

    # declarations
    def entry(self, e, top, form=None):
        rnd = self.rnd
        kw = {}
        dims = e["dims"]
        if len(dims) == 1 and rnd.random() < .7:
            kw["repeat"] = dims[0] if rnd.random() < .8 else np.int64(dims[0])
        elif dims or rnd.random() < .1:
            kw["repeat"] = list(dims)
        if e["k"] == "struct":
            # an equal structure may be the same object
            key = json.dumps(e["sub"], sort_keys=True)
            sub = self.shared[key] if key in self.shared and rnd.random() < .7 else self.struct(e["sub"], False)
            self.shared[key] = sub
            kw["struct"] = sub
            return s3.entry(e["n"], **kw)
        if e["sym"]:
            kw["type"] = "symm"
            if not e["ss"]:
                kw["shape"] = (e["r"], e["c"]) if is_full(e) else full_sparsity(e)
        if e["ss"]:
            def side(x, n):
                return self.struct(x["d"], False) if x["has"] else n
            a, b = side(e["ss"][0], e["r"]), side(e["ss"][1], e["c"])
            kw["shapestruct"] = a if (e["c"] == 1 and not e["ss"][1]["has"] and rnd.random() < .5) else (a, b)
            if not is_full(e):
                kw["shape"] = full_sparsity(e)
        elif e["sym"]:
            pass
        elif is_full(e):
            r, c = e["r"], e["c"]
            forms = [(r, c), [r, c], Sparsity.dense(r, c)]
            if c == 1:
                forms += [r, (r,), [r], np.int64(r)]
            if r == 1 and c == 1:
                forms += [None]
            f = rnd.choice(forms)
            if f is not None:
                kw["shape"] = f
        else:
            kw["shape"] = sparsity(e)
        return s3.entry(e["n"], **kw)

    def struct(self, d, top, cls=None, ents=None):
        rnd = self.rnd
        if ents is None:
            ents = [self.entry(e, top) for e in d["entries"]]
            if rnd.random() < .1:
                # entries belong to no structure in particular
                s3.struct(rnd.sample(ents, rnd.randint(1, len(ents))))
        natural = [[e["n"]] for e in d["entries"]]
        flat = [n for g in d["order"] for n in g]
        if cls is None:
            cls = rnd.choice([s3.struct, s3.struct, s3.struct, s3.struct_symSX, s3.struct_symMX])
        names = [e["n"] for e in d["entries"]]
        if d["order"] == natural and not d.get("useorder"):
            arg, order = ents, None
        elif flat == names and not d.get("useorder"):
            arg, order, k = [], None, 0
            for g in d["order"]:
                arg.append(ents[k] if len(g) == 1 else tuple(ents[k:k + len(g)]))
                k += len(g)
        else:
            arg, order = ents, [g[0] if len(g) == 1 else tuple(g) for g in d["order"]]
        if order is None:
            return cls(arg)
        return cls(arg, order=order)

    # expressions
    def expr(self, x, kind, structured=False):
        rnd = self.rnd
        if x["t"] == "list":
            return [self.expr(y, kind, structured) for y in x["v"]]
        key = kind + json.dumps(x)
        if key not in self.exprs or rnd.random() < .2:
            self.exprs[key] = self.new_expr(x, kind, structured)
        return self.exprs[key]

    def new_expr(self, x, kind, structured):
        rnd = self.rnd
        vals = [val(x["e"][c * x["r"] + r]) for r, c in x["nz"]]
        new, T = (self.sxsym, SX) if kind == "SX" else (self.mxsym, MX)
        dense = len(vals) == x["r"] * x["c"]
        if dense and x["c"] == 1 and structured:
            n = x["r"]
            k = rnd.randint(1, n)
            s = (s3.struct_symSX if kind == "SX" else s3.struct_symMX)([s3.entry("k", shape=k)] + ([s3.entry("l", shape=n - k)] if n > k else []))
            a = (self.sx, self.sxv) if kind == "SX" else (self.mx, self.mxv)
            a[0].append(s.cat)
            a[1].append(DM(vals))
            return s
        if dense:
            m = new(vals, x["r"], x["c"])
        else:
            sp = Sparsity.triplet(x["r"], x["c"], [p[0] for p in x["nz"]], [p[1] for p in x["nz"]])
            m = T(sp, new(vals, len(vals), 1))
        k = rnd.random()
        if k < .15:
            return m * 4 / 4
        if k < .25:
            return 3 * m - 2 * m
        if k < .3:
            return m.T.T
        return m

    # indices
    def index(self, ix, raw=False):
        out = []
        for x in ix:
            k = x["k"]
            if k == "n":
                out.append(x["v"])
            elif k == "i":
                out.append(np.int64(x["v"]) if self.rnd.random() < .1 and not raw else x["v"])
            elif k == "s":
                out.append(slice(x["a"] if x["ha"] else None, x["b"] if x["hb"] else None, x["c"] if x["hc"] else None))
            elif k in ("l", "ln"):
                out.append(list(x["v"]))
            elif k == "e":
                out.append(Ellipsis)
            elif k == "d":
                out.append({})
            elif k == "set":
                out.append(set(x["v"]))
            elif k == "nd":
                out.append(s3.nesteddict)
            elif k == "f":
                out.append(FUN[x["v"]])
            elif k == "x":
                out.append((s3.indexf if x["flat"] else s3.index)[self.index(x["v"], True)])
            elif k == "odd":
                out.append({"fraction": fractions.Fraction(1, 2),   # (a float .5 as an index corrupts the memory of the matrix library)
                            "whole float": 0., "nothing": None, "object": object(), "bytes": b"a", "set of numbers": {0, 1} if self.rnd.random() < .5 else {0},
                            "tuple": (0, 1), "array": np.array([0, 1])}[x["v"]])
            else:
                raise ValueError(k)
        if len(out) == 1 and self.rnd.random() < .7 and not isinstance(out[0], tuple):
            return out[0]
        return tuple(out)

    # payloads
    def payload(self, p, kind):
        rnd = self.rnd
        t = p["t"]
        if t == "num":
            v = val(p["v"])
            if kind == "DM":
                return rnd.choice([v, int(v) if v == v and abs(v) < 1e15 and v == int(v) else v, DM(v), np.float64(v)])
            if kind == "SX":
                return rnd.choice([lambda: v, lambda: self.sxsym([v], 1, 1), lambda: SX(v)])()
            return rnd.choice([lambda: v, lambda: self.mxsym([v], 1, 1), lambda: MX(v)])()
        if t == "mat":
            a = np.array([val(x) for x in p["e"]], dtype=float).reshape((p["r"], p["c"]), order="F")
            if "nz" in p:
                sp = Sparsity.triplet(p["r"], p["c"], [x[0] for x in p["nz"]], [x[1] for x in p["nz"]])
                vals = [a[x[0], x[1]] for x in p["nz"]]
                if kind == "DM":
                    return DM(sp, vals)
                return (SX if kind == "SX" else MX)(sp, (self.sxsym if kind == "SX" else self.mxsym)(vals, len(vals), 1)) if vals else (SX if kind == "SX" else MX)(sp)
            if kind == "DM":
                return rnd.choice([lambda: DM(a), lambda: a, lambda: DM(a)])() if a.size else DM(*a.shape)
            if kind == "SX":
                return self.sxsym(a.flatten("F"), *a.shape) if rnd.random() < .7 else SX(DM(a))
            return self.mxsym(a.flatten("F"), *a.shape) if rnd.random() < .7 else MX(DM(a))
        if t == "list":
            l = [self.payload(x, kind) for x in p["v"]]
            if l and all(x["t"] == "num" for x in p["v"]) and kind != "DM":
                # a list of numbers may end up at a matrix, where only plain numbers can be converted
                l = [val(x["v"]) for x in p["v"]]
            elif l and all(x["t"] == "num" for x in p["v"]):
                l = [val(x["v"]) for x in p["v"]]
            if self.risky and kind == "DM" and unsafe(p):
                raise Skip()
            return tuple(l) if rnd.random() < .1 else l
        if t == "rep":
            return s3.repeated(self.payload(p["v"], kind))
        if t == "dict":
            return {x["k"]: self.payload(x["v"], kind) for x in p["v"]}
        raise ValueError(t)

def scribble(m):
    try:
        if isinstance(m, np.ndarray):
            m.flat[0] = 12345
        elif m.nnz():
            m.nz[0] = 12345
    except Exception:
        pass

# ---------------------------------------------------------------- projection of results
def tree(x, mats):
    """structure of a result; matrices are collected in mats and filled in later"""
    if isinstance(x, (list, tuple)):
        return dict(t="list", v=[tree(y, mats) for y in x])
    if isinstance(x, dict):
        return dict(t="dict", v=[dict(k=str(k), v=tree(v, mats)) for k, v in x.items()])
    if not isinstance(x, (DM, SX, MX)):
        x = DM(x)
    mats.append(x)
    return dict(t="mat", slot=len(mats) - 1)

def mat(m, missing=None):
    r, c = m.shape
    if missing is None:
        e = [num(v) for v in np.array(m.full()).flatten("F")] if r * c else []
    else:
        sp = m.sparsity()
        e = [missing] * (r * c)
        for rr, cc, v in zip(sp.row(), sp.get_col(), m.nonzeros()):
            e[cc * r + rr] = int(v)
    return dict(t="mat", r=r, c=c, e=e)

def fill(t, vals, missing=None):
    if t["t"] == "mat":
        return mat(vals[t["slot"]], missing)
    if t["t"] == "list":
        return dict(t="list", v=[fill(x, vals, missing) for x in t["v"]])
    return dict(t="dict", v=[dict(k=x["k"], v=fill(x["v"], vals, missing)) for x in t["v"]])

def typename(mats):
    s = {type(m).__name__ for m in mats if m.numel()}
    return "none" if not s else s.pop() if len(s) == 1 else "mixed"

EXC = dict(t="exc")

def vecof(cat):
    """values of a flat vector"""
    if cat is None:
        return [VEC]
    return [num(v) for v in np.array(DM(cat).full()).flatten("F")]

class ExprObj:
    """built from expressions"""
    def __init__(self, o, kind, d):
        self.o, self.kind, self.d = o, kind, d
    def cat(self):
        try:
            return self.o.cat
        except Exception:
            return None

class ViewObj:
    def __init__(self, p, kind):
        self.o, self.kind = p, kind
    def cat(self):
        m = self.o.cast()
        return cs.reshape(m, m.shape[0] * m.shape[1], 1)

class Obj:
    def __init__(self, o, kind, d):
        self.o, self.kind, self.d = o, kind, d
    def cat(self):
        return self.o.cat

def path(p):
    return [("#%d" % x) if isinstance(x, (int, np.integer)) else str(x) for x in p]

def mtype(kind):
    return {"DM": "DM", "SX": "SX", "symSX": "SX", "exSX": "SX"}.get(kind, "MX")

# ---------------------------------------------------------------- operations
def run_case(case, ev):
    ctx = Ctx(case)
    first = [True]
    for op in case["ops"]:
        ctx.risky = op.get("risky", False)
        try:
            step(ctx, op, ev, first)
        except Skip:
            pass
    return sum(8 if e["op"] == "decl" else 1 for e in ev)

def step(ctx, op, ev, first):
    k = op["op"]
    if k == "decl":
        e = dict(op="decl", d=op["d"], decl=op["decl"], reset=first[0], expect=op.get("expect", "ok"))
        first[0] = False
        try:
            cls = {"struct": s3.struct, "symSX": s3.struct_symSX, "symMX": s3.struct_symMX, None: None}[op.get("cls")]
            s = ctx.struct(op["decl"], True, cls)
            o = dict(t="lay", size=int(s.size), keys=[str(x) for x in s.keys()], full=bool(op.get("full")))
            if op.get("full"):
                for m in (0, 1, 2):
                    o["c%d" % m] = [path(x) for x in s.canonicalIndices(extraMode=m)]
                    o["l%d" % m] = [[x] for x in s.labels(extraMode=m)]
            ctx.structs[op["d"]] = s
            ctx.decls[op["d"]] = op["decl"]
        except Exception:
            o = EXC
        e["out"] = o
        ev.append(e)
        return
    if k == "refuse":
        try:
            refuse(ctx, op)
            out = "ok"
        except Exception:
            out = "exc"
        ev.append(dict(op="refuse", what=op["what"], out=out))
        return
    if k == "asm":
        assemble(ctx, op, ev, first[0])
        first[0] = False
        return
    if "d" in op and op["d"] not in ctx.structs:
        return
    for f in ("o", "src"):
        if f in op and k not in ("conv", "mk", "copy", "load", "view", "asm", "blank") and op[f] not in ctx.objs:
            return
    if k == "ind":
        s = ctx.structs[op["d"]]
        try:
            if op["w"] == "i":
                ms = []
                t = tree(s.i[ctx.index(op["ix"])], ms)
                o = fill(t, [DM(m) for m in ms], -1)
            else:
                o = dict(t="flat", v=[int(x) for x in s.f[ctx.index(op["ix"])]])
        except Exception:
            o = EXC
        ev.append(dict(op="ind", d=op["d"], w=op["w"], ix=op["ix"], out=o))
    elif k == "lookup":
        s = ctx.structs[op["d"]]
        try:
            o = dict(t="label", v=s.getLabel(op["i"], extraMode=op["mode"])) if op.get("label") else dict(t="path", v=path(s.getCanonicalIndex(op["i"], extraMode=op["mode"])))
        except Exception:
            o = EXC
        ev.append(dict(op="lookup", d=op["d"], i=op["i"], mode=op["mode"], label=bool(op.get("label")), out=o))
    elif k == "conv":
        s = ctx.structs[op["d"]]
        kind = op["kind"]
        e = dict(op="conv", d=op["d"], o=op["o"], kind=kind, arg=op["arg"], ty="none", cat=[], stored=0)
        arg = convarg(ctx, op, kind)
        try:
            r = s() if op["arg"] == dict(t="num", v="0") and ctx.rnd.random() < .5 else s(arg)
            ob = Obj(r, kind, op["d"])
            e["ty"] = type(r.cat).__name__
            e["cat"] = vecof(ctx.evaluate([r.cat])[0])
            e["stored"] = int(r.cat.nnz())
            ctx.objs[op["o"]] = ob
            e["out"] = "ok"
        except Exception:
            e["out"] = "exc"
        ev.append(e)
    elif k == "mk":
        s = ctx.structs[op["d"]]
        cls = dict(symSX=s3.struct_symSX, symMX=s3.struct_symMX)[op["kind"]]
        try:
            r = cls(s)
            n = int(s.size)
            vals = [7 + 3 * i for i in range(n)]
            if op["kind"] == "symSX":
                ctx.sx.append(SX(r.cat)); ctx.sxv.append(DM(vals) if n else DM(0, 1))
            else:
                ctx.mx.append(MX(r.cat)); ctx.mxv.append(DM(vals) if n else DM(0, 1))
            cat = vecof(ctx.evaluate([r.cat])[0])
            if r.shape != (n, 1):
                cat = cat + ["0"]
            ctx.objs[op["o"]] = Obj(r, op["kind"], op["d"])
        except Exception:
            cat = ["0", "0"]
        ev.append(dict(op="mk", d=op["d"], o=op["o"], kind=op["kind"], cat=cat, distinct=True))
    elif k == "blank":
        e = dict(op="blank", d=op["d"], o=op["o"], kind=op["kind"], out="ok", cat=[])
        try:
            ob = ExprObj(EXCLS[op["kind"]](ctx.structs[op["d"]]), op["kind"], op["d"])
            ctx.objs[op["o"]] = ob
            e["cat"] = vecof(ctx.evaluate([ob.cat()])[0])
        except Exception:
            e["out"] = "exc"
        ev.append(e)
    elif k == "view":
        s = ctx.structs[op["d"]]
        if op["d2"] not in ctx.structs:
            return
        e = dict(op="view", d=op["d"], d2=op["d2"], dv=op["dv"], o=op["o"], how=op["how"], kind=op["kind"], arg=op["arg"], ty="none", cat=[])
        a = op["arg"]
        m = np.array([val(x) for x in a["e"]], dtype=float).reshape((a["r"], a["c"]), order="F")
        if op["kind"] == "DM":
            arg = ctx.rnd.choice([lambda: DM(m), lambda: DM(m), lambda: np.array(m), lambda: [list(map(float, x)) for x in m]])() if m.size else DM(*m.shape)
            if m.shape == (1, 1) and ctx.rnd.random() < .5:
                arg = float(m[0, 0])
        elif op["kind"] == "SX":
            arg = SX(ctx.sxsym(m.flatten("F"), *m.shape))
        else:
            arg = MX(ctx.mxsym(m.flatten("F"), *m.shape))
        try:
            p = s.product(ctx.structs[op["d2"]], arg) if op["how"] == "product" else getattr(s, op["how"])(arg)
            ob = ViewObj(p, op["kind"])
            e["ty"] = type(p.cast()).__name__
            e["cat"] = vecof(ctx.evaluate([ob.cat()])[0])
            ctx.objs[op["o"]] = ob
            e["out"] = "ok"
        except Exception:
            e["out"] = "exc"
        ev.append(e)
    elif k == "read":
        ob = ctx.objs[op["o"]]
        for again in (False, True):
            ms = []
            try:
                o = tree(get(ob, ctx, op["ix"], op.get("pre")), ms)
            except Exception:
                o, ms = EXC, []
            n = len(ms)
            vals = ctx.evaluate(ms + [ob.cat()])
            if o is not EXC:
                o = fill(o, vals)
            ev.append(dict(op="read", o=op["o"], ix=op["ix"], out=o, ty=typename(ms[:n]), cat=vecof(vals[-1])))
            if again or not n or ctx.rnd.random() > .15:
                break
            # what was returned belongs to the caller; changing it must not show in the next read
            for m in ms:
                scribble(m)
    elif k == "write":
        ob = ctx.objs[op["o"]]
        pl = ctx.expr(op["pl"], mtype(ob.kind), op.get("structured")) if op.get("expr") else ctx.payload(op["pl"], mtype(ob.kind))
        try:
            put(ob, ctx, op["ix"], pl, op.get("pre"))
            out = "ok"
        except Exception:
            out = "exc"
        ev.append(dict(op="write", o=op["o"], ix=op["ix"], pl=op["pl"], out=out, cat=vecof(ctx.evaluate([ob.cat()])[0])))
    elif k == "back":
        ob = ctx.objs[op["o"]]
        ix = ctx.index(op["ix"])
        try:
            v = ob.o[ix] if op["ix"] else ob.o()
        except Exception:
            return
        try:
            ob.o[ix] = v
            out = "ok"
        except Exception:
            out = "exc"
        ev.append(dict(op="back", o=op["o"], ix=op["ix"], out=out, cat=vecof(ctx.evaluate([ob.cat()])[0])))
    elif k == "parse":
        s = ctx.structs[op["d"]]
        a = op["arg"]
        m = np.array([val(x) for x in a["e"]], dtype=float).reshape((a["r"], a["c"]), order="F")
        arg = m if ctx.rnd.random() < .6 else (DM(m) if m.size else m)
        try:
            ms = []
            t = tree(s.parseMatrix(arg), ms)
            o = fill(t, ctx.evaluate(ms))
        except Exception:
            o = EXC
        ev.append(dict(op="parse", d=op["d"], arg=a, out=o))
    elif k == "look":
        ob = ctx.objs[op["o"]]
        e = dict(op="look", o=op["o"], cat=vecof(ctx.evaluate([ob.cat()])[0]), ways=[], about=[])
        if op.get("ways"):
            try:
                T = dict(DM=DM, SX=SX, MX=MX)[mtype(ob.kind)]
                e["ways"] = [vecof(ctx.evaluate([w])[0]) for w in ([T(ob.o)] if isinstance(ob, ViewObj) else [T(ob.o), cs.vertcat(ob.o), ctx.structs[ob.d](ob.o).cat])]
                if not isinstance(ob, ViewObj):
                    e["about"] = [int(ob.o.size)] + [int(x) for x in ob.o.shape] + [int(ob.o.sparsity().size1()), int(ob.o.sparsity().nnz())]
            except Exception:
                e["ways"] = [[VEC]]
        ev.append(e)
    elif k == "dump":
        ob = ctx.objs[op["src"]]
        e = dict(op="dump", src=op["src"], img=op["img"], out="ok")
        try:
            if op["how"] == "pickle":
                ctx.imgs[op["img"]] = pickle.dumps(ob.o, op["proto"])
            else:
                fn = os.path.join(ctx.dir, "image%d" % op["img"])
                ob.o.save(fn)
                ctx.imgs[op["img"]] = fn
        except Exception:
            e["out"] = "exc"
        ctx.imgkind[op["img"]] = (ob.kind, ob.d)
        ev.append(e)
    elif k == "load":
        if op["img"] not in ctx.imgs:
            return
        im = ctx.imgs[op["img"]]
        e = dict(op="load", img=op["img"], o=op["o"], out="ok", cat=[])
        try:
            x = pickle.loads(im) if isinstance(im, bytes) else ce.struct_load(im)
            e["cat"] = vecof(ctx.evaluate([x.cat])[0])
            ctx.objs[op["o"]] = Obj(x, *ctx.imgkind[op["img"]])
        except Exception:
            e["out"] = "exc"
        ev.append(e)
    elif k in ("copy", "copystruct"):
        copying(ctx, op, ev)
    else:
        raise ValueError(k)

EXCLS = dict(exSX=s3.struct_SX, exMX=s3.struct_MX, exMXm=s3.struct_MX_mutable, symSX=s3.struct_symSX)

def assemble(ctx, op, ev, reset):
    kind = op["kind"]
    e = dict(op="asm", d=op["d"], o=op["o"], kind=kind, ings=op["ings"], order=op["order"], out="ok", cat=[], reset=reset)
    T = mtype(kind)
    ents = []
    for g in op["ings"]:
        kw = {}
        if g["how"] == "plain":
            ents.append(("plain", g))
            continue
        kw = {g["how"]: ctx.expr(g["e"], T, g.get("structured") and not g["has"]) if g["how"] == "expr" else symbol(ctx, g)}
        if g["has"] and not (g["how"] == "sym" and g.get("structured")):
            kw["struct"] = ctx.struct(g["sub"], False)
        ents.append((g["n"], kw))
    try:
        ents = [ctx.entry(x["pe"], True) if n == "plain" else s3.entry(n, **x) for n, x in ents]
        s = ctx.struct(dict(entries=[dict(n=g["n"]) for g in op["ings"]], order=op["order"]), True, EXCLS[kind], ents)
        ob = ExprObj(s, kind, op["d"])
        cat = s.cat
        if kind == "symSX":
            # symbols not supplied by the caller get values of their own
            known = {x.__hash__() for m in ctx.sx for x in cs.symvar(m)}
            for x in cs.symvar(cat):
                if x.__hash__() not in known:
                    ctx.sx.append(x)
                    ctx.sxv.append(DM(70001 + 3 * len(ctx.sx)))
        e["cat"] = vecof(ctx.evaluate([cat])[0])
        ctx.objs[op["o"]] = ob
        ctx.structs[op["d"]] = s
    except Exception:
        e["out"] = "exc"
    ev.append(e)

def symbol(ctx, g):
    """symbols the caller supplies"""
    x = g["e"]
    vals = [val(x["e"][c * x["r"] + r]) for r, c in x["nz"]]
    if g["has"] and g.get("structured"):
        s = s3.struct_symSX(ctx.struct(g["sub"], False))
        ctx.sx.append(SX(s.cat))
        ctx.sxv.append(DM(vals))
        return s
    m = SX.sym("given", Sparsity.triplet(x["r"], x["c"], [p[0] for p in x["nz"]], [p[1] for p in x["nz"]]))
    ctx.sx.append(m.nz[:])
    ctx.sxv.append(DM(vals))
    return m

def convarg(ctx, op, kind):
    a = op["arg"]
    if a["t"] == "dict":
        return {x["k"]: ctx.payload(x["v"], "DM") for x in a["v"]}
    if a["t"] == "num":
        v = val(a["v"])
        if kind == "DM":
            return ctx.rnd.choice([v, DM(v), np.float64(v)] + ([int(v)] if v == v and abs(v) < 1e9 and v == int(v) else []))
        return SX(v) if kind == "SX" else MX(v)
    m = np.array([val(x) for x in a["e"]], dtype=float).reshape((a["r"], a["c"]), order="F")
    if m.shape[1] == 1 and m.size and ctx.rnd.random() < .3:
        s = ctx.structs[op["d"]]
        if m.size == int(s.size):
            how = ctx.rnd.choice(["list", "tuple", "structure", "flat structure"])
        else:
            how = ctx.rnd.choice(["list", "tuple", "flat structure"])
        if how == "flat structure":
            s = s3.struct([s3.entry("only", shape=m.size)])
        if kind == "DM":
            if how.endswith("structure"):
                return s(DM(m))
        elif how.endswith("structure"):
            if ctx.rnd.random() < .5:
                return s(SX(ctx.sxsym(m.flatten(), *m.shape)) if kind == "SX" else MX(ctx.mxsym(m.flatten(), *m.shape)))
            t = (s3.struct_symSX if kind == "SX" else s3.struct_symMX)(s)
            l = (ctx.sx, ctx.sxv) if kind == "SX" else (ctx.mx, ctx.mxv)
            l[0].append(SX(t.cat) if kind == "SX" else t.cat)
            l[1].append(DM(m))
            return t
        else:
            l = [ctx.sxsym([x], 1, 1) if kind == "SX" else ctx.mxsym([x], 1, 1) for x in m.flatten()]
            if len(l) > 1 and ctx.rnd.random() < .3:
                l[ctx.rnd.randint(1, len(l) - 1)] = None
                l = [float(x) if y is None else y for x, y in zip(m.flatten(), l)]
            return tuple(l) if how == "tuple" else l
    if kind == "SX":
        return SX(ctx.sxsym(m.flatten("F"), *m.shape))     # a copy: the container works on the matrix it is given
    if kind == "MX":
        return MX(ctx.mxsym(m.flatten("F"), *m.shape))
    d = DM(m) if m.size else DM(*m.shape)
    forms = [lambda: d, lambda: d, lambda: m]
    if m.size and np.all(np.isfinite(m)) and np.all(m == np.round(m)) and np.all(np.abs(m) < 1e9):
        forms += [lambda: m.astype(int)]
        if m.shape[1] == 1:
            forms += [lambda: [int(x) for x in m.flatten()]]
    if m.shape[1] == 1 and m.size:
        forms += [lambda: [float(x) for x in m.flatten()], lambda: m.flatten()]
    return ctx.rnd.choice(forms)()

def get(ob, ctx, ix, pre):
    if not ix:
        return ob.o()
    if pre is None:
        return ob.o[ctx.index(ix)]
    p = prefix(ob, ctx, ix[:pre])
    return p() if pre == len(ix) else p[ctx.index(ix[pre:])]

def prefix(ob, ctx, ix):
    """prefixes are saved and used again later"""
    key = repr(ix)
    saved = ob.__dict__.setdefault("saved", {})
    if key not in saved or ctx.rnd.random() < .2:
        saved[key] = ob.o.prefix[ctx.index(ix)]
    return saved[key]

def put(ob, ctx, ix, pl, pre):
    if pre is None or pre == len(ix):
        ob.o[ctx.index(ix)] = pl
    else:
        prefix(ob, ctx, ix[:pre])[ctx.index(ix[pre:])] = pl

def copying(ctx, op, ev):
    src = ctx.objs.get(op.get("src"))
    how = op["how"]
    def through(x):
        if how == "pickle":
            return pickle.loads(pickle.dumps(x, op.get("proto", 2)))
        if how == "deepcopy":
            return copy.deepcopy(x)
        # the same file again and again
        fn = os.path.join(os.getcwd(), "copy%d" % os.getpid())
        x.save(fn)
        if how == "process":
            # read and written again by somebody else
            subprocess.run([sys.executable, "-c", "import sys, casadi_extras as ce; ce.struct_load(sys.argv[1]).save(sys.argv[2])", fn, fn + "b"], check=True, timeout=50,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            fn += "b"
        return ce.struct_load(fn)
    if op["op"] == "copystruct":
        # the structure itself; the copy is described like a fresh declaration
        s = ctx.structs[op["d"]]
        e = dict(op="decl", d=op["d2"], decl=ctx.decls[op["d"]], reset=False, expect="ok")
        try:
            t = through(s if how in ("pickle", "deepcopy") else s.struct)
            o = dict(t="lay", size=int(t.size), keys=[str(x) for x in t.keys()], full=True)
            for m in (0, 1, 2):
                o["c%d" % m] = [path(x) for x in t.canonicalIndices(extraMode=m)]
                o["l%d" % m] = [[x] for x in t.labels(extraMode=m)]
            ctx.structs[op["d2"]] = t
            ctx.decls[op["d2"]] = ctx.decls[op["d"]]
        except Exception:
            o = EXC
        e["out"] = o
        ev.append(e)
        return
    group = op.get("group")     # several containers in one pickle
    srcs = group or [op["src"]]
    dst = op["o"] if isinstance(op["o"], list) else [op["o"]]
    if any(s not in ctx.objs for s in srcs):
        return
    try:
        if len(srcs) == 1:
            res = [through(ctx.objs[srcs[0]].o)]
        else:
            res = list(through([ctx.objs[s].o for s in srcs]))
        cats = [vecof(ctx.evaluate([r.cat])[0]) for r in res]
        out = "ok"
    except Exception:
        out = "exc"
    for i, s in enumerate(srcs):
        e = dict(op="copy", src=s, o=dst[i], out=out, cat=cats[i] if out == "ok" else [])
        if out == "ok":
            ctx.objs[dst[i]] = Obj(res[i], ctx.objs[s].kind, ctx.objs[s].d)
        ev.append(e)

def refuse(ctx, op):
    """requests that must be refused"""
    w = op["what"]
    E, S = s3.entry, s3.struct
    def sub():
        return S([E("q")])
    table = {
        "entry without a name": lambda: E(),
        "entry with two positional arguments": lambda: E("a", 3),
        "entry with an unknown attribute": lambda: E("a", size=3),
        "entry with shape and struct": lambda: E("a", shape=2, struct=sub()),
        "entry with struct and shapestruct": lambda: E("a", struct=sub(), shapestruct=sub()),
        "entry with sym and shape": lambda: E("a", sym=SX.sym("x", 2), shape=2),
        "entry with sym and repeat": lambda: E("a", sym=SX.sym("x", 2), repeat=2),
        "entry with sym and expr": lambda: E("a", sym=SX.sym("x", 2), expr=SX.sym("y", 2)),
        "entry with expr and shape": lambda: E("a", expr=MX.sym("x", 2), shape=2),
        "entry with expr and repeat": lambda: E("a", expr=MX.sym("x", 2), repeat=2),
        "entry with a fractional repeat": lambda: E("a", repeat=1.5),
        "entry with a repeat list containing a string": lambda: E("a", repeat=[2, "x"]),
        "entry with three dimensions": lambda: E("a", shape=(2, 2, 2)),
        "entry with no dimension": lambda: E("a", shape=()),
        "entry with a string shape": lambda: E("a", shape="2"),
        "entry with an unknown type": lambda: E("a", shape=(2, 2), type="skew"),
        "symmetric entry that is not square": lambda: E("a", shape=(2, 3), type="symm"),
        "entry with a non-symbolic sym": lambda: E("a", sym=SX.sym("x", 2) + 1),
        "entry with an MX sym": lambda: E("a", sym=MX.sym("x", 2)),
        "entry with a numeric expr": lambda: E("a", expr="no matrix"),
        "entry with a shapestruct of strings": lambda: E("a", shapestruct=("x", 2)),
        "entry with three shape structures": lambda: E("a", shapestruct=(sub(), sub(), sub())),
        "entry with a number as shapestruct": lambda: E("a", shapestruct=3),
        "structure of a single entry, not a list": lambda: S(E("a")),
        "structure of a dictionary": lambda: S({"a": 1}),
        "duplicate names": lambda: S([E("a"), E("a", shape=2)]),
        "duplicate names in a group": lambda: S([(E("a", repeat=2), E("b", repeat=2)), E("b")]),
        "order with an unknown name": lambda: S([E("a"), E("b")], order=["a", "c"]),
        "order with an unknown name in a group": lambda: S([E("a"), E("b")], order=[("a", "c")]),
        "order together with groups": lambda: S([(E("a"), E("b"))], order=["a", "b"]),
        "symbolic SX structure with an expression": lambda: s3.struct_symSX([E("a", expr=SX.sym("x"))]),
        "symbolic MX structure with an expression": lambda: s3.struct_symMX([E("a", expr=MX.sym("x"))]),
        "symbolic MX structure with a symbol": lambda: s3.struct_symMX([E("a", sym=SX.sym("x"))]),
        "SX structure of entries without expression": lambda: s3.struct_SX([E("a")]),
        "MX structure of entries without expression": lambda: s3.struct_MX([E("a")]),
        "mutable MX structure of entries without expression": lambda: s3.struct_MX_mutable([E("a")]),
    }
    if w == "list":
        return sorted(table)
    table[w]()

if __name__ == "__main__":
    main(run_case)
