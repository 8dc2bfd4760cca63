"""Checks of the structure properties C01..C09."""
import genstruct as G
from checks import check

KINDS = ["DM", "SX", "MX"]

def content(n, start=10):
    return [G.number(start + 7 * i) for i in range(n)]

def conv_op(d, dn, o, kind, start=10):
    n = G.size(d)
    return dict(op="conv", d=dn, o=o, kind=kind, arg=dict(t="mat", r=n, c=1, e=content(n, start)))

def make_op(r, d, o, kind=None):
    kind = kind or r.choice(["DM", "SX", "MX", "symSX", "symMX"])
    return dict(op="mk", d=1, o=o, kind=kind) if kind.startswith("sym") else conv_op(d, 1, o, kind)

def case(r, ops):
    return dict(ops=ops, var=r.randrange(10**6))

def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]

def model_indices(run, **consts):
    """indices explored by IndexModel, by declaration"""
    cs = run.model("IndexModel", consts)
    decls = cs[0]["decls"]
    run.cases_from_tlc -= 1
    by = {}
    for c in cs[1:]:
        by.setdefault(c["d"], []).append(c["ix"])
    return [(decls[k - 1], v) for k, v in sorted(by.items())]

def model_histories(run, **consts):
    cs = run.model("StoreModel", consts)
    decls = cs[0]["decls"]
    run.cases_from_tlc -= 1
    return [(decls[c["d"] - 1], c["hist"]) for c in cs[1:]]

def lookup_op(r, m):
    return dict(op="lookup", d=1, i=r.choice([0, m - 1, m, m + 1, -1, -m, -m - 1, r.randint(0, m)]), mode=r.choice([0, 1, 2]), label=r.random() < .4)

def layout_case(r, d):
    ops = [dict(op="decl", d=1, decl=d, full=True, cls=r.choice(["struct", "symSX", "symMX"]))]
    for _ in range(3):
        ops.append(dict(op="ind", d=1, w=r.choice("if"), ix=G.rand_ix(r, d, funs=False)))
    for e in d["entries"]:
        ops.append(dict(op="ind", d=1, w="i", ix=[G.N(e["n"])]))
        ops.append(dict(op="ind", d=1, w="f", ix=[G.N(e["n"])]))
    m = G.size(d)
    for _ in range(3):
        ops.append(lookup_op(r, m))
    # containers of every kind show the same numbering
    kind = r.choice(["DM", "SX", "MX", "symSX", "symMX"])
    ops.append(make_op(r, d, 1, kind))
    for e in d["entries"]:
        ops.append(dict(op="read", o=1, ix=[G.N(e["n"])]))
    return case(r, ops)

@check("C01", "exhaustive over all declarations of up to 3 entries from a small menu of shapes, repetitions, symmetric/sparse/nested entries, groups and orders; random larger declarations (depth 3, size 40)")
def c01(run):
    r = run.rng
    decls = run.model("LayoutModel", dict(MaxEntries=2, Level=2 if run.quick else 3))
    decls += run.model("LayoutModel", dict(MaxEntries=3, Level=0 if run.quick else 1))
    cases = [layout_case(r, d) for d in decls]
    for i in range(600 if run.quick else 6000):
        cases.append(layout_case(r, G.rand_decl(r)))
    for i in range(8 if run.quick else 60):
        d = G.large_decl(r)
        m = G.size(d)
        ops = layout_case(r, d)["ops"]
        # all the way through, and back
        ops += [dict(op="lookup", d=1, i=k, mode=r.choice([0, 1, 2]), label=r.random() < .4) for k in list(range(m)) + r.sample(range(-m, m), 20)]
        cases.append(case(r, ops))
    run.validate("StructTrace", run.drive("structdrv", cases))

@check("C02", "exhaustive over all indices of length 3 (4 in the thorough tier) from a menu of 13-23 index elements over five declarations; random declarations and indices beyond")
def c02(run):
    r = run.rng
    cases = []
    for scope in ("gen", "sym"):
        for d, ixs in model_indices(run, MaxLen=3, Level=2 if run.quick else 3, Scope=scope):
            for part in chunks(ixs, 40):
                kind = r.choice(["DM", "SX", "MX", "symSX", "symMX"])
                ops = [dict(op="decl", d=1, decl=d, cls="struct"), make_op(r, d, 1, kind)]
                cases.append(case(r, ops + [dict(op="read", o=1, ix=ix) for ix in part]))
    if not run.quick:
        for d, ixs in model_indices(run, MaxLen=4, Level=2, Scope="gen"):
            for part in chunks(ixs, 60):
                cases.append(case(r, [dict(op="decl", d=1, decl=d, cls="struct"), make_op(r, d, 1)] + [dict(op="read", o=1, ix=ix) for ix in part]))
    for i in range(600 if run.quick else 6000):
        d = G.rand_decl(r) if r.random() < .8 else G.shape_decl(r)
        ops = [dict(op="decl", d=1, decl=d, cls="struct")]
        for j in range(2):
            ops.append(make_op(r, d, j + 1))
            for _ in range(6):
                ix = G.rand_ix(r, d)
                ops.append(dict(op="read", o=j + 1, ix=ix, pre=r.choice([None, None, r.randint(1, len(ix))])))
            ops.append(dict(op="look", o=j + 1, ways=True))
        cases.append(case(r, ops))
    run.validate("StructTrace", run.drive("structdrv", cases))

def write_history(r, d, kind, n, v):
    ops = []
    for _ in range(n):
        ix = G.rand_ix(r, d, write=True)
        x = r.random()
        if x < .6:
            ops.append(dict(op="write", o=1, ix=ix, pl=G.payload(r, v, d, ix), pre=r.choice([None, None, None, r.randint(1, len(ix))])))
        elif x < .85:
            ops.append(dict(op="read", o=1, ix=ix))
        else:
            ops.append(dict(op="back", o=1, ix=ix))
    return ops

def replay_history(r, d, hist, kind):
    ops = [dict(op="decl", d=1, decl=d, cls="struct"), conv_op(d, 1, 1, kind)]
    for h in hist:
        if h["how"] == "back":
            ops.append(dict(op="back", o=1, ix=h["ix"]))
        else:
            ops.append(dict(op="write", o=1, ix=h["ix"], pl=h["pl"]))
        ops.append(dict(op="read", o=1, ix=h["ix"]))
    ops.append(dict(op="read", o=1, ix=[G.ND], pre=r.choice([None, 1])))
    return case(r, ops)

@check("C03", "exhaustive over all two-step assignment histories from a pool of 12 indices and three payload kinds on three declarations; random histories of 8 steps beyond")
def c03(run):
    r = run.rng
    cases = []
    hs = model_histories(run, MaxLen=1, Level=1, Scope="gen", Depth=2)
    if run.quick:
        hs = r.sample(hs, 800)
    for d, hist in hs:
        for kind in ([r.choice(KINDS)] if run.quick else KINDS):
            cases.append(replay_history(r, d, hist, kind))
    for i in range(600 if run.quick else 6000):
        d = G.rand_decl(r, opts=dict(empty=False)) if r.random() < .85 else G.shape_decl(r)
        kind = r.choice(KINDS)
        v = G.Vals(nested=kind != "MX")
        ops = [dict(op="decl", d=1, decl=d, cls="struct"), conv_op(d, 1, 1, kind), conv_op(d, 1, 2, r.choice(KINDS), 4001)]
        ops += write_history(r, d, kind, 8, v)
        ops += [dict(op="look", o=1, ways=True), dict(op="look", o=2, ways=True)]
        cases.append(case(r, ops))
    run.validate("StructTrace", run.drive("structdrv", cases))

@check("C04", "exhaustive over the same indices as C02 for reads and scalar writes, a fixed table of refused declarations; random spoiled indices, payloads, conversions and declarations beyond")
def c04(run):
    r = run.rng
    cases = []
    # every index of the model, read and written: the refused ones must be refused and leave no trace
    for d, ixs in model_indices(run, MaxLen=3, Level=2 if run.quick else 3, Scope="gen"):
        for part in chunks(ixs, 40):
            ops = [dict(op="decl", d=1, decl=d, cls="struct"), conv_op(d, 1, 1, r.choice(KINDS))]
            for ix in part:
                ops.append(dict(op=r.choice(["read", "write", "write"]), o=1, ix=ix, pl=G.Num("5")))
            cases.append(case(r, ops))
    import structrefuse
    for w in structrefuse.NAMES:
        cases.append(case(r, [dict(op="decl", d=1, decl=G.decl([G.leaf("a")])), dict(op="refuse", what=w)]))
    for i in range(500 if run.quick else 5000):
        d = G.rand_decl(r, opts=dict(empty=False))
        kind = r.choice(KINDS)
        v = G.Vals(nested=kind != "MX")
        ops = [dict(op="decl", d=1, decl=d, cls="struct"), conv_op(d, 1, 1, kind)]
        for _ in range(8):
            ix = G.rand_ix(r, d, funs=False)
            x = r.random()
            if x < .35:
                ops.append(dict(op="read", o=1, ix=G.spoil_ix(r, d, ix)))
            elif x < .55:
                ops.append(dict(op="write", o=1, ix=G.spoil_ix(r, d, ix), pl=G.payload(r, v, d, ix), risky=True))
            elif x < .8:
                ops.append(dict(op="write", o=1, ix=ix, pl=G.spoil_payload(r, v, G.payload(r, v, d, ix)), risky=True))
            elif x < .85:
                ops.append(lookup_op(r, G.size(d)))
            elif x < .9:
                ops.append(dict(op="ind", d=1, w=r.choice("if"), ix=G.spoil_ix(r, d, ix)))
            else:
                ops.append(bad_conv(r, d, v))
        cases.append(case(r, ops))
    for i in range(150 if run.quick else 1500):
        d = G.rand_decl(r)
        cases.append(case(r, [dict(op="decl", d=1, decl=G.spoil_decl(r, d), cls=r.choice(["struct", "symSX", "symMX"]))]))
    run.validate("StructTrace", run.drive("structdrv", cases))

def bad_conv(r, d, v):
    n = G.size(d)
    x = r.random()
    kind = r.choice(KINDS)
    if x < .4:
        m = max(0, n + r.choice([-1, 1, 2, -2]))
        return dict(op="conv", d=1, o=2, kind=kind, arg=dict(t="mat", r=m, c=1, e=content(m)))
    if x < .6:
        a, b = r.choice([(1, n), (n, 2), (2, n), (n + 1, n)])
        return dict(op="conv", d=1, o=2, kind=kind, arg=dict(t="mat", r=a, c=b, e=content(a * b)))
    return dict(op="conv", d=1, o=2, kind="DM", arg=G.spoil_dict(r, v, dict_arg(r, d, v)), risky=True)

def dict_arg(r, d, v):
    return dict(t="dict", v=[dict(k=n, v=G.payload(r, v, d, [G.N(n)])) for n in r.sample([e["n"] for e in d["entries"]], len(d["entries"]))])

@check("C05", "declarations of the layout model and random ones; vector, scalar, dictionary and matrix arguments are random")
def c05(run):
    r = run.rng
    cases = []
    decls = run.model("LayoutModel", dict(MaxEntries=2, Level=2 if run.quick else 3))
    for d in (r.sample(decls, 250) if run.quick else decls):
        cases.append(conv_case(r, d, 3))
    for i in range(350 if run.quick else 4000):
        d = G.rand_decl(r) if r.random() < .9 else G.decl([G.leaf("a")])
        cases.append(conv_case(r, d, 6))
    run.validate("StructTrace", run.drive("structdrv", cases))

def conv_case(r, d, k):
    n = G.size(d)
    v = G.Vals()
    ops = [dict(op="decl", d=1, decl=d, cls=r.choice(["struct", "symSX", "symMX"]))]
    odd = ["inf", "-inf", "nan", "1/2", "-3/4", "0", str(10 ** 15), str(-2 ** 60), str(2 ** 1000), "1/%d" % 2 ** 1000]
    for j in range(k):
        x = r.random()
        if x < .3:
            e = content(n, 11 + 1000 * j)
            kind = r.choice(KINDS)
            if kind == "DM" and r.random() < .3:
                e = [r.choice(odd) if r.random() < .3 else y for y in e]
            ops.append(dict(op="conv", d=1, o=j + 1, kind=kind, arg=dict(t="mat", r=n, c=1, e=e)))
        elif x < .45:
            ops.append(dict(op="conv", d=1, o=j + 1, kind="DM", arg=G.Num(r.choice(odd + ["7", "-2", "3"]))))
        elif x < .75:
            ops.append(dict(op="conv", d=1, o=j + 1, kind="DM", arg=dict_arg(r, d, v)))
        else:
            c = r.choice([1, 1, 2, 3, 5]) if r.random() < .9 else r.randint(18, 40)
            ops.append(dict(op="parse", d=1, arg=dict(t="mat", r=n, c=c, e=content(n * c, 5))))
            if r.random() < .3:
                ops.append(dict(bad_conv(r, d, v), o=30 + j))
            continue
        ops.append(dict(op="read", o=j + 1, ix=G.rand_ix(r, d)))
        if r.random() < .5:
            ops.append(dict(op="look", o=j + 1, ways=True))
    return case(r, ops)

@check("C07", "exhaustive over all indices of length 3 and all two-step assignment histories from a pool of indices on declarations with dense, sparse, repeated and nested symmetric entries; random histories (sizes up to 5) beyond")
def c07(run):
    r = run.rng
    cases = []
    for d, ixs in model_indices(run, MaxLen=3, Level=2 if run.quick else 3, Scope="sym"):
        for part in chunks(ixs, 50):
            ops = [dict(op="decl", d=1, decl=d, cls="struct"), conv_op(d, 1, 1, r.choice(KINDS))]
            cases.append(case(r, ops + [dict(op="read", o=1, ix=ix) for ix in part]))
    hs = model_histories(run, MaxLen=1, Level=1, Scope="sym", Depth=2)
    if run.quick:
        hs = r.sample(hs, min(700, len(hs)))
    for d, hist in hs:
        for kind in ([r.choice(KINDS)] if run.quick else KINDS):
            cases.append(replay_history(r, d, hist, kind))
    for i in range(700 if run.quick else 7000):
        d = G.sym_decl(r)
        kind = r.choice(KINDS)
        v = G.Vals(nested=kind != "MX")
        ops = [dict(op="decl", d=1, decl=d, cls="struct"), conv_op(d, 1, 1, kind)]
        ops += write_history(r, d, kind, 3, v)
        for _ in range(6):
            # one matrix, addressed down to its elements
            p, e = G.sym_path(r, d)
            ix = p + G.mat_ix(r, e)
            x = r.random()
            if x < .5:
                ops.append(dict(op="write", o=1, ix=ix, pl=G.leaf_payload(r, v, e, ix[len(p):])))
                ops.append(dict(op="read", o=1, ix=p))
            elif x < .85:
                ops.append(dict(op="read", o=1, ix=ix))
            else:
                ops.append(dict(op="back", o=1, ix=ix))
        cases.append(case(r, ops))
    run.validate("StructTrace", run.drive("structdrv", cases))

@check("C08", "declarations of the layout model and random ones; random histories of saving, loading (pickle protocols, file, several containers together, repeatedly) interleaved with reads and writes of all copies")
def c08(run):
    r = run.rng
    cases = []
    decls = run.model("LayoutModel", dict(MaxEntries=2, Level=2 if run.quick else 3))
    decls = r.sample(decls, min(len(decls), 200 if run.quick else 1200))
    for i in range(300 if run.quick else 3000):
        decls.append(G.rand_decl(r) if r.random() < .8 else G.shape_decl(r))
    decls += [G.large_decl(r) for _ in range(6 if run.quick else 50)]
    for d in decls:
        cases.append(copy_case(r, d))
    hs = run.model("PersistModel", dict(Depth=5 if run.quick else 6, MaxObj=3, Slots_=1))
    for h in r.sample(hs, min(len(hs), 250 if run.quick else 4000)):
        cases.append(persist_case(r, h["hist"]))
    run.validate("StructTrace", run.drive("structdrv", cases))

def persist_case(r, hist):
    """a history of PersistModel on a random declaration"""
    d = G.rand_decl(r, opts=dict(empty=False), maxsize=12)
    v = G.Vals()
    ops = [dict(op="decl", d=1, decl=d, cls="struct"), conv_op(d, 1, 1, "DM")]
    for n, h in enumerate(hist):
        if h["a"] == "write":
            ix = G.rand_ix(r, d, write=True)
            ops.append(dict(op="write", o=h["o"], ix=ix, pl=G.payload(r, v, d, ix)))
        elif h["a"] == "dump":
            ops.append(dict(op="dump", src=h["o"], img=h["i"], how=h["w"], proto=r.randint(0, 5)))
        else:
            ops.append(dict(op="load", img=h["i"], o=h["o"]))
        k = max(x["o"] for x in hist[:n + 1])
        ops += [dict(op="look", o=q) for q in range(1, max(k, 1) + 1)]
        ops.append(dict(op="read", o=h["o"], ix=[G.ND]))
    return case(r, ops)

def copy_how(r):
    if r.random() < .01:
        return dict(how="process", proto=2)
    return dict(how=r.choice(["pickle", "pickle", "save", "deepcopy"]), proto=r.choice([0, 1, 2, 3, 4, 5]))

def copy_case(r, d):
    n = G.size(d)
    v = G.Vals()
    ops = [dict(op="decl", d=1, decl=d, cls=r.choice(["struct", "struct", "symSX", "symMX"]))]
    # the structure itself, over several generations
    for g in range(r.choice([1, 1, 2])):
        ops.append(dict(op="copystruct", d=g + 1, d2=g + 2, **copy_how(r)))
        for e in d["entries"]:
            ops.append(dict(op="ind", d=g + 2, w="i", ix=[G.N(e["n"])]))
        ops.append(dict(op="ind", d=g + 2, w=r.choice("if"), ix=G.rand_ix(r, d, funs=False)))
        ops.append(conv_op(d, g + 2, 20 + g, r.choice(KINDS)))
        ops.append(dict(op="read", o=20 + g, ix=G.rand_ix(r, d)))
    ops.append(conv_op(d, 1, 1, "DM"))
    ops.append(conv_op(d, 2, 2, "DM", 5001))
    live = [1, 2]
    odd = ["inf", "-inf", "nan", "6004799503160661/18014398509481984", "0"]
    for j in range(8):
        x = r.random()
        o = r.choice(live)
        if x < .35 and len(live) < 8:
            k = max(live) + 1
            if r.random() < .2:
                g = [r.choice(live), r.choice(live)]
                h = copy_how(r)
                h["how"] = r.choice(["pickle", "deepcopy"])
                if g[0] != g[1]:
                    ops.append(dict(op="copy", src=g[0], group=g, o=[k, k + 1], **h))
                    live += [k, k + 1]
                    continue
            ops.append(dict(op="copy", src=o, o=k, **copy_how(r)))
            live.append(k)
        elif x < .65:
            ix = G.rand_ix(r, d, write=True)
            pl = G.payload(r, v, d, ix)
            if r.random() < .1:
                pl = G.Num(r.choice(odd))
            ops.append(dict(op="write", o=o, ix=ix, pl=pl))
        else:
            ops.append(dict(op="read", o=o, ix=G.rand_ix(r, d)))
        if r.random() < .3:
            ops += [dict(op="look", o=q) for q in live]
    ops += [dict(op="look", o=q) for q in live]
    ops.append(dict(op="read", o=live[-1], ix=[G.ND]))
    return case(r, ops)

VIEWS = ["repeated", "squared", "product", "squared_repeated"]

def view_op(r, d, e, how, kind, o, cols=None, start=3):
    n, m = G.size(d), G.size(e)
    cols = cols or (r.randint(1, 4) if r.random() < .9 else r.randint(5, 12))
    c = dict(repeated=cols, squared=n, product=m, squared_repeated=n * cols)[how]
    return dict(op="view", d=1, d2=2, dv=10 + o, o=o, how=how, kind=kind, arg=dict(t="mat", r=n, c=c, e=content(n * c, start)))

def bad_view(r, d, e, how, kind, o):
    n, m = G.size(d), G.size(e)
    a, b = r.choice([(n + 1, n), (n, n + 1), (m + 1, n), (n - 1, n), (n, m), (m, n), (2 * n, 2), (n + 1, 1), (1, n + 1), (1, 1), (n, 2 * n + 1)])
    a, b = max(a, 1), max(b, 1)
    return dict(op="view", d=1, d2=2, dv=10 + o, o=o, how=how, kind=kind, arg=dict(t="mat", r=a, c=b, e=content(a * b, 3)))

@check("C06", "exhaustive over all indices of length 3 from a menu of 8-18 index elements into the four kinds of views over two small structures; random structures, matrices and histories beyond")
def c06(run):
    r = run.rng
    cases = []
    cs = run.model("ViewModel", dict(MaxLen=3, Level=1 if run.quick else 2))
    A, B = cs[0]["decls"]
    run.cases_from_tlc -= 1
    by = {}
    for c in cs[1:]:
        by.setdefault(c["how"], []).append(c["ix"])
    cols = dict(repeated=3, squared=None, product=None, squared_repeated=2)
    for how, ixs in sorted(by.items()):
        for part in chunks(ixs, 30):
            ops = [dict(op="decl", d=1, decl=A, cls="struct"), dict(op="decl", d=2, decl=B, cls="struct"), view_op(r, A, B, how, r.choice(KINDS), 1, cols[how])]
            ops.append(dict(op="read", o=1, ix=[]))
            v = G.Vals()
            for ix in part:
                ops.append(dict(op="read", o=1, ix=ix))
                if r.random() < .4:
                    ops.append(dict(op="write", o=1, ix=ix, pl=G.Num(v())))
            cases.append(case(r, ops))
    for i in range(500 if run.quick else 5000):
        how = r.choice(VIEWS) if i % 50 != 7 else VIEWS[i // 50 % 4]
        # through a view a sparse entry takes scalars, or its nonzeros only
        sparse = r.random() < .3
        simple = dict(sparse=sparse, empty=False)
        d = G.rand_decl(r, 1, simple, 9)
        e = G.rand_decl(r, 1, simple, 7)
        if i % 50 == 7:
            # large entries
            d = G.decl(r.sample([G.leaf("a", 9, 8 if how == "repeated" else 1), G.leaf("b", r.choice([1, 9]), 1)], 2))
            e = G.decl([G.leaf("a", 9, 1), G.leaf("c", 1, 1)])
        kind = r.choice(KINDS)
        ops = [dict(op="decl", d=1, decl=d, cls=r.choice(["struct", "symSX", "symMX"])), dict(op="decl", d=2, decl=e, cls=r.choice(["struct", "symSX"]))]
        if r.random() < .3:
            ops.append(bad_view(r, d, e, how, kind, 2))
        op = view_op(r, d, e, how, kind, 1)
        if how in ("squared", "product") and r.random() < .1:
            op["arg"] = dict(t="mat", r=1, c=1, e=["7"])
        ops.append(op)
        t = G.view_entry(how, d, e, op["arg"]["c"])
        v = G.Vals(nested=kind != "MX", flip=False)
        if i % 50 == 7:
            ix = ([r.choice([G.I(0), G.I(-1)])] if t["dims"] else []) + [G.N("a")] * (1 if how == "repeated" else 2)
            ops.append(dict(op="write", o=1, ix=ix, pl=G.p_entry(r, v, t, list(t["dims"]), ix) if how == "repeated" else dict(t="mat", r=9, c=9, e=[v() for _ in range(81)])))
        for _ in range(8):
            ix = G.entry_ix(r, t, list(t["dims"]), .9, r.random() < .15, True)
            x = r.random()
            if x < .45:
                ops.append(dict(op="read", o=1, ix=ix))
            elif x < .9 and ix:
                ops.append(dict(op="write", o=1, ix=ix, pl=G.Num(v()) if sparse else view_payload(r, v, t, ix)))
            elif ix:
                ops.append(dict(op="back", o=1, ix=ix))
        ops.append(dict(op="read", o=1, ix=[]))
        ops.append(dict(op="look", o=1, ways=True))
        cases.append(case(r, ops))
    run.validate("StructTrace", run.drive("structdrv", cases))

def view_payload(r, v, t, ix):
    if t["k"] == "struct":
        return G.p_entry(r, v, t, list(t["dims"]), ix)
    # a block: rows and columns counted by the structures that name them
    if t["dims"]:
        if len(ix) < 1 or ix[0]["k"] != "i":
            return G.Num(v())
        ix = ix[1:]
    if len(ix) != 2:
        return G.Num(v())
    n = [side_len(x, s, k) for x, s, k in zip(ix, t["ss"], (t["r"], t["c"]))]
    if None in n or r.random() < .3:
        return G.Num(v())
    return G.Matp(n[0], n[1], [v() for _ in range(n[0] * n[1])])

def side_len(x, side, n):
    if x["k"] in ("i", "s", "l"):
        return len(G.positions(x, n))
    names = [x["v"]] if x["k"] == "n" else x["v"] if x["k"] == "ln" else None
    if names is None:
        return None
    return sum(G.size(dict(entries=[G.entry_of(side["d"], q)])) for q in names)

EXKINDS = ["exSX", "exMX", "exMXm"]

@check("C09", "exhaustive over all histories of 3 (thorough: 4) fillings and replacements of the slots of one structure, for the three kinds of containers; random lists of expressions and histories beyond")
def c09(run):
    r = run.rng
    cases = []
    for kind in EXKINDS:
        cs = run.model("AssemblyModel", dict(Depth=3 if run.quick or kind == "exSX" else 4, Kind=kind))
        d = cs[0]["decl"]
        run.cases_from_tlc -= 1
        names = [e["n"] for e in d["entries"]]
        for h in cs[1:]:
            v = G.Vals(5000)
            ops = [dict(op="decl", d=1, decl=d, cls="struct"), dict(op="blank", d=1, o=1, kind=kind)]
            # before, in the middle of, or after the rest is filled
            k = r.randint(0, len(h["hist"]))
            for i in range(len(h["hist"]) + 1):
                if i == k:
                    es = list(d["entries"])
                    r.shuffle(es)
                    ops += [fill_op(r, v, e) for e in es]
                    ops += [dict(op="read", o=1, ix=[G.N(r.choice(names))])]
                if i < len(h["hist"]):
                    x = h["hist"][i]
                    ops.append(dict(op="write", o=1, ix=x["ix"], pl=x["pl"], expr=True))
                    if r.random() < .5:
                        ops.append(dict(op="read", o=1, ix=[G.N(r.choice(names))]))
            ops.append(dict(op="read", o=1, ix=[G.ND]))
            cases.append(case(r, ops))
    for i in range(500 if run.quick else 5000):
        kind = r.choice(EXKINDS + ["exMX", "symSX"])
        d = G.rand_decl(r, 1, dict(sym=False, empty=False), 30)
        if i % 60 == 7:
            # many expressions
            d = G.decl(r.sample([G.rand_leaf(r, "a", dict(sym=False, empty=False), [r.randint(17, 40)]), G.leaf("b", 2, 2, nz=[[0, 0], [1, 1]], dims=[r.randint(9, 20)])], 2))
        if kind in ("exSX", "exMXm") and d.get("useorder"):
            continue
        v = G.Vals(100)
        ings = G.ingredients(r, v, d, kind)
        order = d["order"]
        if d.get("useorder"):
            pass
        flat = [n for g in order for n in g]
        ops = []
        if r.random() < .2:
            bad = [dict(g) for g in ings]
            lists = [g for g in bad if g["how"] == "expr" and g["e"]["t"] == "list"]
            if lists:
                g = r.choice(lists)
                g["e"] = G.spoil_expr(r, v, g["e"])
                ops.append(dict(op="asm", d=1, o=1, kind=kind, ings=bad, order=order))
        ops.append(dict(op="asm", d=1, o=1, kind=kind, ings=ings, order=order))
        for e in d["entries"]:
            ops.append(dict(op="read", o=1, ix=[G.N(e["n"])]))
        for _ in range(6):
            x = r.random()
            if kind == "symSX" or x < .4:
                ops.append(dict(op="read", o=1, ix=G.rand_ix(r, d, funs=False)))
            elif x < .85:
                ops.append(fill_op(r, v, r.choice(d["entries"])))
            else:
                op = fill_op(r, v, r.choice(d["entries"]))
                y = r.random()
                if y < .25:
                    op["pl"] = G.spoil_expr(r, v, op["pl"])
                elif y < .5:
                    op["pl"] = G.other_pattern(r, v, op["pl"])
                elif y < .7:
                    op["ix"] = op["ix"] + [r.choice([G.I(0), G.N("p"), G.N("nope"), G.I(99)])]
                else:
                    op["ix"] = G.spoil_ix(r, d, op["ix"])
                ops.append(op)
        ops.append(dict(op="read", o=1, ix=[G.ND]))
        ops.append(dict(op="look", o=1, ways=True))
        cases.append(case(r, ops))
    run.validate("StructTrace", run.drive("structdrv", cases))

def fill_op(r, v, e):
    """give an entry, or one of its slots, or a selection of them, another expression"""
    ix, dims = [G.N(e["n"])], list(e["dims"])
    sel = []
    while dims and r.random() < .6:
        n = dims.pop(0)
        x = G.rint(r, n) if r.random() < .7 else G.Lst(r.sample(range(n), n)) if r.random() < .5 else G.S()
        ix.append(x)
        if x["k"] != "i":
            sel.append(n)
    return dict(op="write", o=1, ix=ix, pl=G.expr_tree(r, v, sel + dims, *G.slot_shape(e)), expr=True, structured=r.random() < .2)
