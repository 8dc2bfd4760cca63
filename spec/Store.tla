------------------------------- MODULE Store -------------------------------
(* What an assignment through a structured index does to the flat vector of values.

   Payload  [t |-> "num", v |-> value]            scalar
            [t |-> "mat", r, c, e |-> Seq(value)]  matrix, column by column
            [t |-> "list", v |-> Seq(payload)]
            [t |-> "rep", v |-> payload]           repeated(...)
            [t |-> "dict", v |-> Seq([k, v])]
   Result   [s |-> "ok" | "exc" | "any", cat |-> values, n |-> number of matrices assigned] *)
EXTENDS PowerIndex

OK(cat, n) == [s |-> "ok", cat |-> cat, n |-> n]
Fail(cat, n) == [s |-> "exc", cat |-> cat, n |-> n]
Unspec(cat, n) == [s |-> "any", cat |-> cat, n |-> n]

(* what the payload is when it arrives at a matrix *)
LeafValue(pl) ==
    CASE pl.t = "num" -> Mat(1, 1, <<pl.v>>)
      [] pl.t = "mat" -> Mat(pl.r, pl.c, pl.e)
      [] pl.t = "list" ->
            (IF Len(pl.v) = 0 THEN Unsp
             ELSE IF \A i \in 1..Len(pl.v) : pl.v[i].t = "num" THEN Mat(Len(pl.v), 1, [i \in 1..Len(pl.v) |-> pl.v[i].v])
             ELSE IF \A i \in 1..Len(pl.v) : /\ pl.v[i].t = "list"
                                             /\ Len(pl.v[i].v) = Len(pl.v[1].v) /\ Len(pl.v[i].v) > 0
                                             /\ \A j \in 1..Len(pl.v[i].v) : pl.v[i].v[j].t = "num"
                  THEN LET r == Len(pl.v) IN
                       Mat(r, Len(pl.v[1].v), [k \in 1..(r * Len(pl.v[1].v)) |-> pl.v[Mod(k - 1, r) + 1].v[(k - 1) \div r + 1].v])
             ELSE IF \E i \in 1..Len(pl.v) : pl.v[i].t \in {"rep", "dict"} THEN Exc
             ELSE Unsp)
      [] pl.t \in {"rep", "dict"} -> Exc
      [] OTHER -> Unsp

(* store v into the elements im.e; sym: no transposition, mirrored elements must agree *)
Assign(cat, im, v, sym) ==
    LET scalar == v.r = 1 /\ v.c = 1
        same == v.r = im.r /\ v.c = im.c
        flip == v.r = im.c /\ v.c = im.r /\ Min2(v.r, v.c) = 1
        val(k) == IF scalar THEN v.e[1] ELSE v.e[k]
        hits(i) == {k \in 1..Len(im.e) : im.e[k] = i - 1}
    IN IF Len(im.e) = 0 THEN (IF scalar \/ same THEN OK(cat, 1) ELSE Unspec(cat, 1))
       ELSE IF ~(scalar \/ same \/ (flip /\ ~sym)) THEN Fail(cat, 1)
       ELSE IF sym /\ ~scalar /\ \E i \in 1..Len(im.e), j \in 1..Len(im.e) : im.e[i] = im.e[j] /\ val(i) /= val(j)
            THEN Unspec(cat, 1)
       ELSE OK([i \in 1..Len(cat) |-> IF hits(i) = {} THEN cat[i] ELSE val(MaxOf(hits(i)))], 1)

(* element number i (0-based) of a distributed payload *)
Item(pl, i) ==
    IF pl.t = "list" THEN
        (IF i >= Len(pl.v) \/ i < -Len(pl.v) THEN [t |-> "missing"]
         ELSE IF i < 0 THEN pl.v[Len(pl.v) + i + 1] ELSE pl.v[i + 1])
    ELSE IF pl.t = "rep" THEN pl.v
    ELSE pl

RECURSIVE WStruct(_, _, _, _, _, _, _), WEntry(_, _, _, _, _, _, _, _)

(* n > 1: more than one target, of which some may have been written when another is refused.
   Perform the assignments f(1, cat), ..., f(n, ...) one after the other, stop at the first that fails *)
Thread(n, init, f(_, _)) ==
    FoldLeft(LAMBDA st, i :
                IF st.s = "exc" THEN st
                ELSE LET nx == f(i, st.cat)
                     IN [s |-> IF nx.s = "exc" THEN "exc" ELSE IF st.s = "any" THEN "any" ELSE nx.s,
                         cat |-> nx.cat, n |-> st.n + nx.n],
             [init EXCEPT !.n = IF n > 1 THEN 2 ELSE @], [i \in 1..n |-> i])

(* al = "vec": a slot holds one expression, which is replaced as a whole by one of exactly its shape *)
IsSlot(p) == \A i \in 2..Len(p) : SubSeq(p[i], 1, 1) = "#"
NzOf(pl) == IF "nz" \in DOMAIN pl THEN pl.nz ELSE [k \in 1..(pl.r * pl.c) |-> <<Mod(k - 1, pl.r), (k - 1) \div pl.r>>]
Replace(L, p, r, c, nz, pl, cat) ==
    LET u == Under(L, p)
        pos == {u[i] + 1 : i \in 1..Len(u)}
        k(i) == CHOOSE j \in 1..Len(u) : u[j] + 1 = i
        val(j) == pl.e[nz[j][2] * r + nz[j][1] + 1]
    IN IF ~IsSlot(p) THEN Fail(cat, 1)
       ELSE IF pl.t /= "mat" THEN Fail(cat, 1)
       ELSE IF pl.r /= r \/ pl.c /= c \/ NzOf(pl) /= nz THEN Fail(cat, 1)
       ELSE OK([i \in 1..Len(cat) |-> IF i \in pos THEN val(k(i)) ELSE cat[i]], 1)

(* positions that the payload has values for *)
PatternOf(pl, v) == IF pl.t = "mat" /\ "nz" \in DOMAIN pl THEN {pl.nz[j][2] * pl.r + pl.nz[j][1] + 1 : j \in 1..Len(pl.nz)} ELSE 1..(v.r * v.c)

Put(L, e, p, ix, pl, cat) ==
    LET v == LeafValue(pl)
        f == LeafAt(L, p)
        im == TLCEval(InLeaf(e, FullMat(f), ix))
    IN IF ~HasLeaf(L, p) THEN Fail(cat, 1)
       ELSE IF v.t = "exc" \/ im.t = "exc" THEN Fail(cat, 1)
       ELSE IF v.t = "any" \/ im.t /= "mat" THEN Unspec(cat, 1)
       ELSE IF e.sym /\ Len(ix) > 0 /\ ix[1].k = "f" THEN Unspec(cat, 1)
       ELSE LET stored == {k \in 1..Len(im.e) : im.e[k] /= -1}
                given == PatternOf(pl, v)
                scalar == v.r = 1 /\ v.c = 1
                whole == Len(im.e) = v.r * v.c
            IN (* a part of a sparse symmetric entry takes a matrix of its own pattern: values for positions that are
                  not stored would be lost *)
               IF e.sym /\ ~scalar /\ stored /= 1..Len(im.e) /\ Len(im.e) > 0 THEN
                    (IF v.r /= im.r \/ v.c /= im.c THEN Fail(cat, 1)
                     ELSE IF Len(ix) = 1 THEN Unspec(cat, 1)
                     ELSE IF given = stored THEN Assign(cat, im, v, TRUE)
                     ELSE IF ~(given \subseteq stored) THEN Fail(cat, 1) ELSE Unspec(cat, 1))
               ELSE IF pl.t = "mat" /\ "nz" \in DOMAIN pl /\ whole /\ given \notin {stored, 1..Len(im.e)} THEN Unspec(cat, 1)
               ELSE Assign(cat, im, v, e.sym)

PutVec(L, p, pl, cat) ==
    LET v == LeafValue(pl)
        u == Under(L, p)
    IN IF v.t = "exc" THEN Fail(cat, 1)
       ELSE IF u = <<>> \/ v.t = "any" THEN Unspec(cat, 1)
       ELSE Assign(cat, Mat(Len(u), 1, u), v, FALSE)

(* assignment to the elements that a callable picks *)
PutFun(tree, pl, cat) ==
    IF tree.t = "exc" THEN Fail(cat, 1)
    ELSE IF tree.t /= "mat" \/ pl.t \notin {"num", "mat"} THEN Unspec(cat, 1)
    ELSE IF Len(tree.e) = 0 \/ \E k \in 1..Len(tree.e) : tree.e[k] = -1 THEN Unspec(cat, 1)
    ELSE Assign(cat, tree, LeafValue(pl), FALSE)

WEntry(L, e, dims, ix, p, pl, cat, al) ==
    IF pl.t = "missing" THEN Fail(cat, 1)
    ELSE IF Len(ix) = 0 /\ Len(dims) > 0 THEN WEntry(L, e, dims, [i \in 1..Len(dims) |-> AllSlice], p, pl, cat, al)
    ELSE IF Len(dims) = 0 THEN
        (IF e.k = "leaf" THEN
            (IF al /= "vec" THEN Put(L, e, p, ix, pl, cat)
             ELSE IF e.sym \/ ~HasLeaf(L, p) THEN Unspec(cat, 1)
             ELSE IF Len(ix) > 0 THEN (IF ix[1].k \in {"nd", "f"} THEN Unspec(cat, 1) ELSE Fail(cat, 1))
             ELSE Replace(L, p, e.r, e.c, e.nz, pl, cat))
         ELSE IF Len(ix) = 0 /\ al = "vec" THEN
            (LET n == LayoutOf(e.sub).size IN Replace(L, p, n, 1, [i \in 1..n |-> <<i - 1, 0>>], pl, cat))
         ELSE IF Len(ix) = 0 THEN PutVec(L, p, pl, cat)
         ELSE WStruct(L, e.sub, ix, p, pl, cat, al))
    ELSE
        LET x == ix[1]
            n == dims[1]
            at(i, q, c) == WEntry(L, e, Tail(dims), Tail(ix), Append(p, Num(Norm(i, n))), q, c, al)
            sub(i, q, c) == IF Norm(i, n) \in 0..(n - 1) THEN at(i, q, c)
                            ELSE IF Len(ix) = 1 THEN Fail(c, 1)
                            ELSE LET x1 == at(i, q, c) IN IF x1.s = "exc" THEN Fail(c, x1.n) ELSE Unspec(c, x1.n)
            all(v) == Thread(Len(v), OK(cat, 0), LAMBDA j, c : sub(v[j], Item(pl, j - 1), c))
        IN CASE x.k = "i" -> sub(x.v, pl, cat)
             [] x.k = "s" -> (IF x.hc /\ x.c = 0 THEN Fail(cat, 1) ELSE all(SliceIdx(x, n)))
             [] x.k = "l" -> all(x.v)
             [] x.k \in {"d", "set", "n", "e", "odd"} -> Fail(cat, 1)
             [] x.k = "ln" -> (IF Len(x.v) = 0 THEN OK(cat, 0) ELSE Fail(cat, 1))
             [] x.k = "nd" -> Thread(n, OK(cat, 0), LAMBDA j, c :
                                     WEntry(L, e, Tail(dims), <<x>>, Append(p, Num(j - 1)), Item(pl, j - 1), c, al))
             [] x.k = "f" /\ al = "vec" -> Unspec(cat, 1)
             [] x.k = "f" -> PutFun(Fun(x.v, InEntry(L, e, dims, Tail(ix), p, "stored")), pl, cat)
             [] OTHER -> Unspec(cat, 1)

WStruct(L, d, ix, p, pl, cat, al) ==
    IF Len(ix) = 0 THEN (IF p = <<>> \/ al = "vec" THEN Unspec(cat, 1) ELSE PutVec(L, p, pl, cat))
    ELSE
        LET x == ix[1]
            ks == Keys(d)
            named(k, rest, q, c) == IF HasEntry(d, k) THEN WEntry(L, EntryOf(d, k), EntryOf(d, k).dims, rest, Append(p, k), q, c, al) ELSE Fail(c, 1)
            rest == IF x.k = "nd" THEN <<x>> ELSE Tail(ix)
        IN CASE pl.t = "missing" -> Fail(cat, 1)
             [] x.k = "n" -> named(x.v, rest, pl, cat)
             [] x.k = "e" -> Thread(Len(ks), OK(cat, 0), LAMBDA i, c : named(ks[i], rest, Item(pl, i - 1), c))
             [] x.k = "ln" -> Thread(Len(x.v), OK(cat, 0), LAMBDA i, c : named(x.v[i], rest, Item(pl, i - 1), c))
             [] x.k \in {"d", "nd"} ->
                    (IF pl.t = "dict" THEN Thread(Len(pl.v), OK(cat, 0), LAMBDA i, c : named(pl.v[i].k, rest, pl.v[i].v, c))
                     ELSE Thread(Len(ks), OK(cat, 0), LAMBDA i, c : named(ks[i], rest, pl, c)))
             [] x.k = "set" ->
                    (IF pl.t = "dict" THEN
                        Thread(Len(pl.v), OK(cat, 0), LAMBDA i, c : IF pl.v[i].k \in RangeOf(x.v) THEN named(pl.v[i].k, rest, pl.v[i].v, c) ELSE OK(c, 0))
                     ELSE Thread(Len(x.v), OK(cat, 0), LAMBDA i, c : named(x.v[i], rest, pl, c)))
             [] x.k = "f" /\ al = "vec" -> Unspec(cat, 1)
             [] x.k = "f" -> PutFun(Fun(x.v, InStruct(L, d, Tail(ix), p, "stored")), pl, cat)
             [] x.k = "l" -> (IF Len(x.v) = 0 THEN OK(cat, 0) ELSE Fail(cat, 1))
             [] x.k \in {"i", "s"} -> Fail(cat, 1)
             [] x.k = "odd" -> (IF x.v = "set of numbers" /\ pl.t = "dict" THEN Unspec(cat, 1) ELSE Fail(cat, 1))
             [] OTHER -> Unspec(cat, 1)

Write(L, cat, ix, pl, al) == WStruct(L, L.decl, ix, <<>>, pl, cat, al)

(* the value a read returns, as a payload *)
RECURSIVE AsPayload(_)
AsPayload(x) ==
    CASE x.t = "mat" -> x
      [] x.t = "list" -> [t |-> "list", v |-> [i \in 1..Len(x.v) |-> AsPayload(x.v[i])]]
      [] x.t = "dict" -> [t |-> "dict", v |-> [i \in 1..Len(x.v) |-> [k |-> x.v[i].k, v |-> AsPayload(x.v[i].v)]]]
      [] OTHER -> x

(* the same with the pattern, which the addresses tell *)
RECURSIVE AsSparse(_, _)
AsSparse(a, x) ==
    CASE x.t = "mat" -> IF \A k \in 1..Len(x.e) : a.e[k] /= -1 THEN x
                        ELSE LET ks == TLCEval(SelectSeq([k \in 1..Len(x.e) |-> k], LAMBDA k : a.e[k] /= -1))
                             IN [t |-> "mat", r |-> x.r, c |-> x.c, e |-> x.e,
                                 nz |-> [j \in 1..Len(ks) |-> <<Mod(ks[j] - 1, x.r), (ks[j] - 1) \div x.r>>]]
      [] x.t = "list" -> [t |-> "list", v |-> [i \in 1..Len(x.v) |-> AsSparse(a.v[i], x.v[i])]]
      [] x.t = "dict" -> [t |-> "dict", v |-> [i \in 1..Len(x.v) |-> [k |-> x.v[i].k, v |-> AsSparse(a.v[i].v, x.v[i].v)]]]
      [] OTHER -> x
=============================================================================
