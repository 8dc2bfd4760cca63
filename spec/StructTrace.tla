----------------------------- MODULE StructTrace -----------------------------
(* Validates recorded histories of structure operations against Layout, PowerIndex and Store.

   Every line gets a verdict; on a mismatch the observed state is adopted and validation goes on.
   heap.lay   declaration number -> layout
   heap.img   image number -> the container when it was saved
   heap.obj   container number -> [d |-> declaration number, kind, cat |-> values] *)
EXTENDS View, Assembly, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, heap, bad
vars == <<l, heap, bad>>

Empty == [lay |-> <<>>, obj |-> <<>>, img |-> <<>>]

B(c, exp) == <<[c |-> c, exp |-> exp]>>
None == <<>>

(* functions as association lists: numbers are dense and small *)
SetAt(s, i, v) == [j \in 1..Max2(Len(s), i) |-> IF j = i THEN v ELSE IF j <= Len(s) THEN s[j] ELSE [none |-> TRUE]]

MatType(kind) == CASE kind = "DM" -> "DM" [] kind \in {"SX", "symSX", "exSX"} -> "SX" [] OTHER -> "MX"

PathEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Plain(x) == IF Len(x) > 0 /\ SubSeq(x, 1, 1) = "#" THEN SubSeq(x, 2, Len(x)) ELSE x
Label(p) == "[" \o FoldLeft(LAMBDA a, i : IF i = 1 THEN Plain(p[1]) ELSE a \o "," \o Plain(p[i]), "", [i \in 1..Len(p) |-> i]) \o "]"

(* ---- declarations: layout queries ---- *)
Canon(s, mode) == IF mode = 0 THEN s.p ELSE IF mode = 1 THEN Append(s.p, Num(s.k)) ELSE s.p \o <<Num(s.col), Num(s.row)>>

SeqBad(obs, exp, c) == IF Len(obs) = Len(exp) /\ \A i \in 1..Len(obs) : PathEq(obs[i], exp[i]) THEN None ELSE B(c, exp)

StepDecl(h, ev) ==
    LET ok == DeclOK(ev.decl)
        L == LayoutOf(ev.decl)
        sl == Slots(L)
        o == ev.out
        h1 == IF ev.reset THEN Empty ELSE h
        canon(m) == [i \in 1..Len(sl) |-> Canon(sl[i], m)]
        lab(m) == [i \in 1..Len(sl) |-> <<Label(Canon(sl[i], m))>>]
    IN IF ~ok THEN [h |-> h1, bad |-> IF o.t = "exc" THEN None ELSE B("declaration accepted", Exc)]
       ELSE IF ev.expect = "exc" THEN [h |-> h1, bad |-> IF o.t = "exc" THEN None ELSE B("declaration accepted", Exc)]
       ELSE IF o.t = "exc" THEN [h |-> h1, bad |-> B("declaration refused", [size |-> L.size])]
       ELSE [h |-> [h1 EXCEPT !.lay = SetAt(@, ev.d, L)],
             bad |-> (IF o.size = L.size THEN None ELSE B("size", [size |-> L.size]))
                  \o (IF PathEq(o.keys, Keys(ev.decl)) THEN None ELSE B("keys", Keys(ev.decl)))
                  \o (IF o.full THEN SeqBad(o.c0, canon(0), "element lookup") \o SeqBad(o.c1, canon(1), "element lookup with number")
                                  \o SeqBad(o.c2, canon(2), "element lookup with position")
                                  \o SeqBad(o.l0, lab(0), "labels") \o SeqBad(o.l1, lab(1), "labels with number") \o SeqBad(o.l2, lab(2), "labels with position")
                      ELSE None)]

(* ---- index queries ---- *)
StepInd(h, ev) ==
    LET L == h.lay[ev.d]
        a == Address(L, ev.ix, "stored")
        f == Flat(a)
    IN [h |-> h,
        bad |-> IF ev.w = "i" THEN (IF Accepts(a, ev.out) THEN None ELSE B("index matrix", a))
                ELSE IF f = <<-2>> THEN None
                ELSE IF f = <<-1>> THEN (IF ev.out.t = "exc" THEN None ELSE B("flat index", Exc))
                ELSE IF ev.out.t = "flat" /\ PathEq(ev.out.v, f) THEN None ELSE B("flat index", f)]

(* ---- single element lookup, also out of range ---- *)
StepLookup(h, ev) ==
    LET L == h.lay[ev.d]
        sl == Slots(L)
        in == ev.i >= 0 /\ ev.i < L.size
    IN [h |-> h,
        bad |-> IF ~in THEN (IF ev.out.t = "exc" THEN None ELSE B("lookup out of range accepted", Exc))
                ELSE IF ev.label THEN (IF ev.out.t = "label" /\ ev.out.v = Label(Canon(sl[ev.i + 1], ev.mode)) THEN None
                                       ELSE B("label", Label(Canon(sl[ev.i + 1], ev.mode))))
                ELSE IF ev.out.t = "path" /\ PathEq(ev.out.v, Canon(sl[ev.i + 1], ev.mode)) THEN None
                ELSE B("lookup", Canon(sl[ev.i + 1], ev.mode))]

(* ---- conversions ---- *)
(* data: [t |-> "num"] scalar, [t |-> "mat"] matrix, [t |-> "dict"] dictionary *)
Converted(L, kind, a) ==
    CASE a.t = "num" \/ (a.t = "mat" /\ a.r = 1 /\ a.c = 1) ->
            (IF kind = "DM" \/ L.size = 1 THEN OK([i \in 1..L.size |-> IF a.t = "num" THEN a.v ELSE a.e[1]], 1) ELSE Fail(<<>>, 1))
      [] a.t = "mat" -> (IF a.r = L.size /\ a.c = 1 THEN OK(a.e, 1)
                         ELSE IF a.r = L.size /\ L.size = 0 THEN Unspec(<<>>, 1)
                         ELSE Fail(<<>>, 1))
      [] a.t = "dict" ->
            (LET ks == Keys(L.decl)
                 names == {a.v[i].k : i \in 1..Len(a.v)}
                 val(k) == a.v[CHOOSE i \in 1..Len(a.v) : a.v[i].k = k].v
             IN IF names /= RangeOf(ks) THEN Fail(<<>>, 1)
                ELSE Thread(Len(ks), OK([i \in 1..L.size |-> "nan"], 0), LAMBDA i, c : Write(L, c, <<[k |-> "n", v |-> ks[i]]>>, val(ks[i]), "rel")))
      [] OTHER -> Unspec(<<>>, 1)

StepConv(h, ev) ==
    LET L == h.lay[ev.d]
        x == Converted(L, ev.kind, ev.arg)
        o == ev.out
        obj == [d |-> ev.d, kind |-> ev.kind, cat |-> ev.cat]
        h1 == IF o = "ok" THEN [h EXCEPT !.obj = SetAt(@, ev.o, obj)] ELSE h
    IN [h |-> h1,
        bad |-> IF x.s = "any" THEN None
                ELSE IF x.s = "exc" THEN (IF o = "exc" THEN None ELSE B("conversion accepted", Exc))
                ELSE IF o = "exc" THEN B("conversion refused", x.cat)
                ELSE (IF PathEq(ev.cat, x.cat) THEN None ELSE B("converted values", x.cat))
                  \o (IF ev.ty = ev.kind THEN None ELSE B("type of container", ev.kind))
                  \o (IF ev.arg.t = "num" /\ ev.stored /= L.size THEN B("elements stored", L.size) ELSE None)]

(* ---- a container appears (symbolic ones): its contents are what the recorder saw ---- *)
StepMk(h, ev) ==
    LET L == h.lay[ev.d] IN
    [h |-> [h EXCEPT !.obj = SetAt(@, ev.o, [d |-> ev.d, kind |-> ev.kind, cat |-> ev.cat])],
     bad |-> (IF Len(ev.cat) = L.size THEN None ELSE B("length of vector", [size |-> L.size]))
          \o (IF ev.distinct => Cardinality(RangeOf(ev.cat)) = Len(ev.cat) THEN None ELSE B("symbols not distinct", ev.cat))]

(* ---- views of a matrix ---- *)
StepView(h, ev) ==
    LET L == h.lay[ev.d]
        M == h.lay[ev.d2]
        a == ev.arg
        fit == ViewFits(ev.how, L, M, a.r, a.c)
        data == ViewData(ev.how, L, M, a)
    IN IF fit = "exc" \/ ev.out = "exc" \/ fit = "any"
       THEN [h |-> h, bad |-> IF fit = "exc" /\ ev.out /= "exc" THEN B("matrix of wrong size accepted", Exc)
                              ELSE IF fit = "ok" THEN B("view refused", data) ELSE None]
       ELSE [h |-> [h EXCEPT !.lay = SetAt(@, ev.dv, ViewLayout(ev.how, L, M, a.r, a.c)),
                             !.obj = SetAt(@, ev.o, [d |-> ev.dv, kind |-> ev.kind, cat |-> ev.cat, view |-> TRUE])],
             bad |-> (IF PathEq(ev.cat, data) THEN None ELSE B("matrix behind the view", data))
                  \o (IF ev.ty = ev.kind THEN None ELSE B("type of container", ev.kind))]
IxOf(ob, ix) == IF "view" \in DOMAIN ob THEN ViewIx(ix) ELSE ix

(* ---- structures built from expressions ---- *)
StepAsm(h0, ev) ==
    LET h == IF ev.reset THEN Empty ELSE h0
        d == DeclFrom(ev.ings, ev.order)
        fit == AsmFits(ev.kind, ev.ings)
        L == LayoutOf(d)
        x == Assembled(L, ev.kind, ev.ings)
        given == {i \in 1..L.size : x.cat[i] \notin {"nan", "missing"}}
        same == Len(ev.cat) = L.size /\ \A i \in given : ev.cat[i] = x.cat[i]
        free == {i \in 1..L.size : i \notin given}
        fresh == \A i \in free, j \in 1..L.size : i /= j => ev.cat[i] /= ev.cat[j]
    IN IF fit /= "ok" \/ x.s /= "ok" \/ ev.out = "exc"
       THEN [h |-> h, bad |-> IF fit = "any" \/ x.s = "any" THEN None
                              ELSE IF fit = "exc" \/ x.s = "exc" THEN (IF ev.out = "exc" THEN None ELSE B("ill-formed expressions accepted", Exc))
                              ELSE B("expressions refused", x.cat)]
       ELSE [h |-> [h EXCEPT !.lay = SetAt(@, ev.d, L), !.obj = SetAt(@, ev.o, [d |-> ev.d, kind |-> ev.kind, cat |-> ev.cat])],
             bad |-> IF ~same THEN B("assembled vector", x.cat)
                     ELSE IF ev.kind = "symSX" /\ ~fresh THEN B("symbols not distinct", x.cat) ELSE None]
(* nothing in it yet *)
StepBlank(h, ev) ==
    LET c == Blank(h.lay[ev.d], ev.kind) IN
    [h |-> [h EXCEPT !.obj = SetAt(@, ev.o, [d |-> ev.d, kind |-> ev.kind, cat |-> c])],
     bad |-> IF ev.out = "ok" /\ PathEq(ev.cat, Shown(c)) THEN None ELSE B("vector of an empty structure", Shown(c))]

(* ---- reads ---- *)
StepRead(h, ev) ==
    LET ob == h.obj[ev.o]
        x0 == Read(h.lay[ob.d], ob.cat, IxOf(ob, ev.ix))
        hole == Incomplete(ob.cat)
        x == IF ~hole THEN x0 ELSE IF x0.t \in {"mat", "exc"} THEN Exc ELSE Unsp
    IN [h |-> IF hole THEN h ELSE [h EXCEPT !.obj[ev.o].cat = ev.cat],
        bad |-> (IF Accepts(x, ev.out) THEN None
                 ELSE B(IF hole THEN "incomplete structure read" ELSE IF x.t = "exc" THEN "ill-formed read accepted" ELSE IF ev.out.t = "exc" THEN "read refused" ELSE "read", x))
             \o (IF PathEq(ev.cat, Shown(ob.cat)) THEN None ELSE B("read changed the container", Shown(ob.cat)))
             \o (IF ev.out.t \in {"mat", "list", "dict"} /\ ev.ty \notin {"none", MatType(ob.kind)} THEN B("type of result", MatType(ob.kind)) ELSE None)]

(* ---- writes ---- *)
WriteBad(x, ob, ev) ==
    IF x.s = "any" THEN None
    ELSE IF x.s = "exc" THEN
        (IF ev.out /= "exc" THEN B("ill-formed write accepted", Exc)
         ELSE IF x.n <= 1 /\ ~PathEq(ev.cat, Shown(ob.cat)) THEN B("refused write changed the container", ob.cat) ELSE None)
    ELSE IF ev.out = "exc" THEN B("write refused", x.cat)
    ELSE IF PathEq(ev.cat, Shown(x.cat)) THEN None ELSE B("write", Shown(x.cat))

StepWrite(h, ev) ==
    LET ob == h.obj[ev.o]
        L == h.lay[ob.d]
        w == Write(L, ob.cat, IxOf(ob, ev.ix), ev.pl, ModeOf(ob.kind))
        bad1 == WriteBad(w, ob, ev)
        (* while something is missing the contents cannot be seen *)
        after == IF ~PathEq(ev.cat, Refused) THEN ev.cat ELSE IF ev.out = "ok" THEN w.cat ELSE ob.cat
    IN [h |-> [h EXCEPT !.obj[ev.o].cat = after],
        bad |-> bad1]

(* assign back what was just read *)
StepBack(h, ev) ==
    LET ob == h.obj[ev.o]
        L == h.lay[ob.d]
        a == TLCEval(Address(L, IxOf(ob, ev.ix), "full"))
        v == TLCEval(Values(a, ob.cat))
        bad1 == IF IsErr(v) \/ Write(L, ob.cat, IxOf(ob, ev.ix), TLCEval(AsSparse(a, v)), "rel").s /= "ok" THEN None
               ELSE IF ev.out = "exc" THEN B("write-back refused", ob.cat)
               ELSE IF PathEq(ev.cat, ob.cat) THEN None ELSE B("write-back changed the container", ob.cat)
    IN [h |-> [h EXCEPT !.obj[ev.o].cat = ev.cat],
        bad |-> bad1]

(* ---- splitting a data matrix ---- *)
StepParse(h, ev) ==
    LET L == h.lay[ev.d]
        ks == Keys(L.decl)
        a == ev.arg
        column(j) == SubSeq(a.e, (j - 1) * a.r + 1, j * a.r)
        part(k) == HCat([j \in 1..a.c |-> Read(L, column(j), <<[k |-> "n", v |-> k]>>)])
        x == IF a.r /= L.size THEN (IF a.r = 1 \/ a.c = 0 THEN Unsp ELSE Exc)
             ELSE IF a.c = 0 THEN Unsp
             ELSE DictOf(ks, [i \in 1..Len(ks) |-> part(ks[i])])
    IN [h |-> h, bad |-> IF Accepts(x, ev.out) THEN None ELSE B("split matrix", x)]

(* ---- copies (pickle, file, deepcopy): same layout, same contents, then an object of its own ---- *)
StepCopy(h, ev) ==
    LET ob == h.obj[ev.src] IN
    IF ev.out = "exc" THEN [h |-> h, bad |-> B("save/load refused", Exc)]
    ELSE [h |-> [h EXCEPT !.obj = SetAt(@, ev.o, [d |-> ob.d, kind |-> ob.kind, cat |-> ev.cat])],
          bad |-> (IF PathEq(ev.cat, ob.cat) THEN None ELSE B("loaded values", ob.cat))]

(* saved images *)
StepDump(h, ev) ==
    [h |-> [h EXCEPT !.img = SetAt(@, ev.img, h.obj[ev.src])], bad |-> IF ev.out = "ok" THEN None ELSE B("save refused", Exc)]
StepLoad(h, ev) ==
    LET im == h.img[ev.img] IN
    IF ev.out = "exc" THEN [h |-> h, bad |-> B("load refused", im.cat)]
    ELSE [h |-> [h EXCEPT !.obj = SetAt(@, ev.o, [im EXCEPT !.cat = ev.cat])],
          bad |-> IF PathEq(ev.cat, im.cat) THEN None ELSE B("loaded values", im.cat)]

(* contents looked at from outside (also: unchanged by operations on other objects) *)
StepLook(h, ev) ==
    LET ob == h.obj[ev.o]
        n == h.lay[ob.d].size
    IN
    [h |-> IF Incomplete(ob.cat) THEN h ELSE [h EXCEPT !.obj[ev.o].cat = ev.cat],
     bad |-> (IF PathEq(ev.cat, Shown(ob.cat)) THEN None ELSE B("contents changed by an operation elsewhere", ob.cat))
          (* the container where a matrix is expected, and as argument of its own structure *)
          \o (IF Incomplete(ob.cat) \/ \A i \in 1..Len(ev.ways) : PathEq(ev.ways[i], ev.cat) THEN None ELSE B("container as a matrix", ev.cat))
          \o (IF ev.about = <<>> \/ ev.about = <<n, n, 1, n, n>> THEN None ELSE B("size of the container", n))]

(* a request that must be refused whatever the state *)
StepRefuse(h, ev) == [h |-> h, bad |-> IF ev.out = "exc" THEN None ELSE B("accepted: " \o ev.what, Exc)]

Step(h, ev) ==
    CASE ev.op = "decl" -> StepDecl(h, ev)
      [] ev.op = "ind" -> StepInd(h, ev)
      [] ev.op = "lookup" -> StepLookup(h, ev)
      [] ev.op = "conv" -> StepConv(h, ev)
      [] ev.op = "mk" -> StepMk(h, ev)
      [] ev.op = "view" -> StepView(h, ev)
      [] ev.op = "asm" -> StepAsm(h, ev)
      [] ev.op = "blank" -> StepBlank(h, ev)
      [] ev.op = "read" -> StepRead(h, ev)
      [] ev.op = "write" -> StepWrite(h, ev)
      [] ev.op = "back" -> StepBack(h, ev)
      [] ev.op = "parse" -> StepParse(h, ev)
      [] ev.op = "copy" -> StepCopy(h, ev)
      [] ev.op = "dump" -> StepDump(h, ev)
      [] ev.op = "load" -> StepLoad(h, ev)
      [] ev.op = "look" -> StepLook(h, ev)
      [] ev.op = "refuse" -> StepRefuse(h, ev)

Init == l = 1 /\ heap = Empty /\ bad = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET r == Step(heap, Trace[l])
       IN /\ heap' = r.h
          /\ bad' = Recorded(bad, l, r.bad)
    /\ l' = l + 1
    /\ (l = Len(Trace) \/ Len(bad') /= Len(bad)) => JsonSerialize(IOEnv.VERDICT, [n |-> l, bad |-> bad'])
Spec == Init /\ [][Next]_vars
=============================================================================
