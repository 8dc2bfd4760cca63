------------------------------ MODULE DaeTrace ------------------------------
(* Validates recorded constructions, conversions and evaluations of models against Dae. *)
EXTENDS Dae, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap, bad
vars == <<l, heap, bad>>

B(c, exp) == <<[c |-> c, exp |-> exp]>>
None == <<>>
SetAt(s, i, v) == [j \in 1..Max2(Len(s), i) |-> IF j = i THEN v ELSE IF j <= Len(s) THEN s[j] ELSE [none |-> TRUE]]
Has(h, i) == i <= Len(h) /\ "none" \notin DOMAIN h[i]

(* construction with arguments of any shape *)
StepArgs(h, ev) ==
    LET ok == Accepted(ev.kind, ev.arg)
        n == ReportedSizes(ev.arg)
    IN [h |-> h,
        bad |-> IF Open(ev.kind, ev.arg) THEN None
                ELSE IF ~ok THEN (IF ev.out = "exc" THEN None ELSE B("ill-formed model accepted", [t |-> "exc"]))
                ELSE IF ev.out = "exc" THEN B("model refused", n)
                ELSE (IF \A f \in DOMAIN n : ev.sizes[f] = n[f] THEN None ELSE B("sizes", n))
                  \o (IF \A i \in 1..Len(ev.kept) : ev.kept[i].same THEN None ELSE B("parts not kept", SelectSeq(ev.kept, LAMBDA k : ~k.same)))
                  \o (IF ev.tscalar THEN None ELSE B("time is not a symbolic scalar", 1))]

SizesOf(m) == [nx |-> m.n["x"], nz |-> m.n["z"], nu |-> m.n["u"], np |-> m.n["p"], ntdp |-> m.n["tdp"], nq |-> Len(m.quad)]
Settle(h, ev, m) ==
    IF ev.out = "exc" THEN [h |-> h, bad |-> B("refused", SizesOf(m))]
    ELSE [h |-> SetAt(h, ev.o, m), bad |-> IF \A f \in DOMAIN SizesOf(m) : ev.sizes[f] = SizesOf(m)[f] THEN None ELSE B("sizes", SizesOf(m))]
StepModel(h, ev) == Settle(h, ev, [a |-> {ev.o}] @@ ev.m)
StepImplicit(h, ev) == IF Has(h, ev.src) THEN
                          LET r == Settle(h, ev, Implicit(h[ev.src])) IN
                          [r EXCEPT !.bad = @ \o (IF ev.out = "ok" /\ h[ev.src].kind = "impl" /\ ~ev.same THEN B("implicit model not converted to itself", 1) ELSE None)]
                       ELSE [h |-> h, bad |-> None]
StepParallel(h, ev) ==
    IF \A i \in 1..Len(ev.src) : Has(h, ev.src[i]) THEN
        LET ms == [i \in 1..Len(ev.src) |-> h[ev.src[i]]] IN
        IF AllConnectable(ms) THEN Settle(h, ev, Parallel(ms)) ELSE [h |-> h, bad |-> None]
    ELSE [h |-> h, bad |-> None]

(* a function with named inputs and outputs, evaluated at a point *)
StepFun(h, ev) ==
    IF ~Has(h, ev.src) THEN [h |-> h, bad |-> None]
    ELSE LET m == h[ev.src]
             names == RangeOf(ev.ins) \cup RangeOf(ev.outs)
             valid == names \subseteq Names(m.kind)
             needs == UNION {Needs(m, ev.outs[i]) : i \in 1..Len(ev.outs)}
             closed == needs \subseteq RangeOf(ev.ins) /\ RangeOf(ev.ins) \subseteq Inputs
             exp == [i \in 1..Len(ev.outs) |-> ValueOf(m, ev.outs[i], ev.pt)]
             shp == [i \in 1..Len(ev.outs) |-> ShapeOf(m, ev.outs[i])]
             one(i) == /\ Len(ev.vals[i]) = Len(exp[i]) /\ \A k \in 1..Len(exp[i]) : ev.vals[i][k] = ToString(exp[i][k])
                       /\ (ev.shapes[i] = shp[i] \/ Len(exp[i]) = 0)
         IN [h |-> h,
             bad |-> IF ~valid THEN (IF ev.out = "exc" THEN None ELSE B("function of a quantity the model does not have", [t |-> "exc"]))
                     ELSE IF ~closed THEN None
                     ELSE IF ev.out = "exc" THEN B("function refused", exp)
                     ELSE (IF ev.inames = ev.ins /\ ev.onames = ev.outs THEN None ELSE B("names of inputs and outputs", <<ev.ins, ev.outs>>))
                       \o (IF \A i \in 1..Len(ev.outs) : one(i) THEN None ELSE B("function value", exp))]

Step(h0, ev) ==
    LET h == IF ev.reset THEN <<>> ELSE h0 IN
    CASE ev.op = "args" -> StepArgs(h, ev)
      [] ev.op = "model" -> StepModel(h, ev)
      [] ev.op = "implicit" -> StepImplicit(h, ev)
      [] ev.op = "parallel" -> StepParallel(h, ev)
      [] ev.op = "fun" -> StepFun(h, ev)

Init == l = 1 /\ heap = <<>> /\ bad = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET r == Step(heap, Trace[l])
       IN /\ heap' = r.h
          /\ bad' = Recorded(bad, l, r.bad)
    /\ l' = l + 1
    /\ (l = Len(Trace) \/ Len(bad') /= Len(bad)) => JsonSerialize(IOEnv.VERDICT, [n |-> l, bad |-> bad'])
Spec == Init /\ [][Next]_vars
=============================================================================
