------------------------------ MODULE IneqTrace ------------------------------
(* Validates recorded constructions and concatenations of inequalities against Ineq.
   heap: number -> inequality (or [none]) *)
EXTENDS Ineq, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap, bad
vars == <<l, heap, bad>>

B(c, exp) == <<[c |-> c, exp |-> exp]>>
None == <<>>
SetAt(s, i, v) == [j \in 1..Max2(Len(s), i) |-> IF j = i THEN v ELSE IF j <= Len(s) THEN s[j] ELSE [none |-> TRUE]]
Bad(c, exp, obs) == IF MatEq(exp, obs) THEN None ELSE B(c, exp)

(* observed inequality against the expected one *)
Compare(x, o) ==
    Bad("expression", x.expr, o.expr) \o Bad("lower bound", x.lb, o.lb) \o Bad("upper bound", x.ub, o.ub) \o Bad("nominal", x.nom, o.nom)
    \o (IF o.numel = Len(x.expr.e) THEN None ELSE B("element count", Len(x.expr.e)))
Adopt(o) == [expr |-> o.expr, lb |-> o.lb, ub |-> o.ub, nom |-> o.nom, keys |-> <<>>]

Settle(h, ev, fit, x, extra) ==
    IF ev.out = "exc" THEN [h |-> h, bad |-> IF fit = "ok" THEN B("refused", x) ELSE None]
    ELSE [h |-> SetAt(h, ev.o, Adopt(ev.res)),
          bad |-> IF fit = "exc" THEN B("ill-formed inequality accepted", [t |-> "exc"]) ELSE IF fit = "any" THEN None ELSE Compare(x, ev.res) \o extra]

StepMk(h, ev) ==
    LET fit == IF WellFormed(ev.expr, ev.lb, ev.ub, ev.nom) THEN "ok" ELSE "exc"
    IN Settle(h, ev, fit, IF fit = "ok" THEN MkIneq(ev.expr, ev.lb, ev.ub, ev.nom) ELSE None_, None)
(* bounded variable: the values in ev.expr are those the recorder gave to the symbol *)
StepVar(h, ev) ==
    LET nom == IF ev.nom.t = "none" THEN Mt(0, 1, <<>>) ELSE ev.nom
        fit == IF WellFormed(nom, ev.lb, ev.ub, nom) THEN "ok" ELSE "exc"
        x == MkIneq(IF ev.out = "ok" THEN Mt(nom.r, nom.c, ev.res.expr.e) ELSE nom, ev.lb, ev.ub, nom)
    IN Settle(h, ev, fit, IF fit = "ok" THEN x ELSE None_,
              (IF ev.name = ev.seen \/ Len(nom.e) = 0 THEN None ELSE B("name of the variable", ev.name)) \o (IF ev.symbolic THEN None ELSE B("not a pure symbol", ev.name)))
Known(h, p) == \A i \in 1..Len(p) : p[i] <= Len(h) /\ "none" \notin DOMAIN h[p[i]]
StepCat(h, ev) ==
    IF ~Known(h, ev.parts) THEN [h |-> h, bad |-> None]
    ELSE LET v == [i \in 1..Len(ev.parts) |-> h[ev.parts[i]]]
             fit == ListFits(v)
         IN Settle(h, ev, fit, IF fit = "ok" THEN CatList(v) ELSE None_, None)
StepCatd(h, ev) ==
    IF ~Known(h, ev.parts) THEN [h |-> h, bad |-> None]
    ELSE LET v == [i \in 1..Len(ev.parts) |-> h[ev.parts[i]]]
             fit == DictFits(v)
             x == CatDict(ev.names, v)
             under(i) == LET o == ev.under[i] IN
                         Bad("expression under its name", v[i].expr, o.expr) \o Bad("lower bound under its name", v[i].lb, o.lb)
                         \o Bad("upper bound under its name", v[i].ub, o.ub) \o Bad("nominal under its name", v[i].nom, o.nom)
         IN Settle(h, ev, fit, IF fit = "ok" THEN x ELSE None_, IF ev.out = "ok" THEN Cat(Len(v), LAMBDA i : under(i)) ELSE None)
(* an inequality is a value: looking again shows the same *)
StepLook(h, ev) == [h |-> h, bad |-> IF Known(h, <<ev.o>>) THEN Compare(h[ev.o], ev.res) ELSE None]

Step(h0, ev) ==
    LET h == IF ev.reset THEN <<>> ELSE h0 IN
    CASE ev.op = "mk" -> StepMk(h, ev)
      [] ev.op = "var" -> StepVar(h, ev)
      [] ev.op = "cat" -> StepCat(h, ev)
      [] ev.op = "catd" -> StepCatd(h, ev)
      [] ev.op = "look" -> StepLook(h, ev)

Init == l = 1 /\ heap = <<>> /\ bad = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET r == Step(heap, Trace[l])
       IN /\ heap' = r.h
          /\ bad' = Recorded(bad, l, r.bad)
    /\ l' = l + 1
    /\ (l = Len(Trace) \/ Len(bad') /= Len(bad)) => JsonSerialize(IOEnv.VERDICT, [n |-> l, bad |-> bad'])
Spec == Init /\ [][Next]_vars
=============================================================================
