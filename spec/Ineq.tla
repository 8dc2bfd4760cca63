-------------------------------- MODULE Ineq --------------------------------
(* Inequalities lb <= expr <= ub with optional nominal values, and their concatenation.

   Matrix       [t |-> "mat", r, c, e]  (e column by column; values are strings)   or [t |-> "none"]
   Inequality   [expr, lb, ub, nom |-> matrix, keys |-> Seq([k, at, m])]
                keys: the named parts (of a dictionary): name, first element, and part *)
EXTENDS Util

None_ == [t |-> "none"]
Mt(r, c, e) == [t |-> "mat", r |-> r, c |-> c, e |-> e]
Const(r, c, v) == Mt(r, c, [k \in 1..(r * c) |-> v])
Like(a, b) == a.r = b.r /\ a.c = b.c
MatEq(a, b) == a.t = b.t /\ (a.t = "mat" => (a.r = b.r /\ a.c = b.c /\ Len(a.e) = Len(b.e) /\ \A k \in 1..Len(a.e) : a.e[k] = b.e[k]))

Fits(expr, x) == x.t = "none" \/ Like(expr, x)
WellFormed(expr, lb, ub, nom) == Fits(expr, lb) /\ Fits(expr, ub) /\ Fits(expr, nom)
OrElse(x, d) == IF x.t = "none" THEN d ELSE x
MkIneq(expr, lb, ub, nom) ==
    [expr |-> expr, lb |-> OrElse(lb, Const(expr.r, expr.c, "-inf")), ub |-> OrElse(ub, Const(expr.r, expr.c, "inf")), nom |-> nom, keys |-> <<>>]

(* stacked rows *)
VStack(v) ==
    LET r == SumInts([i \in 1..Len(v) |-> v[i].r])
        c == v[1].c
    IN Mt(r, c, Cat(c, LAMBDA col : Cat(Len(v), LAMBDA i : SubSeq(v[i].e, (col - 1) * v[i].r + 1, col * v[i].r))))
(* all elements in one column, matrix after matrix *)
VecStack(v) == LET e == Cat(Len(v), LAMBDA i : v[i].e) IN Mt(Len(e), 1, e)

NoNominal(v) == \A i \in 1..Len(v) : v[i].nom.t = "none"
AllNominal(v) == \A i \in 1..Len(v) : v[i].nom.t /= "none"
Stack(v, S(_)) ==
    [expr |-> S([i \in 1..Len(v) |-> v[i].expr]), lb |-> S([i \in 1..Len(v) |-> v[i].lb]), ub |-> S([i \in 1..Len(v) |-> v[i].ub]),
     nom |-> IF NoNominal(v) THEN None_ ELSE S([i \in 1..Len(v) |-> v[i].nom])]
Rec(s, keys) == [expr |-> s.expr, lb |-> s.lb, ub |-> s.ub, nom |-> s.nom, keys |-> keys]

(* "ok", "exc" or "any" *)
ListFits(v) ==
    IF Len(v) = 0 THEN "any"
    ELSE IF ~NoNominal(v) /\ ~AllNominal(v) THEN "any"
    ELSE IF \A i \in 1..Len(v) : v[i].expr.c = v[1].expr.c THEN "ok"
    ELSE IF \E i \in 1..Len(v) : v[i].expr.r * v[i].expr.c = 0 THEN "any" ELSE "exc"
DictFits(v) == IF Len(v) = 0 \/ (~NoNominal(v) /\ ~AllNominal(v)) THEN "any" ELSE "ok"
CatList(v) == Rec(Stack(v, VStack), <<>>)
Start(v, i) == SumInts([j \in 1..(i - 1) |-> Len(v[j].expr.e)])
CatDict(names, v) == Rec(Stack(v, VecStack), [i \in 1..Len(v) |-> [k |-> names[i], at |-> Start(v, i), m |-> i]])
=============================================================================
