----------------------------- MODULE PolyModel -----------------------------
(* The numerical oracles on small rational data, where they can be compared with powers of t exactly.
   Scope "basis": all sequences of distinct nodes. Scope "pp": all bounds, with query points on, between and outside them.
   Scope "pdq": all bounds and orders, with equidistant points. *)
EXTENDS Quadrature, Json

CONSTANTS Scope, Size, Nodes, Queries

VARIABLES s, m, done
vars == <<s, m, done>>

Power(t, k) == RPow(t, k)
PowerSlope(t, k) == IF k = 0 THEN "0" ELSE RMul(k, RPow(t, k - 1))
SortRat(S) == FoldLeft(LAMBDA q, i : LET rest == S \ RangeOf(q) IN Append(q, CHOOSE x \in rest : \A y \in rest : RLe(x, y)), <<>>, [i \in 1..Cardinality(S) |-> i])

Init == s = <<>> /\ m = 0 /\ done = FALSE
Pick ==
    \/ /\ Scope = "basis" /\ Len(s) < Size
       /\ \E x \in Nodes \ RangeOf(s) : s' = Append(s, x)
       /\ UNCHANGED <<m, done>>
       /\ PrintT("CASE " \o ToJson([nodes |-> s']))
    \/ /\ Scope \in {"pp", "pdq"} /\ s = <<>> /\ ~done
       /\ \E S \in SUBSET Nodes : Cardinality(S) \in 2..Size /\ s' = SortRat(S)
       /\ m' \in (IF Scope = "pp" THEN 1..3 ELSE 1..4)
       /\ done' = TRUE
       /\ PrintT("CASE " \o ToJson([iv |-> s', m |-> m', queries |-> SortRat(Queries)]))
Spec == Init /\ [][Pick]_vars

(* ---- bases ---- *)
Exactly(a, b) == a = b
BasisLaw == (Scope = "basis" /\ s /= <<>>) =>
    LET n == Len(s)
        pol == [j \in 1..n |-> LagPoly(s, j)]
        a == [i \in 1..n |-> [j \in 1..n |-> At(Integral(pol[j]), s[i])]]
        b == [j \in 1..n |-> At(Integral(pol[j]), "1")]
        d == SlopeMatrix(s)
    IN /\ \A t \in Queries : LET r == LagRow(s, t) IN
            /\ \A k \in 0..(n - 1) : Exactly(Dot(r, [j \in 1..n |-> Power(s[j], k)]), Power(t, k))
            /\ \A j \in 1..n : At(pol[j], t) = r[j]
            /\ RowOK(s, t, r)
            /\ (n > 1 => ~RowOK(s, t, [r EXCEPT ![1] = RAdd(@, "1/100")]))
       /\ \A k \in 0..(n - 1) : \A j \in 1..n : Exactly(Dot(d[j], [i \in 1..n |-> Power(s[i], k)]), PowerSlope(s[j], k))
       /\ \A j \in 1..n : \A k \in 1..n : At(Derivative(pol[k]), s[j]) = d[j][k]
       /\ DifferentiationOK(s, d, "1")
       /\ TableauOK(s, a, b, s)
       /\ \A k \in 0..(n - 1) : MomentOK(s, b, "1", k, "0") /\ \A i \in 1..n : MomentOK(s, a[i], s[i], k, "0")
       /\ ~TableauOK(s, a, [b EXCEPT ![n] = RAdd(@, "1/100")], s)
       /\ ~TableauOK(s, [a EXCEPT ![1][n] = RAdd(@, "1/100")], b, s)
       /\ \A j \in 1..n : TakesValues(pol[j], s, [i \in 1..n |-> IF i = j THEN "1" ELSE "0"], "1")

(* the polynomials that define the points: orthogonal to all powers below their degree *)
Coefs(n) == FoldLeft(LAMBDA q, k : LET up == <<"0">> \o q[2]
                                       sub == q[1] \o [i \in 1..(Len(up) - Len(q[1])) |-> "0"]
                                   IN <<q[2], [i \in 1..Len(up) |-> RDiv(RSub(RMul(2 * k - 1, up[i]), RMul(k - 1, sub[i])), k)]>>, <<<<>>, <<"1">>>>, [k \in 1..n |-> k])[2]
IntSym(p) == RSub(At(Integral(p), "1"), At(Integral(p), "-1"))
OrthoLaw == (Scope = "basis" /\ s = <<>>) =>
    /\ \A n \in 1..9 : \A t \in Queries : At(Coefs(n), t) = LegendreAt(n, t)
    /\ \A n \in 1..9 : LegendreAt(n, "1") = "1" /\ \A k \in 0..(n - 1) : IntSym([i \in 1..k |-> "0"] \o Coefs(n)) = "0"
    (* Radau: orthogonal to (1 - y) times powers below degree n - 2 *)
    /\ \A n \in 2..9 : \A k \in 0..(n - 2) :
         LET p == [i \in 1..(n + 1) |-> RSub(Coefs(n)[i], IF i <= n THEN Coefs(n - 1)[i] ELSE "0")]
         IN IntSym([i \in 1..k |-> "0"] \o p) = "0"

(* ---- piecewise polynomials: pieces of one polynomial, t^k and 1 + t ---- *)
Equi(n) == [i \in 1..(n + 1) |-> RDiv(i - 1, n)]
Global(k) == [co |-> [i \in 1..(Len(s) - 1) |-> <<[j \in 1..(m + 1) |-> Power(RAdd(s[i], RMul(Equi(m)[j], RSub(s[i + 1], s[i]))), k)]>>]]
Fun(k) == [iv |-> s, s |-> Equi(m), co |-> Global(k).co, mag |-> Global(k).co]
Step01 == [iv |-> s, s |-> Equi(m), co |-> [i \in 1..(Len(s) - 1) |-> <<[j \in 1..(m + 1) |-> ToString(i)]>>], mag |-> [i \in 1..(Len(s) - 1) |-> <<[j \in 1..(m + 1) |-> "1"]>>]]
PiecewiseLaw == (Scope = "pp" /\ done) =>
    /\ \A side \in {"left", "right"} : \A t \in Queries :
         LET i == IntervalOf(s, t, side) IN
         /\ i \in 1..(Len(s) - 1)
         /\ RLt(t, s[1]) => i = 1
         /\ RLt(s[Len(s)], t) => i = Len(s) - 1
         /\ (RLe(s[1], t) /\ RLe(t, s[Len(s)])) =>
              /\ RLe(s[i], t) /\ RLe(t, s[i + 1])
              /\ (side = "right" /\ t = s[i + 1]) => i = Len(s) - 1
              /\ (side = "left" /\ t = s[i]) => i = 1
         /\ \A k \in 0..m : /\ Piece(Fun(k), i, t)[1].v = Power(t, k)
                            /\ Piece(DerivativeOf(Fun(k)), i, t)[1].v = PowerSlope(t, k)
         /\ Piece(Step01, i, t)[1].v = ToString(i)

(* ---- differential quadrature ---- *)
Q == [b |-> s, m |-> m, pts |-> <<s[1]>> \o Cat(Len(s) - 1, LAMBDA i : [k \in 1..m |-> RAdd(s[i], RMul(Equi(m)[k + 1], RSub(s[i + 1], s[i])))])]
QuadratureLaw == (Scope = "pdq" /\ done) =>
    /\ PdqPointsOK(s, Equi(m), Q.pts)
    /\ \A k \in 0..m :
         LET y == <<[i \in 1..NumPoints(Q) |-> Power(Q.pts[i], k)]>>
             d == <<[i \in 1..(NumPoints(Q) - 1) |-> PowerSlope(Q.pts[i], k)]>>
             yi == <<[i \in 1..(NumPoints(Q) - 1) |-> RSub(y[1][i + 1], y[1][1])]>>
         IN /\ DerivOK(Q, y, d)
            /\ IntegralOK(Q, d, yi)
            /\ ~IntegralOK(Q, d, [yi EXCEPT ![1][Len(yi[1])] = RAdd(@, "1/100")])
            /\ \A t \in Queries : InterpolateExpected(Q, "both", y, <<t>>)[1][1] = Power(t, k)
            /\ (k < m => \A c \in {"left", "right"} : \A t \in Queries :
                   InterpolateExpected(Q, c, IF c = "left" THEN <<Tail(y[1])>> ELSE <<SubSeq(y[1], 1, NumPoints(Q) - 1)>>, <<t>>)[1][1] = Power(t, k))
=============================================================================
