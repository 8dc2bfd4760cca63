-------------------------------- MODULE Num --------------------------------
(* Rational arithmetic on top of Rat, exact up to 640 bits and to 2^-255 beyond: sums, products, polynomials in the power basis (coefficients ascending),
   Lagrange polynomials, and comparison up to a tolerance. Numbers are texts such as "-3/4"; matrices are sequences of rows. *)
EXTENDS Util, Rat

(* Operators with a definition ...Def are computed by java/RatOverrides.java, which is faster; NumCheck compares the two. *)

E20 == "1/1048576"
E30 == "1/1073741824"
E40 == "1/1099511627776"

RNeg(a) == RSub("0", a)
RAbs(a) == IF RLe("0", a) THEN a ELSE RNeg(a)
RLt(a, b) == RLe(a, b) /\ ~RLe(b, a)
RMaxOf(a, b) == IF RLe(a, b) THEN b ELSE a
RSumDef(s) == FoldLeft(LAMBDA a, x : RRound(RAdd(a, x)), "0", s)
RSum(s) == RSumDef(s)
RProdDef(s) == FoldLeft(LAMBDA a, x : RRound(RMul(a, x)), "1", s)
RProd(s) == RProdDef(s)
RMax(s) == FoldLeft(LAMBDA a, x : RMaxOf(a, RAbs(x)), "0", s)
DotDef(a, b) == RSumDef([i \in 1..Len(a) |-> RMul(a[i], b[i])])
Dot(a, b) == DotDef(a, b)
DotAbsDef(a, b) == RSumDef([i \in 1..Len(a) |-> RAbs(RMul(a[i], b[i]))])
DotAbs(a, b) == DotAbsDef(a, b)
RPow(a, n) == RProd([i \in 1..n |-> a])
Near(a, b, tol) == RFinite(a) /\ RFinite(b) /\ RFinite(tol) /\ RLe(RAbs(RSub(a, b)), tol)
NearAll(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
AllFinite(s) == \A i \in 1..Len(s) : RFinite(s[i])

(* matrices *)
IsMat(m, r, c) == Len(m) = r /\ \A i \in 1..r : Len(m[i]) = c
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]

(* polynomials *)
AtDef(p, t) == FoldLeft(LAMBDA a, i : RRound(RAdd(RMul(a, t), p[Len(p) + 1 - i])), "0", [i \in 1..Len(p) |-> i])
At(p, t) == AtDef(p, t)
AtAbs(p, t) == FoldLeft(LAMBDA a, i : RAdd(RMul(a, RAbs(t)), RAbs(p[Len(p) + 1 - i])), "0", [i \in 1..Len(p) |-> i])
Scale(p, a) == TLCEval([i \in 1..Len(p) |-> RRound(RMul(a, p[i]))])
TimesLinear(p, a) ==      \* p(t) (t - a)
    TLCEval([i \in 1..(Len(p) + 1) |-> RRound(RSub(IF i > 1 THEN p[i - 1] ELSE "0", IF i <= Len(p) THEN RMul(a, p[i]) ELSE "0"))])
Integral(p) == <<"0">> \o TLCEval([i \in 1..Len(p) |-> RDiv(p[i], i)])
Derivative(p) == TLCEval([i \in 1..(Len(p) - 1) |-> RMul(p[i + 1], i)])

(* Lagrange polynomials of the nodes s *)
Others(s, j) == SelectSeq([r \in 1..Len(s) |-> r], LAMBDA r : r /= j)
Denom(s, j) == RProdDef([r \in 1..Len(s) |-> IF r = j THEN "1" ELSE RSub(s[j], s[r])])
Lag(s, j, t) == RRound(RDiv(RProdDef([r \in 1..Len(s) |-> IF r = j THEN "1" ELSE RSub(t, s[r])]), Denom(s, j)))
LagRowDef(s, t) == TLCEval([j \in 1..Len(s) |-> Lag(s, j, t)])
LagRow(s, t) == LagRowDef(s, t)
LagPolyDef(s, j) == Scale(FoldLeft(LAMBDA p, r : TimesLinear(p, s[r]), <<"1">>, Others(s, j)), RDiv("1", Denom(s, j)))
LagPoly(s, j) == LagPolyDef(s, j)
(* derivative of Lagrange polynomial k at node j *)
LagSlope(s, j, k) ==
    IF j = k THEN RSumDef([r \in 1..Len(s) |-> IF r = j THEN "0" ELSE RDiv("1", RSub(s[j], s[r]))])
    ELSE RRound(RDiv(Denom(s, j), RMul(Denom(s, k), RSub(s[j], s[k]))))
SlopeRowDef(s, j) == TLCEval([k \in 1..Len(s) |-> LagSlope(s, j, k)])
SlopeRow(s, j) == SlopeRowDef(s, j)
SlopeMatrix(s) == TLCEval([j \in 1..Len(s) |-> SlopeRow(s, j)])
(* how much larger than the values at the nodes things computed from them may get: at t, and in the power basis *)
SumAbs(v) == RSum([j \in 1..Len(v) |-> RAbs(v[j])])
Lebesgue(s, t) == SumAbs(LagRow(s, t))
PowerBoundDef(s, j, t) == RAbs(RRound(RDiv(RProdDef([r \in 1..Len(s) |-> IF r = j THEN "1" ELSE RAdd(RAbs(t), RAbs(s[r]))]), Denom(s, j))))

PowerBound(s, j, t) == PowerBoundDef(s, j, t)

(* values of orthogonal polynomials on [-1, 1] by their recurrences *)
LegendreAt(n, y) == FoldLeft(LAMBDA a, k : <<a[2], RDiv(RSub(RMul(RMul(2 * k - 1, y), a[2]), RMul(k - 1, a[1])), k)>>, <<"0", "1">>, [k \in 1..n |-> k])[2]
ChebUAt(n, y) == FoldLeft(LAMBDA a, k : <<a[2], RSub(RMul(RMul(2, y), a[2]), a[1])>>, <<"0", "1">>, [k \in 1..n |-> k])[2]
SignOf(a) == IF a = "0" THEN 0 ELSE IF RLe("0", a) THEN 1 ELSE -1
(* Is there a root of f within d of y? *)
RootNear(f(_), y, d) == SignOf(f(y)) = 0 \/ SignOf(f(RSub(y, d))) * SignOf(f(RAdd(y, d))) < 0
=============================================================================
