----------------------------- MODULE Piecewise -----------------------------
(* Piecewise polynomial functions.
   [iv |-> bounds, s |-> nodes on [0, 1], co |-> Seq(coefficient matrix), mag |-> bounds of their size] *)
EXTENDS Basis

NumIntervals(f) == Len(f.iv) - 1
Width(f, i) == RSub(f.iv[i + 1], f.iv[i])
(* the interval that t belongs to *)
IntervalOf(iv, t, side) ==
    LET k == Cardinality({i \in 1..Len(iv) : IF side = "right" THEN RLe(iv[i], t) ELSE RLt(iv[i], t)})
    IN Max2(1, Min2(k, Len(iv) - 1))
Local(f, i, t) == RDiv(RSub(t, f.iv[i]), Width(f, i))
(* values and tolerances of the polynomials of interval i at t *)
Piece(f, i, t) ==
    LET l == LagRow(f.s, Local(f, i, t))
        lam == RAdd("1", SumAbs(l))
    IN [r \in 1..Len(f.co[i]) |-> [v |-> Dot(l, f.co[i][r]), tol |-> RMul(RMul(E30, Len(l) * Len(l)), RMul(lam, RMax(f.mag[i][r])))]]
PieceOK(f, i, t, col) == LET e == Piece(f, i, t) IN Len(col) = Len(e) /\ \A r \in 1..Len(e) : Near(col[r], e[r].v, e[r].tol)
CallOK(f, ts, side, vals) ==
    /\ IsMat(vals, Len(f.co[1]), Len(ts))
    /\ \A k \in 1..Len(ts) : PieceOK(f, IntervalOf(f.iv, ts[k], side), ts[k], Col(vals, k))
CallExpected(f, ts, side) == [k \in 1..Len(ts) |-> [r \in 1..Len(f.co[1]) |-> Piece(f, IntervalOf(f.iv, ts[k], side), ts[k])[r].v]]

DerivativeOf(f) ==
    LET d == SlopeMatrix(f.s)
        n == Len(f.s)
        der(i, m, abs) == [r \in 1..Len(m) |-> [j \in 1..n |-> RDiv(IF abs THEN DotAbs(d[j], m[r]) ELSE Dot(d[j], m[r]), Width(f, i))]]
    IN [f EXCEPT !.co = TLCEval([i \in 1..NumIntervals(f) |-> der(i, f.co[i], FALSE)]), !.mag = TLCEval([i \in 1..NumIntervals(f) |-> der(i, f.mag[i], TRUE)])]

(* polynomials of the offset from the left end of interval i *)
PolysOK(f, i, ps) ==
    /\ Len(ps) = Len(f.co[i])
    /\ \A r \in 1..Len(ps) :
         /\ Len(ps[r]) <= Len(f.s) /\ AllFinite(ps[r])
         /\ \A k \in 1..Len(f.s) :
              LET tol == RMul(E30, RSum([j \in 1..Len(f.s) |-> RMul(RAbs(f.mag[i][r][j]), PowerBound(f.s, j, f.s[k]))]))
              IN Near(At(ps[r], RMul(f.s[k], Width(f, i))), f.co[i][r][k], tol)

(* ---- samples for plotting ---- *)
Close(f, a, b) == Near(a, b, RMul(E40, RAdd("1", RMax(f.iv))))
(* the samples from a to b are those of interval i *)
RunOK(f, i, x, y, a, b, step) ==
    /\ a < b
    /\ Close(f, x[a], f.iv[i]) /\ Close(f, x[b], f.iv[i + 1])
    /\ \A k \in a..(b - 1) : RLe(x[k], x[k + 1]) /\ RLe(RSub(x[k + 1], x[k]), RAdd(step, RMul(E40, RAdd("1", RMax(f.iv)))))
    /\ \A k \in a..b : PieceOK(f, i, x[k], Col(y, k))
Cuts(f, x, i) == {k \in 1..(Len(x) - 1) : Close(f, x[k], f.iv[i + 1]) /\ Close(f, x[k + 1], f.iv[i + 1])}
(* where the samples of interval i may end, given where those of the one before may have ended *)
Ends(f, i, x, y, before, step) ==
    {b \in (IF i = NumIntervals(f) THEN {Len(x)} ELSE Cuts(f, x, i)) : \E a \in before : RunOK(f, i, x, y, a + 1, b, step)}
SampleOK(f, step, x, y) ==
    LET n == NumIntervals(f)
    IN /\ Len(x) >= 2 * n /\ AllFinite(x)
       /\ IsMat(y, Len(f.co[1]), Len(x))
       /\ FoldLeft(LAMBDA before, i : TLCEval(Ends(f, i, x, y, before, step)), {0}, [i \in 1..n |-> i]) /= {}
=============================================================================
