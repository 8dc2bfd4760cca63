----------------------------- MODULE Quadrature -----------------------------
(* Differential quadrature over several intervals.
   [b |-> bounds, m |-> order, pts |-> collocation points, last point of an interval = first of the next one] *)
EXTENDS Piecewise

NumPoints(q) == (Len(q.b) - 1) * q.m + 1
(* points of interval i *)
Group(q, i) == SubSeq(q.pts, (i - 1) * q.m + 1, i * q.m + 1)
(* the points are those of the scheme (on [0, 1]) stretched to every interval *)
PdqPointsOK(b, sp, pts) ==
    LET m == Len(sp) - 1 IN
    /\ Len(pts) = (Len(b) - 1) * m + 1
    /\ \A i \in 1..(Len(b) - 1) : \A k \in 1..(m + 1) :
         LET exact == RAdd(b[i], RMul(sp[k], RSub(b[i + 1], b[i])))
         IN Near(pts[(i - 1) * m + k], exact, RMul(E40, RAdd("1", RMax(b))))

(* derivative at every point but the last, from the right at shared points *)
DerivOK(q, y, d) ==
    /\ IsMat(d, Len(y), NumPoints(q) - 1)
    /\ \A i \in 1..(Len(q.b) - 1) :
         LET g == Group(q, i)
             (* the points are rounded: what that is in units of the interval *)
             shift == RAdd("16", RDiv(RMax(q.b), RSub(q.b[i + 1], q.b[i])))
         IN
         \A k \in 1..q.m :
           LET row == SlopeRow(g, k) IN
           \A r \in 1..Len(y) :
             LET v == SubSeq(y[r], (i - 1) * q.m + 1, i * q.m + 1)
             IN Near(d[r][(i - 1) * q.m + k], Dot(row, v), RMul(RMul(E40, shift), RMul(SumAbs(row), RMax(v))))

(* integral from the first point, at every point but the first: of the function that on each interval is the polynomial through
   the given values at its points except the right end *)
(* weights for the integral from the left end of interval i to its point k *)
IntWeights(q, i) ==
    LET h == RSub(q.b[i + 1], q.b[i])
        loc == TLCEval([k \in 1..(q.m + 1) |-> RDiv(RSub(Group(q, i)[k], q.b[i]), h)])
        nodes == SubSeq(loc, 1, q.m)
        p == TLCEval([j \in 1..q.m |-> Integral(LagPoly(nodes, j))])
    IN TLCEval([k \in 1..q.m |-> [j \in 1..q.m |-> RMul(h, RSub(At(p[j], loc[k + 1]), At(p[j], loc[1])))]])
IntegralOK(q, dy, y) ==
    /\ IsMat(y, Len(dy), NumPoints(q) - 1)
    /\ LET w == TLCEval([i \in 1..(Len(q.b) - 1) |-> IntWeights(q, i)]) IN
       \A r \in 1..Len(dy) :
         LET step(i, k) == Dot(w[i][k], SubSeq(dy[r], (i - 1) * q.m + 1, i * q.m))
             size(i) == RMul(RMax([k \in 1..q.m |-> SumAbs(w[i][k])]), RMax(SubSeq(dy[r], (i - 1) * q.m + 1, i * q.m)))
             start == FoldLeft(LAMBDA a, i : Append(a, RAdd(a[i], step(i, q.m))), <<"0">>, [i \in 1..(Len(q.b) - 1) |-> i])
             tol == RMul(E30, RSum([i \in 1..(Len(q.b) - 1) |-> size(i)]))
         IN \A i \in 1..(Len(q.b) - 1) : \A k \in 1..q.m : Near(y[r][(i - 1) * q.m + k], RAdd(start[i], step(i, k)), tol)

ExpandOK(q, u, v) == v = [r \in 1..Len(u) |-> [k \in 1..(NumPoints(q) - 1) |-> u[r][Div(k - 1, q.m) + 1]]]

(* interpolation of values at the points *)
Continuities == {"both", "left", "right"}
ColumnsFor(q, cont) == IF cont = "both" THEN NumPoints(q) ELSE NumPoints(q) - 1
NodesFor(q, cont, i) == IF cont = "both" THEN Group(q, i) ELSE IF cont = "right" THEN SubSeq(Group(q, i), 1, q.m) ELSE SubSeq(Group(q, i), 2, q.m + 1)
ValsFor(q, cont, i, v) == IF cont = "both" THEN SubSeq(v, (i - 1) * q.m + 1, i * q.m + 1) ELSE SubSeq(v, (i - 1) * q.m + 1, i * q.m)
InterpolateOK(q, cont, x, ts, vals) ==
    /\ IsMat(vals, Len(x), Len(ts))
    /\ \A k \in 1..Len(ts) :
         LET i == IntervalOf(q.b, ts[k], IF cont = "left" THEN "left" ELSE "right")
             l == LagRow(NodesFor(q, cont, i), ts[k])
             lam == RAdd("1", SumAbs(l))
         IN \A r \in 1..Len(x) :
              LET v == ValsFor(q, cont, i, x[r])
              IN Near(vals[r][k], Dot(l, v), RMul(E30, RMul(RMul(lam, lam), RMax(v))))
InterpolateExpected(q, cont, x, ts) ==
    [r \in 1..Len(x) |-> [k \in 1..Len(ts) |->
        LET i == IntervalOf(q.b, ts[k], IF cont = "left" THEN "left" ELSE "right")
        IN Dot(LagRow(NodesFor(q, cont, i), ts[k]), ValsFor(q, cont, i, x[r]))]]
=============================================================================
