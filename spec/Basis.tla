------------------------------- MODULE Basis -------------------------------
(* Polynomial bases, collocation points and Butcher tableaus: what their matrices must be. *)
EXTENDS Num

Distinct(s) == \A i, j \in 1..Len(s) : i /= j => s[i] /= s[j]
NodeAt(s, t) == {j \in 1..Len(s) : s[j] = t}

(* one row of an interpolation matrix, at query point t *)
RowOK(s, t, row) ==
    /\ Len(row) = Len(s)
    /\ IF NodeAt(s, t) /= {} THEN \A j \in 1..Len(s) : row[j] = (IF s[j] = t THEN "1" ELSE "0")
       ELSE LET exact == LagRow(s, t)
                lam == RAdd("1", SumAbs(exact))
                tol == RMul(E40, RMul(lam, lam))
            IN \A j \in 1..Len(s) : Near(row[j], exact[j], tol)
InterpolationOK(s, ts, m) == Len(m) = Len(ts) /\ \A i \in 1..Len(ts) : RowOK(s, ts[i], m[i])

(* differentiation matrix, scale = length of the interval the nodes were stretched to *)
DifferentiationOK(s, d, scale) ==
    /\ IsMat(d, Len(s), Len(s))
    /\ \A j \in 1..Len(s) :
         LET exact == Scale(SlopeRow(s, j), RDiv("1", scale))
             tol == RMul(E40, SumAbs(exact))
         IN \A k \in 1..Len(s) : Near(d[j][k], exact[k], IF j = k THEN tol ELSE RMul(E30, RAbs(exact[k])))

(* a polynomial in the power basis takes the values v at the nodes; stretch = length of the interval of which it is a function of the offset *)
TakesValues(p, s, v, stretch) ==
    /\ Len(p) <= Len(s) /\ AllFinite(p)
    /\ \A i \in 1..Len(s) :
         LET tol == RMul(E40, RSum([j \in 1..Len(s) |-> RMul(RAbs(v[j]), PowerBound(s, j, s[i]))]))
         IN Near(At(p, RMul(s[i], stretch)), v[i], tol)

(* values at ts of the polynomials with node values u (one per row) *)
ValuesOK(s, u, ts, vals) ==
    /\ IsMat(vals, Len(u), Len(ts))
    /\ \A k \in 1..Len(ts) :
         LET l == LagRow(s, ts[k])
             lam == RAdd("1", SumAbs(l))
         IN \A i \in 1..Len(u) : Near(vals[i][k], Dot(l, u[i]), RMul(E40, RMul(RMul(lam, lam), RMax(u[i]))))
(* the same when they are computed from powers of the nodes: the tolerance is what the solution of a system of equations
   with the matrix of powers may lose *)
PowerValuesOK(s, u, ts, vals) ==
    LET n == Len(s)
        worst == RMax([j \in 1..n |-> PowerBound(s, j, RMax(s))])
    IN /\ IsMat(vals, Len(u), Len(ts))
       /\ \A k \in 1..Len(ts) :
            LET l == LagRow(s, ts[k])
                own == RMax([j \in 1..n |-> PowerBound(s, j, ts[k])])
                tol == RMul(RMul(E30, n), RAdd("1", RAdd(own, RMul(worst, SumAbs(l)))))
            IN \A i \in 1..Len(u) : Near(vals[i][k], Dot(l, u[i]), RMul(tol, RMax(u[i])))

(* ---- collocation points ---- *)
YOf(t) == RSub(RMul("2", t), "1")
RootOf(scheme, n, t) ==
    IF scheme = "legendre" THEN RootNear(LAMBDA y : LegendreAt(n, y), YOf(t), E40)
    ELSE IF scheme = "radau" THEN Near(t, "1", E40) \/ RootNear(LAMBDA y : RSub(LegendreAt(n, y), LegendreAt(n - 1, y)), YOf(t), E40)
    ELSE Near(t, "1", E40) \/ RootNear(LAMBDA y : ChebUAt(n - 1, y), YOf(t), E40)
PointsOK(scheme, n, p) ==
    /\ Len(p) = n + 1 /\ AllFinite(p)
    /\ p[1] = "0"
    /\ \A i \in 1..n : RLt(RAdd(p[i], RMul("4", E40)), p[i + 1])
    /\ RLe(p[n + 1], RAdd("1", E40))
    /\ (n > 0 /\ scheme /= "legendre" => Near(p[n + 1], "1", E40))
    /\ \A i \in 2..(n + 1) : RootOf(scheme, n, p[i])

(* ---- Butcher tableaus ---- *)
(* sum_j w_j c_j^k = x^(k+1) / (k+1) *)
MomentOK(c, w, x, k, tol) == Near(RSum([j \in 1..Len(c) |-> RMul(w[j], RPow(c[j], k))]), RDiv(RPow(x, k + 1), k + 1), tol)
MomentTol(c, x, k) == RMul(E40, RAdd(RPow(RMaxOf(RAbs(x), RMax(c)), k + 1), RSum([j \in 1..Len(c) |-> RMul(RMul(RAbs(x), PowerBound(c, j, x)), RPow(RAbs(c[j]), k))])))
TableauOK(tau, a, b, c) ==
    /\ c = tau
    /\ IsMat(a, Len(tau), Len(tau)) /\ Len(b) = Len(tau)
    /\ \A k \in 0..(Len(tau) - 1) :
         /\ MomentOK(tau, b, "1", k, MomentTol(tau, "1", k))
         /\ \A i \in 1..Len(tau) : MomentOK(tau, a[i], tau[i], k, MomentTol(tau, tau[i], k))
(* degree to which the weights of the named methods are exact *)
WeightDegree(scheme, n) == IF scheme = "legendre" THEN 2 * n - 1 ELSE IF scheme = "radau" THEN 2 * n - 2 ELSE n - 1
WeightsOK(scheme, n, c, b) == \A k \in 0..WeightDegree(scheme, n) : MomentOK(c, b, "1", k, E30)
(* shapes are sequences of extents *)
ShapesOK(sa, sb, sc) == Len(sa) = 2 /\ sa[1] = sa[2] /\ sb = <<sa[1]>> /\ sc = <<sa[1]>>
=============================================================================
