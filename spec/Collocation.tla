---------------------------- MODULE Collocation ----------------------------
(* The collocation equations of a model on several intervals, by their definition.

   Scheme  [m |-> Model, t |-> bounds, n |-> points per interval, c |-> points on (0, 1], a, b |-> integrals of their Lagrange polynomials
            from 0 to each point and to 1, rep |-> a parameter copy per point, tdp |-> Seq(Polynomial in t)]
   Values  [x (per bound), K, Z (per point), u (per interval), p (once or per point)], matrices of rationals as sequences of rows *)
EXTENDS Basis, Dae

RatValue(poly, pt) == RSum([i \in 1..Len(poly) |-> RMul(poly[i].c, RProd([j \in 1..Len(poly[i].v) |-> pt[poly[i].v[j].p][poly[i].v[j].i + 1]]))])
RatSize(poly, pt) == RSum([i \in 1..Len(poly) |-> RAbs(RMul(poly[i].c, RProd([j \in 1..Len(poly[i].v) |-> RAdd("1", RAbs(pt[poly[i].v[j].p][poly[i].v[j].i + 1]))])))])
RatValues(ps, pt) == TLCEval([i \in 1..Len(ps) |-> RatValue(ps[i], pt)])

MakeScheme(m, t, c, rep, tdp) ==
    LET n == Len(c)
        w == TLCEval([j \in 1..n |-> Integral(LagPoly(c, j))])
    IN [m |-> Implicit(m), t |-> t, n |-> n, c |-> c, rep |-> rep, tdp |-> tdp, w |-> w,
        a |-> TLCEval([i \in 1..n |-> [j \in 1..n |-> At(w[j], c[i])]]),
        b |-> TLCEval([j \in 1..n |-> At(w[j], "1")])]

NumBounds(s) == Len(s.t)
NumInt(s) == Len(s.t) - 1
Length(s, k) == RSub(s.t[k + 1], s.t[k])
Points(s) == NumInt(s) * s.n
IntOf(s, g) == Div(g - 1, s.n) + 1        \* interval of point g
InInt(s, g) == Mod(g - 1, s.n) + 1        \* its number there
TimeOf(s, g) == RAdd(s.t[IntOf(s, g)], RMul(Length(s, IntOf(s, g)), s.c[InInt(s, g)]))
Times(s) == [g \in 1..Points(s) |-> TimeOf(s, g)]
TdpOf(s, g) == RatValues(s.tdp, [t |-> <<TimeOf(s, g)>>])

(* slopes of one row on interval k *)
Slopes(s, row, k) == SubSeq(row, (k - 1) * s.n + 1, k * s.n)
StateAt(s, v, g) == [r \in 1..s.m.n["x"] |-> RAdd(v.x[r][IntOf(s, g)], RMul(Length(s, IntOf(s, g)), Dot(s.a[InInt(s, g)], Slopes(s, v.K[r], IntOf(s, g)))))]
EndState(s, v, k) == [r \in 1..s.m.n["x"] |-> RAdd(v.x[r][k], RMul(Length(s, k), Dot(s.b, Slopes(s, v.K[r], k))))]
States(s, v) == TLCEval([r \in 1..s.m.n["x"] |-> [g \in 1..Points(s) |-> StateAt(s, v, g)[r]]])
PointAt(s, v, g) == TLCEval(
    [xdot |-> Col(v.K, g), x |-> StateAt(s, v, g), z |-> Col(v.Z, g), u |-> Col(v.u, IntOf(s, g)),
     p |-> Col(v.p, IF s.rep THEN g ELSE 1), t |-> <<TimeOf(s, g)>>, tdp |-> TdpOf(s, g)])
AllPoints(s, v) == TLCEval([g \in 1..Points(s) |-> PointAt(s, v, g)])

(* the three groups of equations, each as a matrix; pts = AllPoints(s, v) *)
ModelEqs(s, pts) == [r \in 1..Len(s.m.dae) |-> [g \in 1..Points(s) |-> RatValue(s.m.dae[r], pts[g])]]
ModelSizes(s, pts) == [r \in 1..Len(s.m.dae) |-> [g \in 1..Points(s) |-> RatSize(s.m.dae[r], pts[g])]]
Mismatch(s, v) == LET e == TLCEval([k \in 1..NumInt(s) |-> EndState(s, v, k)])
                  IN [r \in 1..s.m.n["x"] |-> [k \in 1..NumInt(s) |-> RSub(e[k][r], v.x[r][k + 1])]]
CopyDiffs(s, v) == [r \in 1..s.m.n["p"] |-> [g \in 1..(IF s.rep THEN Points(s) - 1 ELSE 0) |-> RSub(v.p[r][g + 1], v.p[r][g])]]

(* quadratures *)
Integrand(s, pts) == TLCEval([r \in 1..Len(s.m.quad) |-> [g \in 1..Points(s) |-> RatValue(s.m.quad[r], pts[g])]])
QuadEnds(s, f) == TLCEval([r \in 1..Len(f) |-> FoldLeft(LAMBDA q, k : Append(q, RAdd(q[k], RMul(Length(s, k), Dot(s.b, Slopes(s, f[r], k))))), <<"0">>, [k \in 1..NumInt(s) |-> k])])
QuadPoints(s, f) == LET q == QuadEnds(s, f)
                    IN [r \in 1..Len(f) |-> [g \in 1..Points(s) |-> RAdd(q[r][IntOf(s, g)], RMul(Length(s, IntOf(s, g)), Dot(s.a[InInt(s, g)], Slopes(s, f[r], IntOf(s, g)))))]]

(* the states of a row are sums of terms of this size *)
StateSize(s, v, r) == RAdd(RMax(v.x[r]), RMul(RSub(s.t[NumBounds(s)], s.t[1]), RMax(v.K[r])))

(* the points with every state replaced by that size: what is computed from the states is a sum of terms of the size it has there *)
LargePoints(s, v, pts) == TLCEval(LET big == TLCEval([r \in 1..s.m.n["x"] |-> StateSize(s, v, r)]) IN [g \in 1..Points(s) |-> [pts[g] EXCEPT !.x = big]])
QuadSizes(s, lp) == TLCEval([r \in 1..Len(s.m.quad) |-> [g \in 1..Points(s) |-> RatSize(s.m.quad[r], lp[g])]])
QuadSize(s, qs, r) == RMul(RMax(qs[r]), RAdd("1", RSub(s.t[NumBounds(s)], s.t[1])))

(* the trajectory: on each interval, start state plus the integral of the polynomial through the slopes *)
TrajectoryAt(s, v, t, side) ==
    LET cnt == Cardinality({i \in 1..NumBounds(s) : IF side = "right" THEN RLe(s.t[i], t) ELSE RLt(s.t[i], t)})
        k == Max2(1, Min2(cnt, NumInt(s)))
        y == RDiv(RSub(t, s.t[k]), Length(s, k))
        w == TLCEval([j \in 1..s.n |-> At(s.w[j], y)])
    IN [r \in 1..s.m.n["x"] |-> [v |-> RAdd(v.x[r][k], RMul(Length(s, k), Dot(w, Slopes(s, v.K[r], k)))),
                                 tol |-> RAdd(StateSize(s, v, r), RMul(Length(s, k), RMul(RAdd("1", RAbs(y)), RMul(SumAbs(w), RMax(v.K[r])))))]]

(* comparison of matrices, the tolerance relative to a size *)
MatNear(m, e, size(_, _), eps) ==
    /\ Len(m) = Len(e)
    /\ \A r \in 1..Len(e) : Len(m[r]) = Len(e[r]) /\ \A k \in 1..Len(e[r]) : Near(m[r][k], e[r][k], RMul(eps, RAdd("1", size(r, k))))
MatWithin(m, e, tol(_, _)) ==
    /\ Len(m) = Len(e)
    /\ \A r \in 1..Len(e) : Len(m[r]) = Len(e[r]) /\ \A k \in 1..Len(e[r]) : Near(m[r][k], e[r][k], tol(r, k))
VecOf(m) == IF Len(m) = 0 THEN <<>> ELSE Cat(Len(m[1]), LAMBDA k : Col(m, k))
ValueSize(v) == RAdd(RMax([r \in 1..Len(v.x) |-> RMax(v.x[r])]), RMax([r \in 1..Len(v.K) |-> RMax(v.K[r])]))
=============================================================================
