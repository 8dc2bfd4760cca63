----------------------------- MODULE PolyTrace -----------------------------
(* Validates recorded calls on polynomial bases, tableaus, piecewise polynomials and differential quadrature. *)
EXTENDS Quadrature, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap, bad
vars == <<l, heap, bad>>

B(c, exp) == <<[c |-> c, exp |-> exp]>>
None == <<>>
If(ok, c, exp) == IF ok THEN None ELSE B(c, exp)
SetAt(s, i, v) == [j \in 1..Max2(Len(s), i) |-> IF j = i THEN v ELSE IF j <= Len(s) THEN s[j] ELSE [k |-> "none"]]
Is(h, i, k) == i <= Len(h) /\ h[i].k = k
Keep(h, b) == [h |-> h, bad |-> b]
Same(ev) == If(ev.same, "a call changed its arguments", 1)
Fine(ev, b) == IF ev.out = "exc" THEN B("refused", 1) ELSE b \o Same(ev)

(* ---- bases ---- *)
BasisOK(s, ev) ==
    If(ev.tau = s, "nodes of the basis", s)
    \o If(ev.n = Len(s) /\ ev.order = Len(s) - 1, "number of points, order", Len(s))
    \o If(DifferentiationOK(s, ev.d, "1"), "differentiation matrix", SlopeMatrix(s))
    \o If(Len(ev.polys) = Len(s) /\ \A j \in 1..Len(s) : TakesValues(ev.polys[j], s, [i \in 1..Len(s) |-> IF i = j THEN "1" ELSE "0"], "1"), "basis polynomials", s)
StepBasis(h, ev) ==
    IF ev.out = "exc" THEN Keep(h, B("refused", ev.nodes))
    ELSE [h |-> SetAt(h, ev.o, [k |-> "basis", s |-> ev.nodes]), bad |-> BasisOK(ev.nodes, ev) \o Same(ev)]
StepLook(h, ev) == IF Is(h, ev.o, "basis") THEN Keep(h, BasisOK(h[ev.o].s, ev)) ELSE Keep(h, None)
StepInterp(h, ev) ==
    IF ~Is(h, ev.o, "basis") THEN Keep(h, None)
    ELSE LET s == h[ev.o].s IN Keep(h, Fine(ev, If(InterpolationOK(s, ev.t, ev.m), "interpolation matrix", [i \in 1..Len(ev.t) |-> LagRow(s, ev.t[i])])))
StepCompose(h, ev) ==
    IF ~Is(h, ev.o, "basis") THEN Keep(h, None)
    ELSE LET s == h[ev.o].s IN
         Keep(h, Fine(ev, If(Len(ev.polys) = Len(ev.c) /\ \A i \in 1..Len(ev.c) : TakesValues(ev.polys[i], s, ev.c[i], "1"), "composed polynomials", ev.c)))
StepValues(h, ev) ==      \* the two interpolator functions
    Keep(h, Fine(ev, If(IF ev.how = "power" THEN PowerValuesOK(ev.nodes, ev.u, ev.t, ev.vals) ELSE ValuesOK(ev.nodes, ev.u, ev.t, ev.vals), ev.how \o " interpolator",
                        [i \in 1..Len(ev.u) |-> [k \in 1..Len(ev.t) |-> Dot(LagRow(ev.nodes, ev.t[k]), ev.u[i])]])))
StepCheb(h, ev) ==
    LET w == RSub(ev.tf, ev.t0)
        loc == [i \in 1..Len(ev.t) |-> RDiv(RSub(ev.t[i], ev.t0), w)]
        tol == RMul(E30, RAdd("1", RMaxOf(RAbs(ev.t0), RAbs(ev.tf))))
    IN Keep(h, IF ev.out = "exc" THEN B("refused", 1)
               ELSE If(Len(ev.t) = ev.n + 1 /\ AllFinite(ev.t) /\ ev.t[1] = ev.t0 /\ Near(ev.t[ev.n + 1], ev.tf, RMul(E40, tol))
                       /\ (\A i \in 1..ev.n : (RLt(ev.t[i], ev.t[i + 1]) <=> RLt(ev.t0, ev.tf)) /\ ev.t[i] /= ev.t[i + 1])
                       /\ \A i \in 2..ev.n : RootNear(LAMBDA y : ChebUAt(ev.n - 1, y), YOf(loc[i]), E30), "Chebyshev grid", 1)
                 \o If(DifferentiationOK(ev.t, ev.d, "1"), "Chebyshev differentiation matrix", 1))

(* ---- collocation points, tableaus ---- *)
StepPoints(h, ev) ==
    Keep(h, IF ev.out = "exc" THEN B("refused", 1)
            ELSE If(IF ev.n = 0 THEN ev.p = <<"0">> ELSE PointsOK(ev.scheme, ev.n, ev.p), "collocation points", ev.n))
StepTableau(h, ev) ==
    Keep(h, Fine(ev, If(TableauOK(ev.tau, ev.a, ev.b, ev.c), "tableau", ev.tau)
                     \o (IF ev.scheme = "" THEN None
                         ELSE If(PointsOK(ev.scheme, Len(ev.tau), <<"0">> \o ev.c), "nodes of the method", 1)
                              \o If(WeightsOK(ev.scheme, Len(ev.tau), ev.c, ev.b), "weights of the method", 1))))
StepRaw(h, ev) ==
    Keep(h, IF ShapesOK(ev.sa, ev.sb, ev.sc) THEN (IF ev.out = "exc" THEN B("tableau refused", 1) ELSE If(ev.kept, "tableau does not hold the given numbers", 1))
            ELSE If(ev.out = "exc", "ill-shaped tableau accepted", 1))

(* ---- piecewise polynomials ---- *)
StepPiecewise(h, ev) ==
    IF ev.out = "exc" THEN Keep(h, B("refused", 1))
    ELSE [h |-> SetAt(h, ev.o, [k |-> "pp", iv |-> ev.iv, s |-> ev.nodes, co |-> ev.co, mag |-> ev.co]),
          bad |-> If(ev.bounds = ev.iv /\ ev.n = Len(ev.iv) - 1, "bounds of the intervals", ev.iv) \o Same(ev)]
StepCall(h, ev) ==
    IF ~Is(h, ev.o, "pp") THEN Keep(h, None)
    ELSE LET f == h[ev.o] IN
         Keep(h, IF ev.side \notin {"left", "right"} THEN If(ev.out = "exc", "unknown continuity accepted", 1)
                 ELSE Fine(ev, If(CallOK(f, ev.t, ev.side, ev.vals), "value", CallExpected(f, ev.t, ev.side))))
StepDerivative(h, ev) ==
    IF ~Is(h, ev.src, "pp") THEN Keep(h, None)
    ELSE IF ev.out = "exc" THEN Keep(h, B("refused", 1))
    ELSE [h |-> SetAt(h, ev.o, DerivativeOf(h[ev.src])), bad |-> If(ev.bounds = h[ev.src].iv /\ ev.n = Len(h[ev.src].iv) - 1, "bounds of the intervals", h[ev.src].iv)]
StepPoly(h, ev) ==
    IF ~Is(h, ev.o, "pp") THEN Keep(h, None)
    ELSE Keep(h, Fine(ev, If(PolysOK(h[ev.o], ev.i, ev.polys), "polynomials of the interval", h[ev.o].co[ev.i])))
StepSample(h, ev) ==
    IF ~Is(h, ev.o, "pp") THEN Keep(h, None)
    ELSE Keep(h, Fine(ev, If(SampleOK(h[ev.o], ev.step, ev.x, ev.y), "samples", h[ev.o].iv)))

(* ---- differential quadrature ---- *)
StepPdq(h, ev) ==
    IF ev.out = "exc" THEN Keep(h, B("refused", 1))
    ELSE [h |-> SetAt(h, ev.o, [k |-> "pdq", b |-> ev.b, m |-> ev.m, pts |-> ev.pts]),
          bad |-> If(PointsOK(ev.scheme, ev.m, ev.sp), "points of the scheme", ev.m)
               \o If(PdqPointsOK(ev.b, ev.sp, ev.pts), "collocation points", ev.b)
               \o If(ev.bounds = ev.b /\ ev.n = Len(ev.b) - 1 /\ ev.order = ev.m /\ Len(ev.pts) > 0 /\ ev.t0 = ev.pts[1] /\ ev.tf = ev.pts[Len(ev.pts)]
                     /\ Near(ev.length, RSub(ev.b[Len(ev.b)], ev.b[1]), RMul(E40, RAdd("1", RMax(ev.b)))), "description of the intervals", ev.b)
               \o Same(ev)]
StepDeriv(h, ev) == IF ~Is(h, ev.o, "pdq") THEN Keep(h, None) ELSE Keep(h, Fine(ev, If(DerivOK(h[ev.o], ev.y, ev.vals), "derivative", 1)))
StepIntegral(h, ev) == IF ~Is(h, ev.o, "pdq") THEN Keep(h, None) ELSE Keep(h, Fine(ev, If(IntegralOK(h[ev.o], ev.y, ev.vals), "integral", 1)))
(* integral of the derivative *)
StepRound(h, ev) ==
    IF ~Is(h, ev.o, "pdq") THEN Keep(h, None)
    ELSE LET q == h[ev.o] IN
         Keep(h, Fine(ev, If(IsMat(ev.vals, Len(ev.y), NumPoints(q) - 1)
                             /\ \A r \in 1..Len(ev.y) : \A k \in 1..(NumPoints(q) - 1) :
                                  Near(ev.vals[r][k], RSub(ev.y[r][k + 1], ev.y[r][1]), RMul(RMul(E30, 64), RAdd(E40, RMax(ev.y[r])))),
                             "integral of the derivative", 1)))
StepExpand(h, ev) ==
    IF ~Is(h, ev.o, "pdq") THEN Keep(h, None)
    ELSE LET q == h[ev.o] IN
         Keep(h, IF Len(ev.y[1]) /= Len(q.b) - 1 THEN If(ev.out = "exc", "wrong number of inputs accepted", 1)
                 ELSE Fine(ev, If(ExpandOK(q, ev.y, ev.vals), "expanded inputs", ev.y)))
StepInterpolate(h, ev) ==
    IF ~Is(h, ev.o, "pdq") THEN Keep(h, None)
    ELSE LET q == h[ev.o] IN
         Keep(h, IF ev.cont \notin Continuities THEN If(ev.out = "exc", "unknown continuity accepted", 1)
                 ELSE IF Len(ev.y[1]) /= ColumnsFor(q, ev.cont) THEN If(ev.out = "exc", "wrong number of columns accepted", 1)
                 ELSE Fine(ev, If(InterpolateOK(q, ev.cont, ev.y, ev.t, ev.vals), "interpolated value", InterpolateExpected(q, ev.cont, ev.y, ev.t))))
(* system trajectories: x, z, u, and queries *)
StepSystem(h, ev) ==
    IF ~Is(h, ev.o, "pdq") THEN Keep(h, None)
    ELSE LET q == h[ev.o]
             n == NumPoints(q)
         IN Keep(h, IF ~(Len(ev.x[1]) = n /\ Len(ev.z[1]) = n - 1 /\ Len(ev.u[1]) = n - 1) THEN If(ev.out = "exc", "wrong number of columns accepted", 1)
                    ELSE Fine(ev, If(InterpolateOK(q, "both", ev.x, ev.t, ev.xs), "state", InterpolateExpected(q, "both", ev.x, ev.t))
                               \o If(InterpolateOK(q, "right", ev.z, ev.t, ev.zs), "algebraic state", InterpolateExpected(q, "right", ev.z, ev.t))
                               \o If(InterpolateOK(q, "right", ev.u, ev.t, ev.us), "input", InterpolateExpected(q, "right", ev.u, ev.t))
                               \o If(ev.time = q.b, "times", q.b)))

Step(h0, ev) ==
    LET h == IF ev.reset THEN <<>> ELSE h0 IN
    CASE ev.op = "basis" -> StepBasis(h, ev)
      [] ev.op = "look" -> StepLook(h, ev)
      [] ev.op = "interp" -> StepInterp(h, ev)
      [] ev.op = "compose" -> StepCompose(h, ev)
      [] ev.op = "values" -> StepValues(h, ev)
      [] ev.op = "cheb" -> StepCheb(h, ev)
      [] ev.op = "points" -> StepPoints(h, ev)
      [] ev.op = "tableau" -> StepTableau(h, ev)
      [] ev.op = "raw" -> StepRaw(h, ev)
      [] ev.op = "pp" -> StepPiecewise(h, ev)
      [] ev.op = "call" -> StepCall(h, ev)
      [] ev.op = "derivative" -> StepDerivative(h, ev)
      [] ev.op = "poly" -> StepPoly(h, ev)
      [] ev.op = "sample" -> StepSample(h, ev)
      [] ev.op = "pdq" -> StepPdq(h, ev)
      [] ev.op = "deriv" -> StepDeriv(h, ev)
      [] ev.op = "integral" -> StepIntegral(h, ev)
      [] ev.op = "round" -> StepRound(h, ev)
      [] ev.op = "expand" -> StepExpand(h, ev)
      [] ev.op = "interpolate" -> StepInterpolate(h, ev)
      [] ev.op = "system" -> StepSystem(h, ev)

Init == l = 1 /\ heap = <<>> /\ bad = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET r == Step(heap, Trace[l])
       IN /\ heap' = r.h
          /\ bad' = Recorded(bad, l, r.bad)
    /\ l' = l + 1
    /\ (l = Len(Trace) \/ Len(bad') /= Len(bad)) => JsonSerialize(IOEnv.VERDICT, [n |-> l, bad |-> bad'])
Spec == Init /\ [][Next]_vars
=============================================================================
