-------------------------- MODULE CollocationTrace --------------------------
(* Validates recorded collocation schemes and integrators. *)
EXTENDS Collocation, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap, bad
vars == <<l, heap, bad>>

B(c, exp) == <<[c |-> c, exp |-> exp]>>
None == <<>>
If(ok, c, exp) == IF ok THEN None ELSE B(c, exp)
Keep(h, b) == [h |-> h, bad |-> b]
SetAt(s, i, v) == [j \in 1..Max2(Len(s), i) |-> IF j = i THEN v ELSE IF j <= Len(s) THEN s[j] ELSE [none |-> TRUE]]
Has(h, i) == i <= Len(h) /\ "none" \notin DOMAIN h[i]
One(r, k) == "1"

TimesNear(s, tc) == Len(tc) = Points(s) /\ \A g \in 1..Points(s) : Near(tc[g], TimeOf(s, g), RMul(E40, RAdd("1", RMax(s.t))))

(* a scheme or integrator is made; what it says about itself *)
StepScheme(h, ev) ==
    IF ev.out = "exc" THEN Keep(h, B("refused", 1))
    ELSE LET s == MakeScheme(ev.m, ev.t, ev.c, ev.rep, ev.tdp)
         IN [h |-> SetAt(h, ev.o, s),
             bad |-> If(PointsOK(ev.method, ev.n, <<"0">> \o ev.c), "points of the method", ev.n)
                  \o (IF ev.op = "scheme" THEN
                        If(TimesNear(s, ev.tc), "times of the points", Times(s))
                        \o If(ev.bounds = ev.t, "bounds", ev.t)
                        \o If(ev.total = Points(s), "number of points", Points(s))
                        \o If(MatNear(ev.a, s.a, One, E30) /\ MatNear(<<ev.b>>, <<s.b>>, One, E30) /\ ev.cc = ev.c, "tableau", [a |-> s.a, b |-> s.b])
                      ELSE None)]

(* the expressions of a scheme, evaluated at given values v *)
StepEval(h, ev) ==
    IF ~Has(h, ev.o) THEN Keep(h, None)
    ELSE LET s == h[ev.o]
             v == ev.v
             pts == AllPoints(s, v)
             large == LargePoints(s, v, pts)
             sizes == TLCEval(ModelSizes(s, large))
             qsizes == QuadSizes(s, large)
             f == Integrand(s, pts)
             state(r, k) == RMul(E30, StateSize(s, v, r))
             fbig(r, k) == QuadSize(s, qsizes, r)
             eq1 == ModelEqs(s, pts)
             eq2 == Mismatch(s, v)
             eq3 == CopyDiffs(s, v)
             ex == States(s, v)
         IN Keep(h, IF ev.out = "exc" THEN B("refused", 1)
             ELSE IF ev.about = "equations" THEN
                  If(MatNear(ev.e1, eq1, LAMBDA r, k : sizes[r][k], E30), "equations at the points", eq1)
               \o If(MatWithin(ev.e2, eq2, state), "continuity equations", eq2)
               \o If((Len(eq3) = 0 \/ Len(eq3[1]) = 0) \/ MatNear(ev.e3, eq3, One, E40), "parameter equations", eq3)
               \o If(ev.cat = VecOf(ev.e1) \o VecOf(ev.e2) \o (IF Len(eq3) = 0 \/ Len(eq3[1]) = 0 THEN <<>> ELSE VecOf(ev.e3)), "equations as one vector", 1)
               \o If(ev.U = [r \in 1..Len(v.u) |-> [g \in 1..Points(s) |-> v.u[r][IntOf(s, g)]]], "inputs at the points", 1)
             ELSE
                  If(ev.xdot = v.K, "slopes at the points", v.K)
               \o If(MatWithin(ev.X, ex, state), "states at the points", ex)
               \o If(MatNear(ev.quad, f, LAMBDA r, k : qsizes[r][k], E30), "integrand of the quadrature", f)
               \o If(MatNear(ev.q, QuadEnds(s, f), fbig, E30), "quadrature at the bounds", QuadEnds(s, f))
               \o If(MatNear(ev.Q, QuadPoints(s, f), fbig, E30), "quadrature at the points", QuadPoints(s, f)))

(* numeric states and trajectories *)
TrajOK(s, v, ts, side, vals, eps) ==
    /\ IsMat(vals, s.m.n["x"], Len(ts))
    /\ \A k \in 1..Len(ts) : LET e == TLCEval(TrajectoryAt(s, v, ts[k], side)) IN \A r \in 1..s.m.n["x"] : Near(vals[r][k], e[r].v, RMul(eps, e[r].tol))
StepTraj(h, ev) ==
    IF ~Has(h, ev.o) THEN Keep(h, None)
    ELSE LET s == h[ev.o]
             v == ev.v
         IN Keep(h, IF ev.out = "exc" THEN B("refused", 1)
             ELSE If(MatWithin(ev.X, States(s, v), LAMBDA r, k : RMul(E30, StateSize(s, v, r))), "states at the points", States(s, v))
               \o If(TrajOK(s, v, ev.ts, ev.side, ev.vals, E30), "trajectory", [k \in 1..Len(ev.ts) |-> TrajectoryAt(s, v, ev.ts[k], ev.side)])
               \o If(ev.bounds = s.t, "bounds of the trajectory", s.t))

(* a combination of parts *)
Known == {"K", "x", "Z", "U", "u", "p", "eq", "q"}
StepCombine(h, ev) ==
    IF ~Has(h, ev.o) THEN Keep(h, None)
    ELSE LET s == h[ev.o]
             v == ev.v
             size == [w \in Known |-> CASE w = "K" -> s.m.n["x"] * Points(s) [] w = "x" -> s.m.n["x"] * NumBounds(s) [] w = "Z" -> s.m.n["z"] * Points(s)
                                        [] w = "U" -> s.m.n["u"] * Points(s) [] w = "u" -> s.m.n["u"] * NumInt(s)
                                        [] w = "p" -> s.m.n["p"] * (IF s.rep THEN Points(s) ELSE 1)
                                        [] w = "eq" -> Len(s.m.dae) * Points(s) + s.m.n["x"] * NumInt(s) + (IF s.rep THEN s.m.n["p"] * (Points(s) - 1) ELSE 0)
                                        [] w = "q" -> Len(s.m.quad) * NumBounds(s)]
             given == [w \in {"K", "x", "Z", "u", "p"} |-> VecOf(CASE w = "K" -> v.K [] w = "x" -> v.x [] w = "Z" -> v.Z [] w = "u" -> v.u [] w = "p" -> v.p)]
             start(i) == SumInts([j \in 1..(i - 1) |-> size[ev.what[j]]])
         IN Keep(h, IF ~(RangeOf(ev.what) \subseteq Known) THEN If(ev.out = "exc", "unknown part accepted", 1)
             ELSE IF ev.out = "exc" THEN B("refused", 1)
             ELSE If(ev.names = ev.what, "names of the parts", ev.what)
               \o If(Len(ev.cat) = start(Len(ev.what) + 1), "size of the combination", start(Len(ev.what) + 1))
               \o If(\A i \in 1..Len(ev.what) :
                       LET seg == SubSeq(ev.cat, start(i) + 1, start(i + 1)) IN
                       /\ ev.parts[i] = seg
                       /\ ev.alone[i] = seg
                       /\ (ev.what[i] \in DOMAIN given => seg = given[ev.what[i]]), "contents of the combination", given))

(* a run of the integrator *)
Solves(s, v, z, eps) ==
    LET pts == AllPoints(s, v) IN
    /\ \A g \in 1..Points(s) : \A r \in 1..Len(s.m.dae) : Near(RatValue(s.m.dae[r], pts[g]), "0", RMul(eps, RAdd("1", RatSize(s.m.dae[r], pts[g]))))
ShapesFit(s, v) ==
    /\ IsMat(v.x, s.m.n["x"], NumBounds(s)) /\ IsMat(v.K, s.m.n["x"], Points(s)) /\ IsMat(v.Z, s.m.n["z"], Points(s))
    /\ \A w \in {"x", "K", "Z"} : \A r \in 1..Len(v[w]) : AllFinite(v[w][r])
StepRun(h, ev) ==
    IF ~Has(h, ev.o) THEN Keep(h, None)
    ELSE LET s == h[ev.o]
             v == ev.v
             big(r, k) == RMul(ValueSize(v), RAdd("1", RMax(s.t)))
         IN IF ev.out = "exc" THEN Keep(h, B("refused", 1))
            ELSE IF ~ShapesFit(s, v) THEN Keep(h, B("sizes of the solution", 1))
            ELSE LET pts == AllPoints(s, v)
                     f == Integrand(s, pts)
                     qsizes == QuadSizes(s, LargePoints(s, v, pts))
                     fbig(r, k) == QuadSize(s, qsizes, r)
                     mis == Mismatch(s, v)
                     q == QuadEnds(s, f)
                 IN [h |-> [h EXCEPT ![ev.o] = [last |-> v] @@ s],
                     bad |-> If(Solves(s, v, 1, E20), "the model's equations do not hold", ModelEqs(s, pts))
                          \o If(\A r \in 1..Len(mis) : \A k \in 1..Len(mis[r]) : Near(mis[r][k], "0", RMul(E20, RAdd("1", big(r, k)))), "states at the ends of intervals", mis)
                          \o If(\A r \in 1..Len(ev.x0) : Near(v.x[r][1], ev.x0[r], RMul(E20, RAdd("1", RAbs(ev.x0[r])))), "initial state", ev.x0)
                          \o If(MatNear(ev.xf, [r \in 1..Len(v.x) |-> Tail(v.x[r])], One, E40), "end states", v.x)
                          \o If(MatNear(ev.X, States(s, v), big, E30), "states at the points", States(s, v))
                          \o If(MatNear(ev.Q, QuadPoints(s, f), fbig, E30), "quadrature at the points", QuadPoints(s, f))
                          \o If(Len(ev.qf) = Len(f) /\ \A r \in 1..Len(f) : Near(ev.qf[r], q[r][NumBounds(s)], RMul(E30, RAdd("1", fbig(r, 1)))), "quadrature at the end", q)
                          \o If(TimesNear(s, ev.tc), "times of the points", Times(s))
                          \o (IF ev.ts = <<>> THEN None
                              ELSE If(TrajOK(s, v, ev.ts, "right", ev.vals, E30), "trajectory", [k \in 1..Len(ev.ts) |-> TrajectoryAt(s, v, ev.ts[k], "right")]))]
(* the same, interval by interval: states at the bounds, quadratures of the intervals *)
StepChain(h, ev) ==
    IF ~Has(h, ev.o) \/ "last" \notin DOMAIN h[ev.o] THEN Keep(h, None)
    ELSE LET s == h[ev.o]
             v == s.last
             f == Integrand(s, AllPoints(s, v))
             q == QuadEnds(s, f)
             tol(a) == RMul(RMul(E20, 16), RAdd("1", RAdd(ValueSize(v), RAbs(a))))
         IN Keep(h, IF ev.out = "exc" THEN B("refused", 1)
             ELSE If(IsMat(ev.xs, Len(v.x), NumBounds(s)) /\ \A r \in 1..Len(v.x) : \A k \in 1..NumBounds(s) : Near(ev.xs[r][k], v.x[r][k], tol(v.x[r][k])),
                     "interval by interval gives other states", v.x)
               \o If(IsMat(ev.qs, Len(f), NumBounds(s)) /\ \A r \in 1..Len(f) : \A k \in 1..NumBounds(s) : Near(ev.qs[r][k], q[r][k], RMul(tol(q[r][k]), RAdd("1", RMax(f[r])))),
                     "interval by interval gives other quadratures", q))

Step(h0, ev) ==
    LET h == IF ev.reset THEN <<>> ELSE h0 IN
    CASE ev.op \in {"scheme", "integrator"} -> StepScheme(h, ev)
      [] ev.op = "eval" -> StepEval(h, ev)
      [] ev.op = "traj" -> StepTraj(h, ev)
      [] ev.op = "combine" -> StepCombine(h, ev)
      [] ev.op = "run" -> StepRun(h, ev)
      [] ev.op = "chain" -> StepChain(h, ev)

Init == l = 1 /\ heap = <<>> /\ bad = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET r == Step(heap, Trace[l])
       IN /\ heap' = r.h
          /\ bad' = Recorded(bad, l, r.bad)
    /\ l' = l + 1
    /\ (l = Len(Trace) \/ Len(bad') /= Len(bad)) => JsonSerialize(IOEnv.VERDICT, [n |-> l, bad |-> bad'])
Spec == Init /\ [][Next]_vars
=============================================================================
