-------------------------- MODULE CollocationModel --------------------------
(* Collocation with rational points, where powers of t must solve their equations exactly. Enumerates grids, numbers of points,
   methods, parameter repetition, expansion and kinds of model. *)
EXTENDS Collocation, Json

CONSTANTS Grid, MaxPoints, Kinds

VARIABLES st
None == [none |-> TRUE]
SortRat(S) == FoldLeft(LAMBDA q, i : LET rest == S \ RangeOf(q) IN Append(q, CHOOSE x \in rest : \A y \in rest : RLe(x, y)), <<>>, [i \in 1..Cardinality(S) |-> i])

Init == st = None
Next ==
    /\ st = None
    /\ \E S \in SUBSET Grid : \E n \in 1..MaxPoints : \E rep \in BOOLEAN : \E exp \in BOOLEAN : \E k \in Kinds : \E me \in {"legendre", "radau"} :
         /\ Cardinality(S) \in 2..4
         /\ st' = [t |-> SortRat(S), n |-> n, rep |-> rep, expand |-> exp, kind |-> k, method |-> me]
         /\ PrintT("CASE " \o ToJson(st'))
Spec == Init /\ [][Next]_st

V(p, i) == [p |-> p, i |-> i]
T(c, v) == [c |-> c, v |-> v]
Rational(n) == <<<<"1">>, <<"1/3", "1">>, <<"1/4", "1/2", "1">>, <<"1/8", "1/3", "2/3", "1">>>>[n]
TPow(k) == [i \in 1..k |-> V("t", 0)]
(* x1' = k t^(k-1), x2' = x1 - z + p - p, 0 = z - u t, quadrature 1 of t^(k-1), 2 of u *)
Model(k) ==
    LET n == [q \in Inputs |-> CASE q = "x" -> 2 [] q = "xdot" -> 0 [] q = "tdp" -> 0 [] OTHER -> 1]
    IN [kind |-> "semi", n |-> n, s |-> [q \in Inputs |-> <<n[q], 1>>],
        ode |-> <<<<T(k, TPow(k - 1))>>, <<T(1, <<V("x", 0)>>), T(-1, <<V("z", 0)>>), T(1, <<V("p", 0)>>)>>>>,
        alg |-> <<<<T(1, <<V("z", 0)>>), T(-1, <<V("u", 0), V("t", 0)>>)>>>>,
        quad |-> <<<<T(k, TPow(k - 1))>>, <<T(1, <<V("u", 0)>>)>>>>, dae |-> <<>>, a |-> {1}]
S(k) == MakeScheme(Model(k), st.t, Rational(st.n), st.rep, <<>>)
(* x1 = t^k; x2 arbitrary at the bounds, with slopes from the equation; u = interval number; p = 1 *)
Exact(s, k) ==
    LET tt == TLCEval(Times(s))
        x1 == [i \in 1..NumBounds(s) |-> RPow(s.t[i], k)]
        k1 == [g \in 1..Points(s) |-> RMul(k, RPow(tt[g], k - 1))]
        z == [g \in 1..Points(s) |-> RMul(IntOf(s, g), tt[g])]
        k2 == [g \in 1..Points(s) |-> RAdd(RSub(RPow(tt[g], k), z[g]), "1")]
        x2 == FoldLeft(LAMBDA q, i : Append(q, RAdd(q[i], RMul(Length(s, i), Dot(s.b, Slopes(s, k2, i))))), <<"3">>, [i \in 1..NumInt(s) |-> i])
    IN [x |-> <<x1, x2>>, K |-> <<k1, k2>>, Z |-> <<z>>, u |-> <<[i \in 1..NumInt(s) |-> ToString(i)]>>, p |-> <<[g \in 1..(IF s.rep THEN Points(s) ELSE 1) |-> "1"]>>]
AllZero(m) == \A r \in 1..Len(m) : \A i \in 1..Len(m[r]) : m[r][i] = "0"
Law == st /= None =>
    \A k \in 1..st.n :
      LET s == S(k)
          v == TLCEval(Exact(s, k))
          pts == AllPoints(s, v)
          f == Integrand(s, pts)
          q == QuadEnds(s, f)
      IN /\ AllZero(ModelEqs(s, pts)) /\ AllZero(Mismatch(s, v)) /\ AllZero(CopyDiffs(s, v))
         /\ States(s, v)[1] = [g \in 1..Points(s) |-> RPow(TimeOf(s, g), k)]
         /\ q[1] = [i \in 1..NumBounds(s) |-> RSub(RPow(s.t[i], k), RPow(s.t[1], k))]
         /\ q[2][2] = RMul(Length(s, 1), "1")
         /\ QuadPoints(s, f)[1] = [g \in 1..Points(s) |-> RSub(RPow(TimeOf(s, g), k), RPow(s.t[1], k))]
         /\ \A g \in 1..Points(s) : \A side \in {"left", "right"} : TrajectoryAt(s, v, TimeOf(s, g), side)[1].v = RPow(TimeOf(s, g), k)
         /\ \A i \in 1..NumBounds(s) : \A side \in {"left", "right"} : \A r \in 1..2 : TrajectoryAt(s, v, s.t[i], side)[r].v = v.x[r][i]
         (* what is not a solution is seen *)
         /\ ~AllZero(ModelEqs(s, AllPoints(s, [v EXCEPT !.K[1][1] = RAdd(@, "1/7")])))
         /\ ~AllZero(ModelEqs(s, AllPoints(s, [v EXCEPT !.Z[1][Points(s)] = RAdd(@, "1/7")])))
         /\ ~AllZero(Mismatch(s, [v EXCEPT !.x[2][NumBounds(s)] = RAdd(@, "1/7")]))
=============================================================================
