-------------------------------- MODULE Dae --------------------------------
(* Differential-algebraic models with polynomial right-hand sides.

   Part        [given |-> BOOLEAN, how |-> "sym" | "expr" | "num", r, c]         what a constructor argument looks like
   Variable    [p |-> part name, i |-> element number]
   Polynomial  Seq([c |-> Int, v |-> Seq(Variable)])                            sum of c times the product of v
   Model       [kind |-> "semi" | "impl", n |-> [x, z, u, p, t, tdp, xdot -> count], s |-> the same with <<rows, columns>>,
                ode, alg, quad, dae |-> Seq(Polynomial), a |-> the models it was made from, whose variables it has] *)
EXTENDS Util

Inputs == {"x", "z", "u", "p", "t", "tdp", "xdot"}
Columns == {"x", "z", "u", "xdot", "ode", "alg", "dae"}     \* must be column vectors
Symbols == {"x", "z", "u", "p", "t", "tdp"}                 \* must be purely symbolic

Absent == [given |-> FALSE, how |-> "sym", r |-> 0, c |-> 1]
Count(a) == IF a.given THEN a.r * a.c ELSE 0

(* ---- which arguments make a model ---- *)
PartOK(n, a) ==
    \/ ~a.given
    \/ /\ (n \in Columns => a.c = 1)
       /\ (n \in Symbols => a.how = "sym")
       /\ (n = "t" => a.r * a.c = 1)
(* an empty part may be symbolic or not *)
PartOpen(n, a) == a.given /\ a.r * a.c = 0 /\ a.how /= "sym" /\ n \in Symbols
Required(kind) == IF kind = "semi" THEN {"x", "ode"} ELSE {"x", "xdot", "dae"}
Names(kind) == {"x", "z", "u", "p", "t", "tdp", "quad"} \cup (IF kind = "semi" THEN {"ode", "alg"} ELSE {"xdot", "dae"})
SizesOK(kind, arg) ==
    IF kind = "semi" THEN Count(arg["x"]) = Count(arg["ode"]) /\ Count(arg["z"]) = Count(arg["alg"])
    ELSE Count(arg["x"]) = Count(arg["xdot"]) /\ Count(arg["dae"]) = Count(arg["x"]) + Count(arg["z"])
Accepted(kind, arg) ==
    /\ \A n \in Required(kind) : arg[n].given
    /\ \A n \in Names(kind) : PartOK(n, arg[n])
    /\ SizesOK(kind, arg)
Open(kind, arg) == \E n \in Names(kind) : PartOpen(n, arg[n])
ReportedSizes(arg) == [nx |-> Count(arg["x"]), nz |-> Count(arg["z"]), nu |-> Count(arg["u"]), np |-> Count(arg["p"]),
                       ntdp |-> Count(arg["tdp"]), nq |-> Count(arg["quad"])]

(* ---- evaluation ---- *)
Prod(s) == FoldSeq(LAMBDA x, a : x * a, 1, s)
Value(poly, pt) == SumInts([i \in 1..Len(poly) |-> poly[i].c * Prod([j \in 1..Len(poly[i].v) |-> pt[poly[i].v[j].p][poly[i].v[j].i + 1]])])
ValueOf(m, name, pt) ==
    IF name \in Inputs THEN pt[name]
    ELSE LET ps == CASE name = "ode" -> m.ode [] name = "alg" -> m.alg [] name = "quad" -> m.quad [] name = "dae" -> m.dae
         IN [i \in 1..Len(ps) |-> Value(ps[i], pt)]
VarsOf(ps) == UNION {UNION {{ps[i][k].v[j].p : j \in 1..Len(ps[i][k].v)} : k \in 1..Len(ps[i])} : i \in 1..Len(ps)}
Needs(m, name) ==
    IF name \in Inputs THEN (IF m.n[name] = 0 THEN {} ELSE {name})
    ELSE VarsOf(CASE name = "ode" -> m.ode [] name = "alg" -> m.alg [] name = "quad" -> m.quad [] name = "dae" -> m.dae)
HasPart(m, name) == name \in Names(m.kind)
ShapeOf(m, name) ==
    IF name \in Inputs THEN m.s[name]
    ELSE <<Len(CASE name = "ode" -> m.ode [] name = "alg" -> m.alg [] name = "quad" -> m.quad [] name = "dae" -> m.dae), 1>>

(* ---- implicit form ---- *)
Minus(poly) == [i \in 1..Len(poly) |-> [poly[i] EXCEPT !.c = -@]]
Implicit(m) ==
    IF m.kind = "impl" THEN m
    ELSE [m EXCEPT !.kind = "impl",
                   !.n["xdot"] = m.n["x"],
                   !.s["xdot"] = <<m.n["x"], 1>>,
                   !.dae = [i \in 1..Len(m.ode) |-> <<[c |-> 1, v |-> <<[p |-> "xdot", i |-> i - 1]>>]>> \o Minus(m.ode[i])] \o m.alg]

(* ---- parallel connection ---- *)
Offset(ms, k, part) == SumInts([j \in 1..(k - 1) |-> ms[j].n[part]])
Shift(ms, k, poly) == [i \in 1..Len(poly) |-> [c |-> poly[i].c, v |-> [j \in 1..Len(poly[i].v) |->
                        [p |-> poly[i].v[j].p, i |-> poly[i].v[j].i + Offset(ms, k, poly[i].v[j].p)]]]]
ShiftAll(ms, f(_)) == Cat(Len(ms), LAMBDA k : LET ps == f(ms[k]) IN [i \in 1..Len(ps) |-> Shift(ms, k, ps[i])])
Total(ms, part) == SumInts([j \in 1..Len(ms) |-> ms[j].n[part]])
Parallel(ms) ==
    LET n == [q \in Inputs |-> IF q \in {"x", "z", "u", "p"} THEN Total(ms, q) ELSE IF q = "t" THEN 1 ELSE 0] IN
    [kind |-> "semi", n |-> n, s |-> [q \in Inputs |-> <<n[q], 1>>],
     ode |-> ShiftAll(ms, LAMBDA m : m.ode), alg |-> ShiftAll(ms, LAMBDA m : m.alg), quad |-> ShiftAll(ms, LAMBDA m : m.quad), dae |-> <<>>,
     a |-> UNION {ms[i].a : i \in 1..Len(ms)}]
(* models that may be connected: semi-explicit, without time and time-dependent parameters, no two of them sharing variables *)
Connectable(m) == m.kind = "semi" /\ m.n["tdp"] = 0 /\ "t" \notin (VarsOf(m.ode) \cup VarsOf(m.alg) \cup VarsOf(m.quad))
AllConnectable(ms) == /\ Len(ms) > 0
                      /\ \A i \in 1..Len(ms) : Connectable(ms[i])
                      /\ \A i, j \in 1..Len(ms) : i /= j => ms[i].a \cap ms[j].a = {}
=============================================================================
