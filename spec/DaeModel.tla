------------------------------ MODULE DaeModel ------------------------------
(* Scope "args": constructor arguments that deviate from a proper model in a few places.
   Scope "prog": programs of conversions and parallel connections over a few models. *)
EXTENDS Dae, Json

CONSTANTS Scope, Depth, Level

VARIABLES kind, arg, dev, reg, prog
vars == <<kind, arg, dev, reg, prog>>

P(how, r, c) == [given |-> TRUE, how |-> how, r |-> r, c |-> c]
All == {"x", "z", "u", "p", "t", "tdp", "quad", "ode", "alg", "xdot", "dae"}
Base(k, z) == [n \in All |-> CASE n = "x" -> P("sym", 2, 1)
                               [] n = "ode" /\ k = "semi" -> P("expr", 2, 1)
                               [] n = "xdot" /\ k = "impl" -> P("sym", 2, 1)
                               [] n = "dae" /\ k = "impl" -> P("expr", IF z THEN 3 ELSE 2, 1)
                               [] n = "z" /\ z -> P("sym", 1, 1)
                               [] n = "alg" /\ z /\ k = "semi" -> P("expr", 1, 1)
                               [] n = "u" /\ z -> P("sym", 2, 1)
                               [] n = "p" /\ z -> P("sym", 2, 2)
                               [] n = "t" /\ z -> P("sym", 1, 1)
                               [] OTHER -> Absent]
Forms == {Absent, P("sym", 0, 1), P("sym", 1, 1), P("sym", 2, 1), P("sym", 3, 1), P("sym", 1, 2), P("sym", 2, 2), P("expr", 1, 1), P("expr", 2, 1), P("expr", 3, 1), P("expr", 2, 2), P("num", 2, 1)}

(* ---- models for programs ---- *)
V(p, i) == [p |-> p, i |-> i]
T(c, v) == [c |-> c, v |-> v]
Sizes(x, z, u, p) == [q \in Inputs |-> CASE q = "x" -> x [] q = "z" -> z [] q = "u" -> u [] q = "p" -> p [] q = "t" -> 1 [] OTHER -> 0]
Shaped(n) == [q \in Inputs |-> <<n[q], 1>>]
M1 == LET n == Sizes(1, 0, 1, 0) IN
      [kind |-> "semi", n |-> n, s |-> Shaped(n), ode |-> <<<<T(2, <<V("x", 0)>>), T(-1, <<V("u", 0), V("x", 0)>>)>>>>, alg |-> <<>>, quad |-> <<<<T(1, <<V("x", 0), V("x", 0)>>)>>>>, dae |-> <<>>, a |-> {1}]
M2 == LET n == Sizes(2, 1, 0, 1) IN
      [kind |-> "semi", n |-> n, s |-> Shaped(n),
       ode |-> <<<<T(1, <<V("x", 1)>>)>>, <<T(-3, <<V("x", 0), V("z", 0)>>), T(1, <<V("p", 0)>>)>>>>, alg |-> <<<<T(1, <<V("z", 0)>>), T(-1, <<V("x", 0), V("x", 1)>>)>>>>, quad |-> <<>>, dae |-> <<>>, a |-> {2}]
M3 == LET n == Sizes(1, 2, 2, 1) IN
      [kind |-> "semi", n |-> n, s |-> Shaped(n), ode |-> <<<<T(1, <<V("u", 1)>>), T(5, <<>>)>>>>,
       alg |-> <<<<T(1, <<V("z", 1)>>), T(2, <<V("u", 0)>>)>>, <<T(1, <<V("z", 0), V("z", 1)>>), T(1, <<V("p", 0)>>)>>>>,
       quad |-> <<<<T(1, <<V("u", 0), V("u", 1)>>)>>, <<T(1, <<V("x", 0)>>)>>>>, dae |-> <<>>, a |-> {3}]

Init ==
    /\ dev = {} /\ prog = <<>>
    /\ IF Scope = "args" THEN kind \in {"semi", "impl"} /\ arg \in {Base(kind, z) : z \in BOOLEAN} /\ reg = <<>>
       ELSE kind = "semi" /\ arg = Base("semi", FALSE) /\ reg = <<M1, M2, M3>>
NextArgs ==
    /\ Cardinality(dev) < Depth
    /\ \E n \in Names(kind), f \in Forms :
         /\ n \notin dev /\ f /= arg[n]
         /\ arg' = [arg EXCEPT ![n] = f] /\ dev' = dev \cup {n}
         /\ PrintT("CASE " \o ToJson([kind |-> kind, arg |-> arg']))
    /\ UNCHANGED <<kind, reg, prog>>
Lists == UNION {[1..n -> 1..Len(reg)] : n \in 1..Level}
Fresh == Len(prog) > 0
NextProg ==
    /\ Len(prog) < Depth
    /\ \/ \E p \in Lists : /\ AllConnectable([i \in 1..Len(p) |-> reg[p[i]]])
                           /\ Fresh => \E i \in 1..Len(p) : p[i] = Len(reg)
                           /\ reg' = Append(reg, Parallel([i \in 1..Len(p) |-> reg[p[i]]]))
                           /\ prog' = Append(prog, [how |-> "parallel", p |-> p])
       \/ \E i \in 1..Len(reg) : /\ Fresh => i = Len(reg)
                                 /\ reg' = Append(reg, Implicit(reg[i])) /\ prog' = Append(prog, [how |-> "implicit", p |-> <<i>>])
    /\ (Len(prog') = Depth) => PrintT("CASE " \o ToJson([base |-> SubSeq(reg, 1, 3), prog |-> prog']))
    /\ UNCHANGED <<kind, arg, dev>>
Next == IF Scope = "args" THEN NextArgs ELSE NextProg
Spec == Init /\ [][Next]_vars

(* ---- laws ---- *)
(* the sizes of an accepted model are consistent, and every part alone is proper *)
AcceptedLaw == Scope = "args" =>
    /\ (dev = {} => Accepted(kind, arg))
    /\ (Accepted(kind, arg) => (\A n \in Names(kind) : PartOK(n, arg[n])) /\ ReportedSizes(arg).nx = Count(arg["x"]))
    (* a single deviation in a part without counterpart matters only by itself *)
    /\ (Cardinality(dev) = 1 /\ dev \subseteq {"u", "p", "t", "tdp", "quad"}) => (Accepted(kind, arg) <=> \A n \in dev : PartOK(n, arg[n]))
    (* with everything symbolic, only the numbers of elements count *)
    /\ ((\A n \in Names(kind) : arg[n].given => (arg[n].how = "sym" /\ arg[n].c = 1)) /\ ~(arg["t"].given /\ arg["t"].r /= 1) /\ \A n \in Required(kind) : arg[n].given)
         => (Accepted(kind, arg) <=> SizesOK(kind, arg))

Pt(m, a) == [q \in Inputs |-> [i \in 1..m.n[q] |-> Mod(a * i * i + (IF q = "z" THEN 2 ELSE IF q = "u" THEN 3 ELSE 5) * i, 7) - 3]]
Stack(ms, a, q) == Cat(Len(ms), LAMBDA k : Pt(ms[k], a + k)[q])
Law(j) ==
    LET e == prog[j]
        r == reg[3 + j]
        ms == [i \in 1..Len(e.p) |-> reg[e.p[i]]]
    IN IF e.how = "parallel" THEN
           (* at the stacked point the stacked model gives the stacked values *)
           \A a \in {1, 2} :
             LET pt == [q \in Inputs |-> IF q = "t" THEN <<0>> ELSE Stack(ms, a, q)] IN
             /\ \A f \in {"ode", "alg", "quad"} : ValueOf(r, f, pt) = Cat(Len(ms), LAMBDA k : ValueOf(ms[k], f, Pt(ms[k], a + k)))
             /\ \A q \in {"x", "z", "u", "p"} : Len(pt[q]) = r.n[q]
       ELSE LET m == ms[1] IN
            IF m.kind = "impl" THEN r = m
            ELSE \A a \in {1, 2} :
               LET pt == Pt(r, a)
                   sol == [pt EXCEPT !["xdot"] = ValueOf(m, "ode", pt)]
                   res == ValueOf(r, "dae", pt)
               IN /\ Len(res) = m.n["x"] + m.n["z"]
                  /\ \A i \in 1..m.n["x"] : res[i] = pt["xdot"][i] - ValueOf(m, "ode", pt)[i]
                  /\ \A i \in 1..m.n["z"] : res[m.n["x"] + i] = ValueOf(m, "alg", pt)[i]
                  (* the derivative given by the model leaves only the algebraic residual *)
                  /\ ValueOf(r, "dae", sol) = [i \in 1..m.n["x"] |-> 0] \o ValueOf(m, "alg", pt)
ProgLaw == Scope = "prog" => \A j \in 1..Len(prog) : Law(j)
=============================================================================
