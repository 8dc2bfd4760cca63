--------------------------- MODULE AssemblyModel ---------------------------
(* Filling and replacing the expressions of a structure, with reads in between: every history of a few steps.
   The contents are compared with a rule that knows only, for every slot, the step that filled it last. *)
EXTENDS Assembly, Json

CONSTANTS Depth, Kind

VARIABLES lay, cat, hist
vars == <<lay, cat, hist>>

NoD == [entries |-> <<>>, order |-> <<>>]
DenseNz(r, c) == [k \in 1..(r * c) |-> <<Mod(k - 1, r), (k - 1) \div r>>]
Leaf(n, dims, r, c, nz) == [n |-> n, dims |-> dims, k |-> "leaf", r |-> r, c |-> c, nz |-> nz, sym |-> FALSE, sub |-> NoD, ss |-> <<>>]
Sub == [entries |-> <<Leaf("p", <<>>, 1, 1, DenseNz(1, 1)), Leaf("q", <<>>, 2, 1, DenseNz(2, 1))>>, order |-> <<<<"p">>, <<"q">>>>]
Node(n, dims, d) == [n |-> n, dims |-> dims, k |-> "struct", r |-> 0, c |-> 0, nz |-> <<>>, sym |-> FALSE, sub |-> d, ss |-> <<>>]
Low == <<<<0, 0>>, <<1, 0>>, <<1, 1>>>>
D == [entries |-> <<Leaf("a", <<2>>, 2, 1, DenseNz(2, 1)), Leaf("b", <<2>>, 1, 2, DenseNz(1, 2)), Leaf("l", <<>>, 2, 2, Low), Node("s", <<>>, Sub)>>,
      order |-> <<<<"a", "b">>, <<"l">>, <<"s">>>>]
ASSUME PrintT("CASE " \o ToJson([decl |-> D]))

(* slots: index, and the number of the first element in the vector *)
SlotsOf == <<[ix |-> <<"a", 0>>, at |-> 0, r |-> 2, c |-> 1, nz |-> DenseNz(2, 1)], [ix |-> <<"b", 0>>, at |-> 2, r |-> 1, c |-> 2, nz |-> DenseNz(1, 2)],
             [ix |-> <<"a", 1>>, at |-> 4, r |-> 2, c |-> 1, nz |-> DenseNz(2, 1)], [ix |-> <<"b", 1>>, at |-> 6, r |-> 1, c |-> 2, nz |-> DenseNz(1, 2)],
             [ix |-> <<"l">>, at |-> 8, r |-> 2, c |-> 2, nz |-> Low], [ix |-> <<"s">>, at |-> 11, r |-> 3, c |-> 1, nz |-> DenseNz(3, 1)]>>
Ix(s) == IF Len(s.ix) = 1 THEN <<[k |-> "n", v |-> s.ix[1]]>> ELSE <<[k |-> "n", v |-> s.ix[1]], [k |-> "i", v |-> s.ix[2]]>>
Val(step, i) == ToString(100 * step + i)
Expr(s, step) == [t |-> "mat", r |-> s.r, c |-> s.c, nz |-> s.nz,
                  e |-> [k \in 1..(s.r * s.c) |-> IF \E j \in 1..Len(s.nz) : s.nz[j] = <<Mod(k - 1, s.r), (k - 1) \div s.r>>
                                                  THEN Val(step, CHOOSE j \in 1..Len(s.nz) : s.nz[j] = <<Mod(k - 1, s.r), (k - 1) \div s.r>>) ELSE "0"]]
(* a whole entry, as a list over its slots; step * 10 + position keeps the values apart *)
Targets == {<<1>>, <<2>>, <<3>>, <<5>>, <<6>>, <<1, 3>>, <<4, 2>>}
Payload(t, step) == IF Len(t) = 1 THEN Expr(SlotsOf[t[1]], step) ELSE [t |-> "list", v |-> [i \in 1..Len(t) |-> Expr(SlotsOf[t[i]], step * 10 + i)]]
Index(t) == IF Len(t) = 1 THEN Ix(SlotsOf[t[1]])
            ELSE <<[k |-> "n", v |-> SlotsOf[t[1]].ix[1]], [k |-> "l", v |-> [i \in 1..Len(t) |-> SlotsOf[t[i]].ix[2]]]>>

Init == lay = LayoutOf(D) /\ cat = Blank(lay, Kind) /\ hist = <<>>
Next ==
    /\ Len(hist) < Depth
    /\ UNCHANGED lay
    /\ \E t \in Targets :
         LET step == Len(hist) + 1
             w == Write(lay, cat, Index(t), Payload(t, step), ModeOf(Kind))
         IN /\ w.s = "ok" /\ cat' = w.cat
            /\ hist' = Append(hist, [t |-> t, ix |-> Index(t), pl |-> Payload(t, step)])
    /\ (Len(hist') = Depth) => PrintT("CASE " \o ToJson([hist |-> hist']))
Spec == Init /\ [][Next]_vars

(* what slot number k shows: the expression given last *)
Filled(k) == {i \in 1..Len(hist) : \E j \in 1..Len(hist[i].t) : hist[i].t[j] = k}
Shows(k, j) ==
    IF Filled(k) = {} THEN (IF Kind = "exMX" THEN "missing" ELSE "nan")
    ELSE LET i == MaxOf(Filled(k))
             n == CHOOSE n \in 1..Len(hist[i].t) : hist[i].t[n] = k
         IN Val(IF Len(hist[i].t) = 1 THEN i ELSE i * 10 + n, j)
LastGiven == \A k \in 1..6 : \A j \in 1..Len(SlotsOf[k].nz) : cat[SlotsOf[k].at + j] = Shows(k, j)
(* the vector can be seen exactly when nothing is missing *)
SeenWhenComplete == (Shown(cat) = Refused) <=> (Kind = "exMX" /\ \E k \in 1..6 : Filled(k) = {})
=============================================================================
