----------------------------- MODULE IndexModel -----------------------------
(* Grows every index of a small scope over a few declarations, checks laws of Address/Read, prints the indices. *)
EXTENDS Store, Json

CONSTANTS MaxLen, Level,
          Scope          \* which declarations: "gen", "sym"

VARIABLES d, lay, ix
vars == <<d, lay, ix>>

NoDecl == [entries |-> <<>>, order |-> <<>>]
Leaf(n, dims, r, c, nz, sym) == [n |-> n, dims |-> dims, k |-> "leaf", r |-> r, c |-> c, nz |-> nz, sym |-> sym, sub |-> NoDecl, ss |-> <<>>]
Node(n, dims, sub) == [n |-> n, dims |-> dims, k |-> "struct", r |-> 0, c |-> 0, nz |-> <<>>, sym |-> FALSE, sub |-> sub, ss |-> <<>>]
Dense(r, c) == [k \in 1..(r * c) |-> <<Mod(k - 1, r), (k - 1) \div r>>]
SubD == [entries |-> <<Leaf("q", <<>>, 2, 1, Dense(2, 1), FALSE), Leaf("a", <<2>>, 1, 1, Dense(1, 1), FALSE)>>, order |-> <<<<"q">>, <<"a">>>>]
D1 == [entries |-> <<Leaf("a", <<3>>, 2, 2, Dense(2, 2), FALSE), Leaf("m", <<>>, 2, 2, <<<<0, 0>>, <<0, 1>>, <<1, 1>>>>, TRUE)>>,
       order |-> <<<<"m">>, <<"a">>>>]
D2 == [entries |-> <<Leaf("a", <<2, 2>>, 1, 1, Dense(1, 1), FALSE), Node("m", <<2>>, SubD)>>, order |-> <<<<"a", "m">>>>]
D3 == [entries |-> <<Leaf("a", <<>>, 2, 3, <<<<0, 0>>, <<1, 1>>, <<0, 2>>, <<1, 2>>>>, FALSE), Node("m", <<>>, SubD)>>, order |-> <<<<"a">>, <<"m">>>>]
S3 == <<<<0, 0>>, <<0, 1>>, <<1, 1>>, <<0, 2>>, <<1, 2>>, <<2, 2>>>>
D4 == [entries |-> <<Leaf("a", <<>>, 3, 3, S3, TRUE), Leaf("m", <<2>>, 2, 2, <<<<0, 0>>, <<0, 1>>, <<1, 1>>>>, TRUE)>>, order |-> <<<<"m">>, <<"a">>>>]
SubS == [entries |-> <<Leaf("q", <<>>, 2, 2, <<<<0, 0>>, <<0, 1>>, <<1, 1>>>>, TRUE), Leaf("a", <<2>>, 1, 1, Dense(1, 1), FALSE)>>, order |-> <<<<"q", "a">>>>]
D5 == [entries |-> <<Leaf("a", <<>>, 3, 3, <<<<0, 0>>, <<1, 1>>, <<1, 2>>>>, TRUE), Node("m", <<2>>, SubS)>>, order |-> <<<<"a">>, <<"m">>>>]
Decls == IF Scope = "sym" THEN <<D4, D5>> ELSE <<D1, D2, D3>>
ASSUME PrintT("CASE " \o ToJson([decls |-> Decls]))

N(v) == [k |-> "n", v |-> v]
I(v) == [k |-> "i", v |-> v]
L_(v) == [k |-> "l", v |-> v]
F(v) == [k |-> "f", v |-> v]
Sl(ha, a, hb, b, hc, c) == [k |-> "s", ha |-> ha, a |-> a, hb |-> hb, b |-> b, hc |-> hc, c |-> c]
All == Sl(FALSE, 0, FALSE, 0, FALSE, 1)
Elems ==
    LET e1 == {N("a"), N("m"), N("q"), I(0), I(-1), All, L_(<<1, 0>>)}
        e2 == e1 \cup {I(1), Sl(TRUE, 1, FALSE, 0, FALSE, 1), [k |-> "e"], [k |-> "d"], [k |-> "nd"], [k |-> "ln", v |-> <<"m", "a">>]}
        e3 == e2 \cup {I(2), I(-3), Sl(FALSE, 0, FALSE, 0, TRUE, -1), Sl(FALSE, 0, TRUE, -1, FALSE, 1), [k |-> "set", v |-> <<"m">>], F("vcat"), F("rev"), F("T"), L_(<<>>), L_(<<-1>>), [k |-> "odd", v |-> "set of numbers"]}
    IN IF Level = 1 THEN e1 ELSE IF Level = 2 THEN e2 ELSE e3

Init == d \in 1..Len(Decls) /\ lay = LayoutOf(Decls[d]) /\ ix = <<>>
Next ==
    /\ Len(ix) < MaxLen
    /\ UNCHANGED <<d, lay>>
    (* an index that is refused because of its beginning is extended once more only *)
    /\ Len(ix) >= 2 => Address(lay, SubSeq(ix, 1, Len(ix) - 1), "full").t \notin {"exc"}
    /\ \E x \in Elems : ix' = Append(ix, x)
    /\ PrintT("CASE " \o ToJson([d |-> d, ix |-> ix']))
Spec == Init /\ [][Next]_vars

(* ---- laws ---- *)
RECURSIVE Nums(_)
Nums(x) == CASE x.t = "mat" -> {x.e[k] : k \in 1..Len(x.e)}
             [] x.t = "list" -> UNION {Nums(x.v[i]) : i \in 1..Len(x.v)}
             [] x.t = "dict" -> UNION {Nums(x.v[i].v) : i \in 1..Len(x.v)}
             [] OTHER -> {}
RECURSIVE WellShaped(_)
WellShaped(x) == CASE x.t = "mat" -> Len(x.e) = x.r * x.c
                   [] x.t = "list" -> \A i \in 1..Len(x.v) : WellShaped(x.v[i])
                   [] x.t = "dict" -> \A i \in 1..Len(x.v) : WellShaped(x.v[i].v)
                   [] OTHER -> TRUE
Laws ==
    Len(ix) > 0 =>
        LET L == lay
            a == Address(L, ix, "full")
            last == ix[Len(ix)]
            front == SubSeq(ix, 1, Len(ix) - 1)
            cat == [i \in 1..L.size |-> ToString(100 + i)]
        IN /\ Nums(a) \subseteq (-1)..(L.size - 1)
           /\ WellShaped(a)
           (* the index query names the same elements, up to the mirrored ones of symmetric entries *)
           /\ Nums(Address(L, ix, "stored")) \subseteq Nums(a) \cup {-1}
           (* a full slice over repetitions is the same as none *)
           /\ (last = All /\ Len(ix) = 2 /\ ix[1].k = "n" /\ Address(L, front, "full").t = "list") => TreeEq(a, Address(L, front, "full"))
           (* a dictionary holds what the names give *)
           /\ (ix[1].k \in {"d", "nd"} /\ Len(ix) = 1 /\ a.t = "dict") => \A i \in 1..Len(a.v) : TreeEq(a.v[i].v, Address(L, <<N(a.v[i].k)>> \o (IF ix[1].k = "nd" THEN ix ELSE <<>>), "full"))
           (* reading is picking from the flat vector *)
           /\ (a.t = "mat" /\ Nums(a) = 0..(L.size - 1)) => {Read(L, cat, ix).e[k] : k \in 1..Len(a.e)} = RangeOf(cat)
           (* assigning a scalar changes exactly the addressed elements *)
           /\ (a.t \in {"mat", "list", "dict"} /\ Len(ix) > 0 /\ \A j \in 1..Len(ix) : ix[j].k /= "f") =>
                  LET w == Write(L, cat, ix, [t |-> "num", v |-> "7"], "rel")
                  IN w.s = "any" \/ (w.s = "ok" /\ \A i \in 1..L.size : w.cat[i] = IF (i - 1) \in Nums(a) THEN "7" ELSE cat[i])
           (* what is refused for reading is refused for writing *)
           /\ (a.t = "exc" => Write(L, cat, ix, [t |-> "num", v |-> "7"], "rel").s \in {"exc", "any"})
(* a symmetric entry reads symmetric: the transposed position is the same element *)
Symmetric ==
    \A i \in 1..Len(lay.leaves) :
        LET f == lay.leaves[i] IN
        f.e.sym => \A r \in 0..(f.e.r - 1), c \in 0..(f.e.c - 1) : At(FullMat(f), r, c) = At(FullMat(f), c, r)
=============================================================================
