----------------------------- MODULE LayoutModel -----------------------------
(* Builds every declaration of a small scope entry by entry, closes it with every ordering and grouping,
   checks laws of the layout that are stated independently of its definition, and prints the declarations. *)
EXTENDS Layout, Json

CONSTANTS MaxEntries,   \* entries per declaration
          Level         \* how many kinds of entries: 1 few, 2 more, 3 all

VARIABLES entries, order, done
vars == <<entries, order, done>>

NoDecl == [entries |-> <<>>, order |-> <<>>]
Leaf(n, dims, r, c, nz, sym) == [n |-> n, dims |-> dims, k |-> "leaf", r |-> r, c |-> c, nz |-> nz, sym |-> sym, sub |-> NoDecl, ss |-> <<>>]
Node(n, dims, sub) == [n |-> n, dims |-> dims, k |-> "struct", r |-> 0, c |-> 0, nz |-> <<>>, sym |-> FALSE, sub |-> sub, ss |-> <<>>]

Dense(r, c) == [k \in 1..(r * c) |-> <<Mod(k - 1, r), (k - 1) \div r>>]
Scalar(dims) == Leaf("?", dims, 1, 1, Dense(1, 1), FALSE)
Col(dims) == Leaf("?", dims, 2, 1, Dense(2, 1), FALSE)
Row(dims) == Leaf("?", dims, 1, 2, Dense(1, 2), FALSE)
Rect(dims) == Leaf("?", dims, 2, 3, Dense(2, 3), FALSE)
Diag(dims) == Leaf("?", dims, 2, 2, <<<<0, 0>>, <<1, 1>>>>, FALSE)
Low(dims) == Leaf("?", dims, 3, 2, <<<<2, 0>>, <<0, 1>>, <<1, 1>>>>, FALSE)
Symm(dims) == Leaf("?", dims, 2, 2, <<<<0, 0>>, <<0, 1>>, <<1, 1>>>>, TRUE)
Symm3(dims) == Leaf("?", dims, 3, 3, <<<<0, 0>>, <<0, 1>>, <<1, 1>>, <<0, 2>>, <<1, 2>>, <<2, 2>>>>, TRUE)
Sub1 == [entries |-> <<[Scalar(<<>>) EXCEPT !.n = "p"], [Col(<<2>>) EXCEPT !.n = "q"]>>, order |-> <<<<"p">>, <<"q">>>>]
Sub2 == [entries |-> <<[Scalar(<<3>>) EXCEPT !.n = "p"], [Row(<<2>>) EXCEPT !.n = "q"]>>, order |-> <<<<"q", "p">>>>]
Sub3 == [entries |-> <<[Symm(<<>>) EXCEPT !.n = "a"], [Node("?", <<2>>, Sub2) EXCEPT !.n = "b"]>>, order |-> <<<<"a">>, <<"b">>>>]

Kinds ==
    LET k1 == {Scalar(<<>>), Col(<<2>>), Rect(<<>>), Node("?", <<2>>, Sub1)}
        k2 == k1 \cup {Scalar(<<3>>), Col(<<2, 2>>), Diag(<<2>>), Symm(<<>>), Node("?", <<>>, Sub2), Row(<<1>>), Symm(<<2>>)}
        k3 == k2 \cup {f : f \in {Scalar(<<2, 3>>), Row(<<3>>), Rect(<<3, 2>>), Low(<<>>), Low(<<2>>), Symm3(<<>>), Node("?", <<2, 2>>, Sub1),
                                  Node("?", <<3>>, Sub2), Node("?", <<>>, Sub3), Node("?", <<2>>, Sub3), Col(<<>>), Scalar(<<1, 1, 2>>)}}
    IN IF Level = 0 THEN {Scalar(<<>>), Col(<<2>>), Node("?", <<2>>, Sub1)} ELSE IF Level = 1 THEN k1 ELSE IF Level = 2 THEN k2 ELSE k3
Names == <<"b", "a", "c", "d">>

(* all ways to cut a sequence into consecutive groups *)
RECURSIVE Cuts(_)
Cuts(s) == IF Len(s) = 0 THEN {<<>>}
           ELSE UNION {{<<SubSeq(s, 1, k)>> \o t : t \in Cuts(SubSeq(s, k + 1, Len(s)))} : k \in 1..Len(s)}
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i /= j => p[i] /= p[j]}
Orders(es) == UNION {Cuts([i \in 1..Len(es) |-> es[p[i]].n]) : p \in Perms(Len(es))}

Decl == [entries |-> entries, order |-> order]

Init == entries = <<>> /\ order = <<>> /\ done = FALSE
AddEntry ==
    /\ ~done /\ Len(entries) < MaxEntries
    /\ \E k \in Kinds : entries' = Append(entries, [k EXCEPT !.n = Names[Len(entries) + 1]])
    /\ UNCHANGED <<order, done>>
Close ==
    /\ ~done /\ Len(entries) > 0
    /\ order' \in Orders(entries)
    /\ done' = TRUE
    /\ UNCHANGED entries
    /\ PrintT("CASE " \o ToJson([entries |-> entries, order |-> order']))
Next == AddEntry \/ Close
Spec == Init /\ [][Next]_vars

(* ---- laws ---- *)
RECURSIVE SizeOf(_)
Prod(s) == FoldSeq(LAMBDA x, a : x * a, 1, s)
SizeOf(d) == SumInts([i \in 1..Len(d.entries) |->
                 Prod(d.entries[i].dims) * (IF d.entries[i].k = "leaf" THEN Len(d.entries[i].nz) ELSE SizeOf(d.entries[i].sub))])

GroupNo(name) == CHOOSE g \in 1..Len(order) : \E j \in 1..Len(order[g]) : order[g][j] = name
PosIn(g, name) == CHOOSE j \in 1..Len(order[g]) : order[g][j] = name
OuterNo(p) == IF Len(EntryOf(Decl, p[1]).dims) = 0 THEN 0 ELSE CHOOSE i \in 0..20 : Num(i) = p[2]
(* where a leaf belongs: group, outer repetition, place in the group *)
Before(p, q) ==
    LET g == GroupNo(p[1])
        h == GroupNo(q[1])
    IN \/ g < h
       \/ g = h /\ OuterNo(p) < OuterNo(q)
       \/ g = h /\ OuterNo(p) = OuterNo(q) /\ PosIn(g, p[1]) < PosIn(g, q[1])

Laws ==
    done =>
        LET L == LayoutOf(Decl)
            sl == Slots(L)
        IN /\ DeclOK(Decl)
           /\ Bijective(L)
           /\ Lookups(L)
           /\ L.size = SizeOf(Decl)
           /\ \A i, j \in 1..Len(L.leaves) : Before(L.leaves[i].p, L.leaves[j].p) => L.leaves[i].s < L.leaves[j].s
           (* within a matrix: column by column *)
           /\ \A i \in 1..(Len(sl) - 1) : sl[i].p = sl[i + 1].p =>
                  (sl[i].col < sl[i + 1].col \/ (sl[i].col = sl[i + 1].col /\ sl[i].row < sl[i + 1].row))
           (* the same leaf of a nested structure or later repetition keeps its distance from its instance's start *)
           /\ \A i \in 1..Len(L.leaves) : Len(Under(L, L.leaves[i].p)) = Len(L.leaves[i].e.nz)
=============================================================================
