----------------------------- MODULE ViewModel -----------------------------
(* Every kind of view over two small structures and every short index into it. Checked against a direct
   definition by rows and columns; the indices are printed for replay. *)
EXTENDS View, Json

CONSTANTS MaxLen, Level

VARIABLES how, lay, ix
vars == <<how, lay, ix>>

Leaf(n, dims, r, c) == [n |-> n, dims |-> dims, k |-> "leaf", r |-> r, c |-> c, nz |-> DenseNz(r, c), sym |-> FALSE, sub |-> NoD, ss |-> <<>>]
A == [entries |-> <<Leaf("a", <<>>, 2, 1), Leaf("b", <<2>>, 1, 1)>>, order |-> <<<<"b">>, <<"a">>>>]
B == [entries |-> <<Leaf("x", <<>>, 1, 1), Leaf("b", <<>>, 1, 2)>>, order |-> <<<<"x">>, <<"b">>>>]
Cols(h) == CASE h = "repeated" -> 3 [] h = "squared" -> 4 [] h = "product" -> 3 [] h = "squared_repeated" -> 8
ASSUME PrintT("CASE " \o ToJson([decls |-> <<A, B>>]))

N(v) == [k |-> "n", v |-> v]
I(v) == [k |-> "i", v |-> v]
L_(v) == [k |-> "l", v |-> v]
Ln(v) == [k |-> "ln", v |-> v]
X(v, f) == [k |-> "x", v |-> v, flat |-> f]
All == AllSlice
Elems ==
    LET e1 == {N("a"), N("b"), N("x"), I(0), I(-1), All, Ln(<<"a", "b">>), X(<<N("b"), I(1)>>, TRUE)}
        e2 == e1 \cup {I(3), L_(<<1, 0>>), Ln(<<"b", "a">>), Ln(<<"b", "x">>), X(<<N("b")>>, TRUE), X(<<N("a"), I(1)>>, FALSE), [k |-> "d"], [k |-> "e"],
                       [AllSlice EXCEPT !.ha = TRUE, !.a = 1], [k |-> "f", v |-> "hcat"]}
    IN IF Level = 1 THEN e1 ELSE e2
Hows == {"repeated", "squared", "product", "squared_repeated"}
Init == how \in Hows /\ lay = ViewLayout(how, LayoutOf(A), LayoutOf(B), 4, Cols(how)) /\ ix = <<>>
Next ==
    /\ Len(ix) < MaxLen
    /\ UNCHANGED <<how, lay>>
    /\ Len(ix) >= 2 => Address(lay, ViewIx(SubSeq(ix, 1, Len(ix) - 1)), "full").t \notin {"exc"}
    /\ \E x \in Elems : ix' = Append(ix, x)
    /\ PrintT("CASE " \o ToJson([how |-> how, ix |-> ix']))
Spec == Init /\ [][Next]_vars

(* element (row, col) of the matrix *)
Elem(row, col) == col * 4 + row
Block(rows, cols) == Mat(Len(rows), Len(cols), [k \in 1..(Len(rows) * Len(cols)) |-> Elem(rows[Mod(k - 1, Len(rows)) + 1], cols[(k - 1) \div Len(rows) + 1])])
RowsA(n) == IF n = "b" THEN <<0, 1>> ELSE <<2, 3>>
ColsB(n) == IF n = "x" THEN <<0>> ELSE <<1, 2>>
Laws ==
    LET a == Address(lay, ViewIx(ix), "full") IN
    /\ lay.size = 4 * Cols(how)
    (* columns *)
    /\ (how = "repeated" /\ Len(ix) >= 1) => ((ix[1] = I(0)) =>
          /\ Len(ix) = 1 => a = Block(<<0, 1, 2, 3>>, <<0>>)
          /\ (Len(ix) = 2 /\ ix[2] = N("a")) => a = Block(RowsA("a"), <<0>>)
          /\ (Len(ix) = 2 /\ ix[2] = N("b")) => a.t = "list" /\ a.v[2] = Block(<<1>>, <<0>>))
    (* blocks *)
    /\ (how = "squared" /\ Len(ix) = 2) => ((ix[1].k = "n" /\ ix[2].k = "n" /\ ix[1].v \in {"a", "b"} /\ ix[2].v \in {"a", "b"}) => a = Block(RowsA(ix[1].v), RowsA(ix[2].v)))
    /\ (how = "product" /\ Len(ix) = 2) => ((ix[1].k = "n" /\ ix[2].k = "n" /\ ix[1].v \in {"a", "b"} /\ ix[2].v \in {"x", "b"}) => a = Block(RowsA(ix[1].v), ColsB(ix[2].v)))
    /\ (how = "product" /\ Len(ix) = 2) => ((ix[1] = All /\ ix[2].k = "n" /\ ix[2].v \in {"x", "b"}) => a = Block(<<0, 1, 2, 3>>, ColsB(ix[2].v)))
    /\ (how = "product" /\ Len(ix) = 2) => ((ix[1].k = "n" /\ (ix[1].v = "x" \/ ix[2] = N("a"))) => a = Exc)
    /\ (how = "squared_repeated" /\ Len(ix) = 3) => ((ix[1] = I(-1) /\ ix[2].k = "n" /\ ix[3].k = "n" /\ ix[2].v \in {"a", "b"} /\ ix[3].v \in {"a", "b"}) =>
          a = Block(RowsA(ix[2].v), [j \in 1..2 |-> RowsA(ix[3].v)[j] + 4]))
    (* the whole *)
    /\ (ix = <<>> /\ how \in {"squared", "product"}) => a = Block(<<0, 1, 2, 3>>, [j \in 1..Cols(how) |-> j - 1])
    /\ (ix = <<>> /\ how = "repeated") => a = ListOf([j \in 1..3 |-> Block(<<0, 1, 2, 3>>, <<j - 1>>)])
    /\ (ix = <<>> /\ how = "squared_repeated") => a = ListOf([j \in 1..2 |-> Block(<<0, 1, 2, 3>>, [k \in 1..4 |-> (j - 1) * 4 + k - 1])])
=============================================================================
