-------------------------------- MODULE View --------------------------------
(* A matrix seen through structures. A view is a container over a derived declaration with the single entry "t";
   its flat vector is the matrix, column by column.

   repeated           size(d) x n:       column i is an instance of d
   squared            size(d) x size(d): rows and columns are named by d
   product            size(d) x size(e): rows are named by d, columns by e
   squared_repeated   size(d) x n size(d): n square blocks side by side *)
EXTENDS Store

NoD == [entries |-> <<>>, order |-> <<>>]
DenseNz(r, c) == [k \in 1..(r * c) |-> <<Mod(k - 1, r), (k - 1) \div r>>]
Named(d) == [has |-> TRUE, d |-> d]
ViewEntry(how, L, M, r, c) ==
    CASE how = "repeated" -> [n |-> "t", dims |-> <<c>>, k |-> "struct", r |-> 0, c |-> 0, nz |-> <<>>, sym |-> FALSE, sub |-> L.decl, ss |-> <<>>]
      [] how = "squared" -> [n |-> "t", dims |-> <<>>, k |-> "leaf", r |-> L.size, c |-> L.size, nz |-> DenseNz(L.size, L.size), sym |-> FALSE,
                             sub |-> NoD, ss |-> <<Named(L.decl), Named(L.decl)>>]
      [] how = "product" -> [n |-> "t", dims |-> <<>>, k |-> "leaf", r |-> L.size, c |-> M.size, nz |-> DenseNz(L.size, M.size), sym |-> FALSE,
                             sub |-> NoD, ss |-> <<Named(L.decl), Named(M.decl)>>]
      [] how = "squared_repeated" -> [n |-> "t", dims |-> <<c \div L.size>>, k |-> "leaf", r |-> L.size, c |-> L.size, nz |-> DenseNz(L.size, L.size), sym |-> FALSE,
                                      sub |-> NoD, ss |-> <<Named(L.decl), Named(L.decl)>>]
ViewLayout(how, L, M, r, c) == LayoutOf([entries |-> <<ViewEntry(how, L, M, r, c)>>, order |-> <<<<"t">>>>])

(* "ok", "exc" (wrong size) or "any"; the columns of a squared view are M.size = L.size *)
ViewFits(how, L, M, r, c) ==
    CASE L.size = 0 \/ M.size = 0 \/ r * c = 0 -> "any"
      [] how = "repeated" -> (IF r = L.size THEN "ok" ELSE "exc")
      [] how \in {"squared", "product"} ->
            (LET cols == IF how = "squared" THEN L.size ELSE M.size IN
             IF r = 1 /\ c = 1 /\ L.size /= 1 THEN "ok"
             ELSE IF r = L.size /\ c = cols THEN "ok"
             ELSE IF how = "product" /\ r = 1 /\ c = 1 THEN "any"
             ELSE "exc")
      [] how = "squared_repeated" -> (IF r = L.size /\ Mod(c, L.size) = 0 THEN "ok" ELSE "exc")
(* the matrix behind the view: a scalar fills a block matrix *)
ViewData(how, L, M, a) ==
    IF how \in {"squared", "product"} /\ a.r = 1 /\ a.c = 1
    THEN [k \in 1..(L.size * (IF how = "squared" THEN L.size ELSE M.size)) |-> a.e[1]]
    ELSE a.e
ViewIx(ix) == <<[k |-> "n", v |-> "t"]>> \o ix
=============================================================================
