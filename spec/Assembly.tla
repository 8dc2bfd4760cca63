------------------------------ MODULE Assembly ------------------------------
(* Structures built from expressions.

   An ingredient is [n |-> name, how |-> "expr" | "sym" | "plain", e |-> tree, has |-> BOOLEAN, sub |-> declaration, pe |-> entry]
   with tree [t |-> "mat", r, c, nz, e] or a nested list of such; sub (if has) names the elements of the column
   vectors in the tree; pe is the entry of a "plain" ingredient.

   Kinds   exSX, exMXm  a mutable vector; assigning is the assignment of module Store
           exMX         one expression per slot, each replaced as a whole; a slot may still be empty ("missing")
           symSX        symbols, some of them supplied *)
EXTENDS Store

RECURSIVE DimsOf(_), FirstLeaf(_), Regular(_, _, _)
DimsOf(x) == IF x.t = "list" THEN <<Len(x.v)>> \o DimsOf(x.v[1]) ELSE <<>>
FirstLeaf(x) == IF x.t = "list" THEN FirstLeaf(x.v[1]) ELSE x
(* every list as long as the first of its depth, every matrix of the shape of the first *)
Regular(x, dims, f) ==
    IF Len(dims) = 0 THEN x.t = "mat" /\ x.r = f.r /\ x.c = f.c /\ x.nz = f.nz
    ELSE x.t = "list" /\ Len(x.v) = dims[1] /\ \A i \in 1..Len(x.v) : Regular(x.v[i], Tail(dims), f)
(* a list that is too short or nested too shallow cannot be distributed *)
RECURSIVE TooShort(_, _)
TooShort(x, dims) == /\ Len(dims) > 0 /\ x.t = "list"
                     /\ (Len(x.v) < dims[1] \/ \E i \in 1..Min2(dims[1], Len(x.v)) : TooShort(x.v[i], Tail(dims)))

EntryFrom(g) ==
    IF g.how = "plain" THEN g.pe
    ELSE LET f == FirstLeaf(g.e)
             base == [n |-> g.n, dims |-> DimsOf(g.e), k |-> "leaf", r |-> f.r, c |-> f.c, nz |-> f.nz, sym |-> FALSE,
                      sub |-> [entries |-> <<>>, order |-> <<>>], ss |-> <<>>]
         IN IF g.has THEN [base EXCEPT !.k = "struct", !.r = 0, !.c = 0, !.nz = <<>>, !.sub = g.sub] ELSE base
DeclFrom(ings, order) == [entries |-> [i \in 1..Len(ings) |-> EntryFrom(ings[i])], order |-> order]

(* outcome of the construction *)
AsmFits(kind, ings) ==
    LET one(g) == IF g.how = "plain" THEN "ok"
                  ELSE LET dims == DimsOf(g.e)
                           f == FirstLeaf(g.e)
                       IN IF g.has /\ (f.c /= 1 \/ f.r /= LayoutOf(g.sub).size) THEN (IF f.r = 1 /\ f.c = 1 THEN "any" ELSE "exc")
                          ELSE IF Regular(g.e, dims, f) THEN "ok"
                          ELSE IF TooShort(g.e, dims) THEN "exc"
                          ELSE "any"
        all == {one(ings[i]) : i \in 1..Len(ings)}
    IN IF "any" \in all THEN "any" ELSE IF "exc" \in all THEN "exc" ELSE "ok"

Blank(L, kind) == [i \in 1..L.size |-> IF kind = "exMX" THEN "missing" ELSE "nan"]
ModeOf(kind) == IF kind = "exMX" THEN "vec" ELSE "rel"
Assembled(L, kind, ings) ==
    Thread(Len(ings), OK(Blank(L, kind), 0),
           LAMBDA i, c : IF ings[i].how = "plain" THEN OK(c, 0) ELSE Write(L, c, <<[k |-> "n", v |-> ings[i].n]>>, ings[i].e, ModeOf(kind)))

(* the vector, as it can be seen from outside *)
Refused == <<"refused">>
Incomplete(cat) == \E i \in 1..Len(cat) : cat[i] = "missing"
Shown(cat) == IF Incomplete(cat) THEN Refused ELSE cat
=============================================================================
