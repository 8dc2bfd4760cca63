------------------------------- MODULE Layout -------------------------------
(* How a structure declaration numbers its stored elements.

   Declaration  [entries |-> Seq(Entry), order |-> Seq(Seq(name))]
                order lists the groups; an ungrouped entry is a group of one.
   Entry        [n |-> name, dims |-> Seq(Nat), k |-> "leaf" | "struct",
                 r, c |-> shape, nz |-> Seq(<<row, col>>) stored positions column by column,
                 sym |-> BOOLEAN, sub |-> Declaration,
                 ss |-> <<>> or <<rows, columns>>, each [has |-> BOOLEAN, d |-> Declaration]:
                        structures that name the rows and columns of the matrix]
   Path         Seq(STRING): names and repetition numbers ("#0", "#1", ...) *)
EXTENDS Util

Num(i) == "#" \o ToString(i)

EntryOf(d, name) == d.entries[CHOOSE i \in 1..Len(d.entries) : d.entries[i].n = name]
HasEntry(d, name) == \E i \in 1..Len(d.entries) : d.entries[i].n = name
Keys(d) == FlattenSeq(d.order)

(* Well-formedness of a declaration: distinct names, the order mentions exactly the entries *)
RECURSIVE DeclOK(_)
DeclOK(d) ==
    /\ \A i, j \in 1..Len(d.entries) : i /= j => d.entries[i].n /= d.entries[j].n
    /\ \A i \in 1..Len(d.order) : \A j \in 1..Len(d.order[i]) : HasEntry(d, d.order[i][j])
    /\ \A i \in 1..Len(d.entries) : d.entries[i].k = "struct" => DeclOK(d.entries[i].sub)

RECURSIVE Leaves(_, _), Reps(_, _, _)

(* leaves of one instance of entry e located at path p *)
Inst(e, p) == IF e.k = "leaf" THEN <<[p |-> p, e |-> e]>> ELSE Leaves(e.sub, p)

(* leaves of all instances over the repetition dimensions, row-major *)
Reps(e, dims, p) ==
    IF dims = <<>> THEN Inst(e, p)
    ELSE Cat(dims[1], LAMBDA i : Reps(e, Tail(dims), Append(p, Num(i - 1))))

(* a group: one outer repetition of each member in turn, until all are exhausted *)
Outer(e) == IF e.dims = <<>> THEN 1 ELSE e.dims[1]
OuterLeaves(e, i, p) ==
    IF i > Outer(e) THEN <<>>
    ELSE IF e.dims = <<>> THEN Inst(e, Append(p, e.n))
    ELSE Reps(e, Tail(e.dims), p \o <<e.n, Num(i - 1)>>)
GroupLeaves(d, g, p) ==
    LET m == MaxOf({0} \cup {Outer(EntryOf(d, g[j])) : j \in 1..Len(g)})
    IN Cat(m, LAMBDA i : Cat(Len(g), LAMBDA j : OuterLeaves(EntryOf(d, g[j]), i, p)))

Leaves(d, p) == Cat(Len(d.order), LAMBDA i : GroupLeaves(d, d.order[i], p))

(* the layout proper: leaves in order, with the number of their first element *)
LayoutOf(d) ==
    LET lv == TLCEval(Leaves(d, <<>>))
        offs == TLCEval(FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + Len(x.e.nz)), <<0>>, lv))
    IN TLCEval([decl |-> d,
                leaves |-> [i \in 1..Len(lv) |-> [p |-> lv[i].p, e |-> lv[i].e, s |-> offs[i]]],
                size |-> offs[Len(offs)]])

(* the slot sequence: which element number i-1 is *)
Slots(L) ==
    TLCEval(Cat(Len(L.leaves), LAMBDA i :
        LET f == L.leaves[i] IN
        [k \in 1..Len(f.e.nz) |-> [p |-> f.p, k |-> k - 1, row |-> f.e.nz[k][1], col |-> f.e.nz[k][2], s |-> f.s + k - 1]]))

HasLeaf(L, p) == \E i \in 1..Len(L.leaves) : L.leaves[i].p = p
LeafAt(L, p) == L.leaves[CHOOSE i \in 1..Len(L.leaves) : L.leaves[i].p = p]

(* element numbers below a path, in order *)
Under(L, p) ==
    Cat(Len(L.leaves), LAMBDA i :
        LET f == L.leaves[i] IN
        IF IsPrefixOf(p, f.p) THEN [k \in 1..Len(f.e.nz) |-> f.s + k - 1] ELSE <<>>)

(* index matrix of a leaf, column by column; -1 where nothing is stored *)
StoredAt(f, row, col) ==
    LET m == {k \in 1..Len(f.e.nz) : f.e.nz[k] = <<row, col>>}
    IN IF m = {} THEN -1 ELSE f.s + (CHOOSE k \in m : TRUE) - 1
StoredMat(f) ==
    [t |-> "mat", r |-> f.e.r, c |-> f.e.c,
     e |-> [k \in 1..(f.e.r * f.e.c) |-> StoredAt(f, Mod(k - 1, f.e.r), (k - 1) \div f.e.r)]]
(* the same with the mirrored triangle filled in for symmetric entries *)
FullMat(f) ==
    IF ~f.e.sym THEN StoredMat(f)
    ELSE [t |-> "mat", r |-> f.e.r, c |-> f.e.c,
          e |-> [k \in 1..(f.e.r * f.e.c) |->
                    LET row == Mod(k - 1, f.e.r)
                        col == (k - 1) \div f.e.r
                    IN IF row <= col THEN StoredAt(f, row, col) ELSE StoredAt(f, col, row)]]

(* Properties of the layout, checked by StructModel *)
Bijective(L) ==
    LET sl == Slots(L) IN
    /\ Len(sl) = L.size
    /\ \A i \in 1..Len(sl) : sl[i].s = i - 1
    /\ \A i, j \in 1..Len(sl) : (sl[i].p = sl[j].p /\ sl[i].k = sl[j].k) => i = j
Lookups(L) ==
    \A i \in 1..Len(L.leaves) :
        LET f == L.leaves[i] IN
        /\ LeafAt(L, f.p) = f
        /\ Under(L, f.p) = [k \in 1..Len(f.e.nz) |-> f.s + k - 1]
        /\ \A k \in 1..Len(f.e.nz) : StoredAt(f, f.e.nz[k][1], f.e.nz[k][2]) = f.s + k - 1
=============================================================================
