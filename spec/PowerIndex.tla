----------------------------- MODULE PowerIndex -----------------------------
(* What a structured index addresses.

   Index element  [k |-> "n", v |-> name]              entry name
                  [k |-> "i", v |-> Int]               integer
                  [k |-> "s", ha, a, hb, b, hc, c]     slice
                  [k |-> "l", v |-> Seq(Int)]          list of integers
                  [k |-> "e"]                          all entries (...)
                  [k |-> "d"]                          all entries as dictionary ({})
                  [k |-> "set", v |-> Seq(name)]       some entries as dictionary
                  [k |-> "odd", v |-> what]            something that is never an index above the matrix level:
                                                       a fraction, a tuple, nothing, bytes, a set of numbers, an object
                  [k |-> "nd"]                         nested dictionaries all the way down
                  [k |-> "ln", v |-> Seq(name)]        list of names
                  [k |-> "f", v |-> function name]     callable applied to the rest
                  [k |-> "x", v |-> Seq(index element), flat |-> BOOLEAN]   delayed index into the shape structure
   Result tree    [t |-> "mat", r, c, e |-> Seq]       e column by column
                  [t |-> "list", v |-> Seq(tree)]
                  [t |-> "dict", v |-> Seq([k, v])]
                  [t |-> "exc"]                        refused
                  [t |-> "any"]                        not specified *)
EXTENDS Layout

Exc == [t |-> "exc"]
Unsp == [t |-> "any"]
Mat(r, c, e) == [t |-> "mat", r |-> r, c |-> c, e |-> e]
IsErr(x) == x.t \in {"exc", "any"}

(* a sequence of trees as list; refused beats unspecified beats value *)
ListOf(v) ==
    IF \E i \in 1..Len(v) : v[i].t = "exc" THEN Exc
    ELSE IF \E i \in 1..Len(v) : v[i].t = "any" THEN Unsp
    ELSE [t |-> "list", v |-> v]
DictOf(ks, vs) ==
    LET l == ListOf(vs) IN
    IF IsErr(l) THEN l ELSE [t |-> "dict", v |-> [i \in 1..Len(ks) |-> [k |-> ks[i], v |-> vs[i]]]]

(* ---- matrix level: one or two indices into a matrix, as the matrix library does it ---- *)
Norm(i, n) == IF i < 0 THEN i + n ELSE i
(* positions selected by x in 0..n-1; <<-1>> means refused, <<-2>> means not specified *)
Positions(x, n) ==
    CASE x.k = "i" -> (IF Norm(x.v, n) \in 0..(n - 1) THEN <<Norm(x.v, n)>> ELSE <<-1>>)
      [] x.k = "l" -> (IF \A j \in 1..Len(x.v) : Norm(x.v[j], n) \in 0..(n - 1)
                       THEN [j \in 1..Len(x.v) |-> Norm(x.v[j], n)] ELSE <<-1>>)
      [] x.k = "s" -> (IF (x.ha => (x.a >= -n /\ x.a <= n)) /\ (x.hb => (x.b >= -n /\ x.b <= n)) /\ (x.hc => (x.c = 1 \/ (x.c > 0 /\ ~x.hb)))
                          (* for the matrix library -1:0 is the last element *)
                          /\ ~(x.ha /\ x.a < 0 /\ x.hb /\ x.b = 0)
                       THEN SliceIdx(x, n) ELSE <<-2>>)
      [] x.k = "n" -> <<-1>>
      [] OTHER -> <<-2>>
At(m, row, col) == m.e[col * m.r + row + 1]

MatIndex(m, extra) ==
    IF Len(extra) = 0 THEN m
    ELSE IF extra[1].k = "nd" THEN m
    ELSE IF Len(extra) > 2 THEN (IF \E j \in 1..Len(extra) : extra[j].k = "f" THEN Unsp ELSE Exc)
    ELSE IF Len(extra) = 1 THEN
        LET p == Positions(extra[1], m.r * m.c) IN
        IF p = <<-1>> THEN Exc
        ELSE IF p = <<-2>> THEN Unsp
        ELSE IF extra[1].k = "i" THEN Mat(1, 1, <<m.e[p[1] + 1]>>)
        ELSE IF m.r = 1 /\ m.c = 1 /\ Len(p) /= 1 THEN Unsp
        ELSE IF m.r * m.c = 0 \/ Len(p) = 0 THEN Unsp
        ELSE IF m.r = 1 /\ m.c > 1 THEN Mat(1, Len(p), [j \in 1..Len(p) |-> m.e[p[j] + 1]])
        ELSE Mat(Len(p), 1, [j \in 1..Len(p) |-> m.e[p[j] + 1]])
    ELSE
        LET p == Positions(extra[1], m.r)
            q == Positions(extra[2], m.c)
        IN IF p = <<-1>> \/ q = <<-1>> THEN Exc
           ELSE IF p = <<-2>> \/ q = <<-2>> THEN Unsp
           ELSE Mat(Len(p), Len(q),
                    [k \in 1..(Len(p) * Len(q)) |-> At(m, p[Mod(k - 1, Len(p)) + 1], q[(k - 1) \div Len(p) + 1])])

Transpose(m) == Mat(m.c, m.r, [k \in 1..(m.r * m.c) |-> At(m, (k - 1) \div m.c, Mod(k - 1, m.c))])
VCat(v) ==
    IF Len(v) = 0 \/ \E i \in 1..Len(v) : v[i].t /= "mat" THEN Unsp
    ELSE IF \E i \in 1..Len(v) : v[i].c /= v[1].c THEN
        (IF \E i \in 1..Len(v) : v[i].r * v[i].c = 0 THEN Unsp ELSE Exc)
    ELSE LET r == SumInts([i \in 1..Len(v) |-> v[i].r])
         IN Mat(r, v[1].c, Cat(v[1].c, LAMBDA col : Cat(Len(v), LAMBDA i : SubSeq(v[i].e, (col - 1) * v[i].r + 1, col * v[i].r))))
HCat(v) ==
    IF Len(v) = 0 \/ \E i \in 1..Len(v) : v[i].t /= "mat" THEN Unsp
    ELSE IF \E i \in 1..Len(v) : v[i].r /= v[1].r THEN
        (IF \E i \in 1..Len(v) : v[i].r * v[i].c = 0 THEN Unsp ELSE Exc)
    ELSE Mat(v[1].r, SumInts([i \in 1..Len(v) |-> v[i].c]), Cat(Len(v), LAMBDA i : v[i].e))

(* the callables used in traces *)
Fun(f, x) ==
    IF IsErr(x) THEN x
    ELSE CASE f = "id" -> x
           [] f = "vcat" -> (IF x.t = "list" THEN VCat(x.v) ELSE Unsp)
           [] f = "hcat" -> (IF x.t = "list" THEN HCat(x.v) ELSE Unsp)
           [] f = "rev" -> (IF x.t = "list" THEN [t |-> "list", v |-> Rev(x.v)] ELSE Unsp)
           [] f = "first" -> (IF x.t = "list" THEN (IF Len(x.v) = 0 THEN Exc ELSE x.v[1]) ELSE Unsp)
           [] f = "T" -> (IF x.t = "mat" THEN Transpose(x) ELSE Unsp)
           [] OTHER -> Unsp

(* ---- structure level ---- *)
(* mode "full": symmetric entries read as full matrices; mode "stored": index queries *)
RECURSIVE InStruct(_, _, _, _, _), InEntry(_, _, _, _, _, _), InLeaf(_, _, _), Flat(_)

(* flat list of element numbers (lists concatenated); dictionaries and places where nothing is stored: <<-2>> *)
Flat(x) ==
    CASE x.t = "mat" -> (IF \E k \in 1..Len(x.e) : x.e[k] = -1 THEN <<-2>> ELSE x.e)
      [] x.t = "list" -> (LET v == [i \in 1..Len(x.v) |-> Flat(x.v[i])]
                          IN IF \E i \in 1..Len(v) : v[i] = <<-2>> THEN <<-2>> ELSE FlattenSeq(v))
      [] x.t = "exc" -> <<-1>>
      [] OTHER -> <<-2>>

(* an index into dimension k of a leaf whose shape is given by structures: names and delayed indices
   become lists of element numbers of that structure *)
Resolve(e, x, k) ==
    IF x.k \notin {"n", "ln", "x"} THEN x
    ELSE IF Len(e.ss) = 0 THEN [k |-> "bad"]
    ELSE IF ~e.ss[k].has THEN [k |-> "bad"]
    ELSE LET ix == IF x.k = "x" THEN x.v ELSE <<x>>
             a == InStruct(LayoutOf(e.ss[k].d), e.ss[k].d, ix, <<>>, "stored")
             v == Flat(a)
         IN IF v = <<-1>> THEN [k |-> "bad"]
            ELSE IF v = <<-2>> \/ v = <<>> THEN [k |-> "unknown"]
            ELSE IF x.k = "x" /\ ~x.flat /\ (a.t /= "mat") THEN [k |-> "unknown"]
            ELSE IF x.k = "x" /\ ~x.flat /\ (a.r > 1 /\ a.c > 1) THEN [k |-> "unknown"]
            ELSE [k |-> "l", v |-> v]

InLeaf(e, m, ix) ==
    IF Len(ix) = 0 THEN m
    ELSE IF ix[1].k = "f" THEN Fun(ix[1].v, InLeaf(e, m, Tail(ix)))
    ELSE IF ix[1].k = "nd" THEN (IF Len(ix) = 1 THEN m ELSE Unsp)
    ELSE IF Len(ix) > 2 THEN MatIndex(m, ix)
    ELSE LET y == [j \in 1..Len(ix) |-> Resolve(e, ix[j], j)] IN
         IF \E j \in 1..Len(y) : y[j].k = "bad" THEN Exc ELSE MatIndex(m, y)

AllSlice == [k |-> "s", ha |-> FALSE, a |-> 0, hb |-> FALSE, b |-> 0, hc |-> FALSE, c |-> 1]

(* entry e of declaration level, remaining dims, at path p *)
InEntry(L, e, dims, ix, p, mode) ==
    IF Len(ix) = 0 /\ Len(dims) > 0 THEN
        InEntry(L, e, dims, [i \in 1..Len(dims) |-> AllSlice], p, mode)
    ELSE IF Len(dims) = 0 THEN
        (IF e.k = "leaf" THEN
            (IF ~HasLeaf(L, p) THEN Exc
             ELSE InLeaf(e, IF mode = "full" THEN FullMat(LeafAt(L, p)) ELSE StoredMat(LeafAt(L, p)), ix))
         ELSE IF Len(ix) = 0 THEN
            (LET u == Under(L, p) IN IF u = <<>> THEN (IF LayoutOf(e.sub).size = 0 THEN Unsp ELSE Exc) ELSE Mat(Len(u), 1, u))
         ELSE InStruct(L, e.sub, ix, p, mode))
    ELSE
        LET x == ix[1]
            n == dims[1]
            at(i) == InEntry(L, e, Tail(dims), Tail(ix), Append(p, Num(Norm(i, n))), mode)
            (* out of range is refused, unless the rest of the index selects nothing *)
            sub(i) == IF Norm(i, n) \in 0..(n - 1) THEN at(i)
                      ELSE IF Len(ix) = 1 \/ at(i).t = "exc" THEN Exc ELSE Unsp
            all(v) == ListOf([j \in 1..Len(v) |-> sub(v[j])])
        IN CASE x.k = "i" -> sub(x.v)
             [] x.k = "s" -> (IF x.hc /\ x.c = 0 THEN Exc ELSE all(SliceIdx(x, n)))
             [] x.k = "l" -> all(x.v)
             [] x.k = "ln" -> (IF Len(x.v) = 0 THEN all(<<>>) ELSE Exc)
             [] x.k \in {"d", "set", "n", "e", "odd"} -> Exc
             [] x.k = "nd" -> ListOf([i \in 1..n |-> InEntry(L, e, Tail(dims), <<x>>, Append(p, Num(i - 1)), mode)])
             [] x.k = "f" -> Fun(x.v, InEntry(L, e, dims, Tail(ix), p, mode))
             [] OTHER -> Unsp

InStruct(L, d, ix, p, mode) ==
    IF Len(ix) = 0 THEN (IF Under(L, p) = <<>> \/ p = <<>> THEN Unsp ELSE Mat(Len(Under(L, p)), 1, Under(L, p)))
    ELSE
        LET x == ix[1]
            named(k, rest) == IF HasEntry(d, k) THEN InEntry(L, EntryOf(d, k), EntryOf(d, k).dims, rest, Append(p, k), mode) ELSE Exc
        IN CASE x.k = "n" -> named(x.v, Tail(ix))
             [] x.k = "e" -> ListOf([i \in 1..Len(Keys(d)) |-> named(Keys(d)[i], Tail(ix))])
             [] x.k = "d" -> DictOf(Keys(d), [i \in 1..Len(Keys(d)) |-> named(Keys(d)[i], Tail(ix))])
             [] x.k = "nd" -> DictOf(Keys(d), [i \in 1..Len(Keys(d)) |-> named(Keys(d)[i], <<x>>)])
             [] x.k = "set" -> DictOf(x.v, [i \in 1..Len(x.v) |-> named(x.v[i], Tail(ix))])
             [] x.k = "ln" -> ListOf([i \in 1..Len(x.v) |-> named(x.v[i], Tail(ix))])
             [] x.k = "f" -> Fun(x.v, InStruct(L, d, Tail(ix), p, mode))
             [] x.k = "l" -> (IF Len(x.v) = 0 THEN ListOf(<<>>) ELSE Exc)
             [] x.k \in {"i", "s", "odd"} -> Exc
             [] OTHER -> Unsp

(* element numbers addressed by ix *)
Address(L, ix, mode) == InStruct(L, L.decl, ix, <<>>, mode)

(* ---- trees of element numbers -> trees of values ---- *)
RECURSIVE Values(_, _)
Values(x, cat) ==
    CASE x.t = "mat" -> Mat(x.r, x.c, [k \in 1..Len(x.e) |-> IF x.e[k] = -1 THEN "0" ELSE cat[x.e[k] + 1]])
      [] x.t = "list" -> [t |-> "list", v |-> [i \in 1..Len(x.v) |-> Values(x.v[i], cat)]]
      [] x.t = "dict" -> [t |-> "dict", v |-> [i \in 1..Len(x.v) |-> [k |-> x.v[i].k, v |-> Values(x.v[i].v, cat)]]]
      [] OTHER -> x

Read(L, cat, ix) == Values(Address(L, ix, "full"), cat)

(* equality of trees; dictionaries are unordered *)
RECURSIVE TreeEq(_, _)
TreeEq(a, b) ==
    /\ a.t = b.t
    /\ CASE a.t = "mat" -> a.r = b.r /\ a.c = b.c /\ Len(a.e) = Len(b.e) /\ a.e = b.e
         [] a.t = "list" -> Len(a.v) = Len(b.v) /\ \A i \in 1..Len(a.v) : TreeEq(a.v[i], b.v[i])
         [] a.t = "dict" -> /\ Len(a.v) = Len(b.v)
                            /\ \A i \in 1..Len(a.v) : \E j \in 1..Len(b.v) : a.v[i].k = b.v[j].k /\ TreeEq(a.v[i].v, b.v[j].v)
         [] OTHER -> TRUE
Accepts(expected, observed) == expected.t = "any" \/ TreeEq(expected, observed)
=============================================================================
