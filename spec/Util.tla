-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by all modules. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m

Div(a, b) == a \div b
Mod(a, b) == a - b * (a \div b)

(* <<f(1), ..., f(n)>> flattened *)
Cat(n, f(_)) == FlattenSeq([i \in 1..n |-> f(i)])

RangeOf(s) == {s[i] : i \in 1..Len(s)}

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

SumInts(s) == FoldSeq(LAMBDA x, a : x + a, 0, s)

(* verdicts of a trace specification: of every kind of mismatch the first few are kept *)
Recorded(bad, l, new) ==
    bad \o SelectSeq([i \in 1..Len(new) |-> [l |-> l, c |-> new[i].c, exp |-> new[i].exp]],
                     LAMBDA b : Cardinality({i \in 1..Len(bad) : bad[i].c = b.c}) < 5)

(* positions 0..n-1 selected by Python's slice(a, b, c); ha/hb/hc tell which of them are given *)
SliceIdx(s, n) ==
    LET st == IF s.hc THEN s.c ELSE 1
        lo == IF st > 0 THEN 0 ELSE -1
        up == IF st > 0 THEN n ELSE n - 1
        clip(x) == IF x < 0 THEN Max2(x + n, lo) ELSE Min2(x, up)
        a == IF s.ha THEN clip(s.a) ELSE IF st > 0 THEN lo ELSE up
        b == IF s.hb THEN clip(s.b) ELSE IF st > 0 THEN up ELSE lo
        cnt == IF st > 0 THEN (IF b > a THEN (b - a + st - 1) \div st ELSE 0)
                         ELSE (IF a > b THEN (a - b + (-st) - 1) \div (-st) ELSE 0)
    IN [i \in 1..cnt |-> a + (i - 1) * st]
=============================================================================
