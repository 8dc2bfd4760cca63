------------------------------ MODULE IneqModel ------------------------------
(* All small inequalities (Scope "mk"), and all small programs that concatenate them (Scope "cat"). *)
EXTENDS Ineq, Json

CONSTANTS Scope, Depth, MaxParts

VARIABLES reg, prog
vars == <<reg, prog>>

Shapes == {<<0, 1>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<3, 1>>}
Ways == {"none", "fit", "scalar", "flip", "long", "col"}
Vals(n, w) == [k \in 1..n |-> IF w = 3 /\ k = 1 THEN "inf" ELSE ToString(100 * w + k)]
Arg(s, how, w) ==
    CASE how = "none" -> None_
      [] how = "fit" -> Mt(s[1], s[2], Vals(s[1] * s[2], w))
      [] how = "scalar" -> Mt(1, 1, Vals(1, w))
      [] how = "flip" -> Mt(s[2], s[1], Vals(s[1] * s[2], w))
      [] how = "long" -> Mt(s[1] + 1, s[2], Vals((s[1] + 1) * s[2], w))
      [] how = "col" -> Mt(s[1] * s[2], 1, Vals(s[1] * s[2], w))
MkCase(s, lb, ub, nom) == [a |-> "mk", expr |-> Arg(s, "fit", 1), lb |-> Arg(s, lb, 2), ub |-> Arg(s, ub, 3), nom |-> Arg(s, nom, 4)]

(* ---- concatenation programs over a few parts ---- *)
Part(i, r, c, nom) == MkIneq(Mt(r, c, [k \in 1..(r * c) |-> ToString(1000 * i + k)]), Mt(r, c, [k \in 1..(r * c) |-> ToString(1000 * i + 100 + k)]),
                             IF i = 2 THEN None_ ELSE Mt(r, c, [k \in 1..(r * c) |-> ToString(1000 * i + 200 + k)]),
                             IF nom THEN Mt(r, c, [k \in 1..(r * c) |-> ToString(1000 * i + 300 + k)]) ELSE None_)
Bases == {<<Part(1, 2, 1, n), Part(2, 1, 1, n), Part(3, 0, 1, n), Part(4, 3, 1, n)>> : n \in BOOLEAN} \cup {<<Part(1, 2, 2, FALSE), Part(2, 1, 2, FALSE)>>}
Lists == UNION {[1..n -> 1..Len(reg)] : n \in 1..MaxParts}

InitMk == prog = <<>> /\ reg = <<>>
InitCat == prog = <<>> /\ reg \in Bases
Init == IF Scope = "mk" THEN InitMk ELSE InitCat
(* one construction per behaviour *)
NextMk ==
    /\ prog = <<>>
    /\ \E s \in Shapes, lb \in Ways, ub \in Ways, nom \in Ways :
         /\ prog' = <<MkCase(s, lb, ub, nom)>>
         /\ LET p == prog'[1] IN reg' = IF WellFormed(p.expr, p.lb, p.ub, p.nom) THEN <<MkIneq(p.expr, p.lb, p.ub, p.nom)>> ELSE <<>>
         /\ PrintT("CASE " \o ToJson(prog'[1]))
NextCat ==
    /\ Len(prog) < Depth
    /\ \E p \in Lists, how \in {"list", "dict"} :
         LET v == [i \in 1..Len(p) |-> reg[p[i]]]
             names == [i \in 1..Len(p) |-> <<"a", "c", "b">>[i]]
             fit == IF how = "list" THEN ListFits(v) ELSE DictFits(v)
         IN /\ fit = "ok"
            (* later steps use the result of the step before *)
            /\ Len(prog) > 0 => \E i \in 1..Len(p) : p[i] = Len(reg)
            /\ reg' = Append(reg, IF how = "list" THEN CatList(v) ELSE CatDict(names, v))
            /\ prog' = Append(prog, [how |-> how, p |-> p])
    /\ (Len(prog') = Depth) => PrintT("CASE " \o ToJson([base |-> SubSeq(reg, 1, Len(reg) - Len(prog)), prog |-> prog']))
Next == IF Scope = "mk" THEN NextMk ELSE NextCat
Spec == Init /\ [][Next]_vars

(* every row keeps its own bounds: the values of element k of the last inequality all come from the same element *)
Aligned ==
    Scope = "cat" => \A i \in 1..Len(reg) : LET q == reg[i] IN
        /\ Like(q.expr, q.lb) /\ Like(q.expr, q.ub) /\ Fits(q.expr, q.nom)
        /\ \A k \in 1..Len(q.expr.e) : \E b \in 1..(Len(reg) - Len(prog)) : \E j \in 1..Len(reg[b].expr.e) :
              /\ q.expr.e[k] = reg[b].expr.e[j] /\ q.lb.e[k] = reg[b].lb.e[j] /\ q.ub.e[k] = reg[b].ub.e[j]
              /\ (q.nom.t = "mat" => q.nom.e[k] = reg[b].nom.e[j])
(* columns: concatenating again gives the elements in the order of the parts *)
RECURSIVE Flatten(_)
Flatten(i) == LET b == Len(reg) - Len(prog) IN
              IF i <= b THEN reg[i].expr.e ELSE FlattenSeq([j \in 1..Len(prog[i - b].p) |-> Flatten(prog[i - b].p[j])])
InOrder == (Scope = "cat" /\ reg[1].expr.c = 1) => \A i \in 1..Len(reg) : reg[i].expr.e = Flatten(i)
AbsentIsInfinite ==
    (Scope = "mk" /\ reg /= <<>>) => /\ (prog[1].lb.t = "none" => \A k \in 1..Len(reg[1].lb.e) : reg[1].lb.e[k] = "-inf")
                                      /\ (prog[1].ub.t = "none" => \A k \in 1..Len(reg[1].ub.e) : reg[1].ub.e[k] = "inf")
                                      /\ Like(reg[1].lb, reg[1].expr) /\ Like(reg[1].ub, reg[1].expr)
=============================================================================
