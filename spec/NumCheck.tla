------------------------------ MODULE NumCheck ------------------------------
(* The operators of Num that are computed by java/RatOverrides.java against their definitions, and arithmetic itself (RatCheck). *)
EXTENDS Num
CONSTANTS Items, Size
VARIABLE s
Init == s = <<>>
Next == \E x \in Items : Len(s) < Size /\ s' = Append(s, x)
Spec == Init /\ [][Next]_s
Points == {"-1", "0", "2/3", "nan"}
Law ==
    /\ RSum(s) = RSumDef(s) /\ RProd(s) = RProdDef(s)
    /\ \A t \in Points :
         /\ At(s, t) = AtDef(s, t)
         /\ LET o == [i \in 1..Len(s) |-> IF i = 1 THEN t ELSE ToString(i - 3)] IN Dot(s, o) = DotDef(s, o) /\ DotAbs(s, o) = DotAbsDef(s, o)
         /\ LagRow(s, t) = LagRowDef(s, t)
         /\ \A j \in 1..Len(s) : PowerBound(s, j, t) = PowerBoundDef(s, j, t)
    /\ \A j \in 1..Len(s) : SlopeRow(s, j) = SlopeRowDef(s, j) /\ LagPoly(s, j) = LagPolyDef(s, j)
=============================================================================
