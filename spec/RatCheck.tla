------------------------------ MODULE RatCheck ------------------------------
(* The operators of Rat against fractions of TLA+ integers, exhaustively over small ones. *)
EXTENDS Rat, Integers, TLC
CONSTANT Bound
VARIABLE done
Abs(a) == IF a < 0 THEN -a ELSE a
GCD(a, b) == IF a = 0 /\ b = 0 THEN 1 ELSE CHOOSE g \in 1..(Abs(a) + Abs(b)) : /\ a % g = 0 /\ b % g = 0
                                                                        /\ \A h \in (g + 1)..(Abs(a) + Abs(b)) : ~(a % h = 0 /\ b % h = 0)
Text(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                  g == GCD(n, d)
                  nn == (s * n) \div g
                  dd == (s * d) \div g
              IN IF dd = 1 THEN ToString(nn) ELSE ToString(nn) \o "/" \o ToString(dd)
Fractions == {<<n, d>> : n \in -Bound..Bound, d \in 1..Bound}
Right(a, b) ==
    LET x == Text(a[1], a[2])
        y == Text(b[1], b[2])
    IN /\ RAdd(x, y) = Text(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
       /\ RSub(x, y) = Text(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
       /\ RMul(x, y) = Text(a[1] * b[1], a[2] * b[2])
       /\ (IF b[1] = 0 THEN RDiv(x, y) = "nan" ELSE RDiv(x, y) = Text(a[1] * b[2], a[2] * b[1]))
       /\ RLe(x, y) = (a[1] * b[2] <= b[1] * a[2])
       /\ RFinite(x) /\ ~RFinite("nan") /\ ~RLe(x, "nan") /\ ~RLe("nan", x) /\ RAdd(x, "inf") = "nan"
       /\ RMul(b[2], y) = ToString(b[1])       \* integers are accepted as they are
(* rounding: of powers, until they are long *)
Pow(x, k) == IF k = 0 THEN "1" ELSE LET F[i \in 0..k] == IF i = 0 THEN "1" ELSE RMul(x, F[i - 1]) IN F[k]
Rounds(a) ==
    LET x == Text(a[1], a[2])
        eps == Pow("1/2", 250)
    IN \A k \in {1, 20, 300} : \A b \in {"1", "-7/3"} :
         LET y == RMul(b, Pow(x, k))
             d == RSub(RRound(y), y)
             bound == RMul(eps, IF RLe("0", y) THEN y ELSE RSub("0", y))
         IN RLe(d, bound) /\ RLe(RSub("0", bound), d) /\ (k = 1 => RRound(y) = y)
Init == done = {}
Next == \E a \in Fractions : a \notin done /\ done = {} /\ done' = {a}
Spec == Init /\ [][Next]_done
Law == \A a \in done : Rounds(a) /\ \A b \in Fractions : Right(a, b)
=============================================================================
