-------------------------------- MODULE Rat --------------------------------
(* Exact arithmetic on rationals written as texts, "7" or "-3/4" (lowest terms). TLC takes the operators from java/RatOverrides.java;
   RatCheck compares them with fractions of TLA+ integers. "nan", "inf" and "-inf" give "nan" in arithmetic and FALSE in comparisons. *)
EXTENDS Naturals, Sequences
RAdd(a,b) == CHOOSE r \in STRING : TRUE
RSub(a,b) == CHOOSE r \in STRING : TRUE
RMul(a,b) == CHOOSE r \in STRING : TRUE
RDiv(a,b) == CHOOSE r \in STRING : TRUE
RLe(a,b) == CHOOSE r \in BOOLEAN : TRUE
RFinite(a) == CHOOSE r \in BOOLEAN : TRUE
(* a itself, or, if numerator and denominator have more than 640 bits together, something within 2^-255 |a| of it *)
RRound(a) == CHOOSE r \in STRING : TRUE
=============================================================================
