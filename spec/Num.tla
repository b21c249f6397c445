-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Mathematical integers.                                                  *)
(*                                                                         *)
(* The definitions below are the meaning of the operators.  TLC's native   *)
(* integers are 32 bits wide, while token amounts are 64 bits wide and the *)
(* fixed point arithmetic of the programs goes beyond 128 bits.  When TLC   *)
(* is run with the class java/NumOverrides (same meaning, computed with    *)
(* java.math.BigInteger) these operators have no width limit: a value that *)
(* fits into 31 bits is an ordinary TLC integer, any other value is an     *)
(* atom which represents the integer.  The specification modules use only  *)
(* these operators on quantities, so that the same text is checked         *)
(* exhaustively with small constants and against traces recorded from the  *)
(* real programs, with real magnitudes.                                    *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

a ++ b == a + b
a -- b == a - b
a ** b == a * b
a // b == a \div b            \* floor division, b > 0
a %% b == a % b
a \prec b == a < b
a \preceq b == a <= b
a \succ b == a > b
a \succeq b == a >= b

NMin(a, b) == IF a <= b THEN a ELSE b
NMax(a, b) == IF a >= b THEN a ELSE b
NCeilDiv(a, b) == -((-a) \div b)
NMulDiv(a, b, c) == (a * b) \div c
NMulDivUp(a, b, c) == -((-(a * b)) \div c)
NAbs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE NPow(_, _)
NPow(a, n) == IF n = 0 THEN 1 ELSE a * NPow(a, n - 1)

(* The square root, rounded down. *)
NSqrt(a) == CHOOSE r \in 0..a : r * r <= a /\ (r + 1) * (r + 1) > a

(* The number of binary digits. *)
RECURSIVE NBits(_)
NBits(a) == IF a = 0 THEN 0 ELSE 1 + NBits(a \div 2)

(* The sum of a sequence of integers. *)
RECURSIVE NSum(_)
NSum(s) == IF s = <<>> THEN 0 ELSE s[1] + NSum(Tail(s))

(* An integer given by its decimal digits (for literals beyond 31 bits);   *)
(* only available with the Java override.                                  *)
NLit(digits) == Assert(FALSE, "NLit needs the NumOverrides class")

(* A document in JSON, one per line; only available with the override.     *)
NdJson(path) == Assert(FALSE, "NdJson needs the NumOverrides class")

(* For each of these lines the sequence of the lines which follow it, by    *)
(* number: those which name it as their parent ("par"), or the next one.   *)
NdKids(path) == Assert(FALSE, "NdKids needs the NumOverrides class")
=============================================================================
