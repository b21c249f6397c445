------------------------------- MODULE Decimals -------------------------------
(***************************************************************************)
(* The fixed point numbers the programs calculate with: natural numbers of  *)
(* units 1/WAD, no larger than DMAX.  Every result is rounded down, what    *)
(* does not fit (or is negative, or divided by zero) is Bad, and so is      *)
(* everything calculated from it.                                          *)
(***************************************************************************)
EXTENDS Chain

CONSTANTS WAD, DMAX

Bad == -1
Ok(a) == a # Bad
Checked(v) == IF v \prec 0 \/ v \succ DMAX THEN Bad ELSE v

DInt(n) == Checked(n ** WAD)
DAdd(a, b) == IF a = Bad \/ b = Bad THEN Bad ELSE Checked(a ++ b)
DSub(a, b) == IF a = Bad \/ b = Bad THEN Bad ELSE Checked(a -- b)
DMul(a, b) == IF a = Bad \/ b = Bad THEN Bad ELSE Checked(NMulDiv(a, b, WAD))
DDiv(a, b) == IF a = Bad \/ b = Bad \/ b = 0 THEN Bad
              ELSE Checked(NMulDiv(a, WAD, b))
\* divided by an integer
DDivInt(a, n) == IF a = Bad \/ n = 0 THEN Bad ELSE a // n
DSqrt(a) == IF a = Bad THEN Bad ELSE Checked(NSqrt(a ** WAD))

\* to 64 bit integers
U64(n) == IF n \succ U64MAX THEN Bad ELSE n
DFloor(a) == IF a = Bad THEN Bad ELSE U64(a // WAD)
DCeil(a) == IF a = Bad THEN Bad ELSE U64(NCeilDiv(a, WAD))
DRound(a) == IF a = Bad THEN Bad ELSE U64((a ++ (WAD // 2)) // WAD)

RECURSIVE DPower(_, _, _)
DPower(ret, base, n) ==
    IF n = 0 THEN ret
    ELSE LET sq == DMul(base, base) IN
         DPower(IF n % 2 = 1 THEN DMul(ret, sq) ELSE ret, sq, n \div 2)
\* by squaring, which is where intermediate results are rounded
DPow(a, n) ==
    IF a = Bad THEN Bad
    ELSE DPower(IF n % 2 = 1 THEN a ELSE WAD, a, n \div 2)

RECURSIVE DProduct(_)
DProduct(s) == IF s = <<>> THEN WAD
               ELSE DMul(DProduct(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

\* how many bits the integer part takes, roughly
DBits(a) == LET n == NBits(a) IN IF n > 60 THEN n - 60 ELSE 0

\* a * b / c in the order which is the least likely to overflow
DMulDiv(a, b, c) ==
    IF c \prec WAD \/ DBits(a) + DBits(b) < 130 THEN DDiv(DMul(a, b), c)
    ELSE IF DBits(a) >= DBits(b) THEN DMul(DDiv(a, c), b)
    ELSE DMul(DDiv(b, c), a)

\* <<a / 1000^n, n>>, with the least n for which the quotient is at most 1000
RECURSIVE ScaledDown(_, _)
ScaledDown(a, n) ==
    IF a \succ (1000 ** WAD) THEN ScaledDown(DDiv(a, 1000 ** WAD), n + 1)
    ELSE <<a, n>>
ScaleDown(a) == ScaledDown(a, 0)
==============================================================================
