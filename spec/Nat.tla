--------------------------------- MODULE Nat ---------------------------------
(* Natural numbers of any size, as sequences of limbs in base 4096, least     *)
(* significant first and without leading zeros: TLC's integers have 32 bits.  *)
EXTENDS Integers, Sequences

Base == 4096

RECURSIVE NatOf(_)
NatOf(n) == IF n = 0 THEN << >> ELSE << n % Base >> \o NatOf(n \div Base)
Fits(d) == Len(d) <= 2 \/ (Len(d) = 3 /\ d[3] < 64)          \* below 2^30
RECURSIVE IntOf(_)
IntOf(d) == IF d = << >> THEN 0 ELSE d[1] + Base * IntOf(Tail(d))

RECURSIVE Strip(_)
Strip(d) == IF d # << >> /\ d[Len(d)] = 0 THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d
Limb(d, i) == IF i <= Len(d) THEN d[i] ELSE 0

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN << >> ELSE << c >>)
  ELSE LET x == Limb(a, i) + Limb(b, i) + c
       IN << x % Base >> \o AddFrom(a, b, i + 1, x \div Base)
NatAdd(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
  IF i > Len(a) THEN << >>
  ELSE LET x == a[i] - Limb(b, i) - c
       IN << x % Base >> \o SubFrom(a, b, i + 1, IF x < 0 THEN 1 ELSE 0)
NatSub(a, b) == Strip(SubFrom(a, b, 1, 0))                   \* a >= b

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1
                    ELSE IF a[i] > b[i] THEN 1
                    ELSE CmpFrom(a, b, i - 1)
NatCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))

RECURSIVE MulLimb(_, _, _, _)
MulLimb(a, m, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE << c >>)
  ELSE LET x == a[i] * m + c IN << x % Base >> \o MulLimb(a, m, i + 1, x \div Base)
RECURSIVE NatMul(_, _)
NatMul(a, b) == IF a = << >> \/ b = << >> THEN << >>
                ELSE LET rest == NatMul(a, Tail(b))
                     IN Strip(NatAdd(MulLimb(a, b[1], 1, 0), IF rest = << >> THEN << >> ELSE << 0 >> \o rest))

(* << quotient, remainder >> by 1 <= m < 2^18 *)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(d, m, i, r) ==
  IF i = 0 THEN << << >>, r >>
  ELSE LET x == r * Base + d[i]
           low == DivFrom(d, m, i - 1, x % m)
       IN << Append(low[1], x \div m), low[2] >>
DivMod(d, m) == LET x == DivFrom(d, m, Len(d), 0) IN << Strip(x[1]), x[2] >>
Half(d) == DivMod(d, 2)[1]

RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN << >> ELSE << 0 >> \o Zeros(n - 1)
Shl(d, k) == IF d = << >> \/ k = 0 THEN d
             ELSE Zeros(k \div 12) \o MulLimb(d, 2^(k % 12), 1, 0)
Shr(d, k) == IF k = 0 THEN d
             ELSE DivMod(SubSeq(d, 1 + (k \div 12), Len(d)), 2^(k % 12))[1]
RECURSIVE TrailingZeros(_)
TrailingZeros(d) == IF d = << >> \/ d[1] % 2 = 1 THEN 0 ELSE 1 + TrailingZeros(Half(d))
=============================================================================
