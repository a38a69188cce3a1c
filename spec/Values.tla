------------------------------- MODULE Values -------------------------------
(* The values a calculation can produce, a field can hold and a variable can  *)
(* have, with their order, their arithmetic and their written form.           *)
(*                                                                            *)
(*   number   [t |-> "N", n, k]     n / 2^k in lowest terms, |n| < 2^30       *)
(*            [t |-> "M", s, d, k]  the same for larger ones: s * d / 2^k     *)
(*                                  with s = 1 or -1 and d in limbs (Nat.tla) *)
(*   text     [t |-> "T", c]     its characters as a sequence of code points  *)
(*   truth    [t |-> "B", b]                                                  *)
(*   empty    [t |-> "E"]        an empty field, or a variable never set      *)
(*   unspec.  [t |-> "U"]        the specification makes no statement         *)
(*   raw      [t |-> "R", s]     only ever observed: none of the above        *)
(*                                                                            *)
(* Numbers are the dyadic rationals, on which double precision arithmetic is  *)
(* exact as long as the digits fit in 53 bits.                                *)
EXTENDS Integers, Sequences, Nat

Empty == [t |-> "E"]
Unspec == [t |-> "U"]
Bool(b) == [t |-> "B", b |-> b]
Text(c) == [t |-> "T", c |-> c]

RECURSIVE Num(_, _)
Num(n, k) == IF k > 0 /\ n % 2 = 0 THEN Num(n \div 2, k - 1)
             ELSE [t |-> "N", n |-> n, k |-> k]
IntNum(n) == [t |-> "N", n |-> n, k |-> 0]

IsNum(v) == v.t \in {"N", "M"}
(* What counts as text when texts are joined or compared. *)
IsText(v) == v.t \in {"T", "E"}
Chars(v) == IF v.t = "T" THEN v.c ELSE << >>

Max(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

(* ---------------------------- arithmetic -------------------------------- *)
(* Any number as sign, limbs and exponent, and back. *)
SignOf(v) == IF v.t = "M" THEN v.s ELSE IF v.n < 0 THEN -1 ELSE 1
Limbs(v) == IF v.t = "M" THEN v.d ELSE NatOf(Abs(v.n))
RECURSIVE Big(_, _, _)
Big(s, d, k) ==
  IF k > 0 /\ (d = << >> \/ d[1] % 2 = 0) THEN Big(s, Half(d), k - 1)
  ELSE IF Fits(d) THEN [t |-> "N", n |-> s * IntOf(d), k |-> k]
  ELSE [t |-> "M", s |-> s, d |-> d, k |-> k]

Small(a, b) == a.t = "N" /\ b.t = "N" /\ Abs(a.n) < 16384 /\ Abs(b.n) < 16384 /\ Abs(a.k - b.k) <= 14

BigSum(sa, da, sb, db, k) ==
  IF sa = sb THEN Big(sa, NatAdd(da, db), k)
  ELSE IF NatCmp(da, db) >= 0 THEN Big(sa, NatSub(da, db), k)
  ELSE Big(sb, NatSub(db, da), k)

Align(v, k) == v.n * 2^(k - v.k)
NumAdd(a, b) ==
  LET k == Max(a.k, b.k)
  IN IF Small(a, b) THEN Num(Align(a, k) + Align(b, k), k)
     ELSE BigSum(SignOf(a), Shl(Limbs(a), k - a.k), SignOf(b), Shl(Limbs(b), k - b.k), k)
NumNeg(a) == IF a.t = "N" THEN [a EXCEPT !.n = -a.n] ELSE [a EXCEPT !.s = -a.s]
NumSub(a, b) == NumAdd(a, NumNeg(b))
NumMul(a, b) ==
  IF Small(a, b) THEN Num(a.n * b.n, a.k + b.k)
  ELSE Big(SignOf(a) * SignOf(b), NatMul(Limbs(a), Limbs(b)), a.k + b.k)
(* Defined where the quotient is a dyadic rational; the odd part of the       *)
(* divisor has to be below 2^18.                                              *)
NumDiv(a, b) ==
  LET e == TrailingZeros(Limbs(b))
      odd == Shr(Limbs(b), e)
  IN IF Limbs(b) = << >> THEN Unspec
     ELSE IF Len(odd) > 2 \/ (Len(odd) = 2 /\ odd[2] >= 64) THEN Unspec
     ELSE LET qr == DivMod(Limbs(a), IntOf(odd))
              s == SignOf(a) * SignOf(b)
          IN IF qr[2] # 0 THEN Unspec
             ELSE IF b.k >= a.k + e THEN Big(s, Shl(qr[1], b.k - a.k - e), 0)
             ELSE Big(s, qr[1], a.k + e - b.k)
NumAbs(a) == IF a.t = "N" THEN [a EXCEPT !.n = Abs(a.n)] ELSE [a EXCEPT !.s = 1]

Arith(op, a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN Unspec
  ELSE CASE op = "+" -> NumAdd(a, b)
         [] op = "-" -> NumSub(a, b)
         [] op = "*" -> NumMul(a, b)
         [] op = "/" -> NumDiv(a, b)

(* ------------------------------- order ---------------------------------- *)
Sign(d) == IF d < 0 THEN -1 ELSE IF d > 0 THEN 1 ELSE 0
NumSign(a) == IF a.t = "N" THEN Sign(a.n) ELSE a.s
NumCmp(a, b) == NumSign(NumSub(a, b))

RECURSIVE SeqCmpFrom(_, _, _)
SeqCmpFrom(x, y, i) ==
  IF i > Len(x) THEN (IF i > Len(y) THEN 0 ELSE -1)
  ELSE IF i > Len(y) THEN 1
  ELSE IF x[i] < y[i] THEN -1
  ELSE IF x[i] > y[i] THEN 1
  ELSE SeqCmpFrom(x, y, i + 1)
TextCmp(x, y) == SeqCmpFrom(x, y, 1)

Comparable(a, b) == (IsNum(a) /\ IsNum(b)) \/ (IsText(a) /\ IsText(b))
ValCmp(a, b) == IF IsNum(a) THEN NumCmp(a, b) ELSE TextCmp(Chars(a), Chars(b))

Holds(op, c) ==
  CASE op = "==" -> c = 0
    [] op = "!=" -> c # 0
    [] op = "<"  -> c < 0
    [] op = "<=" -> c <= 0
    [] op = ">"  -> c > 0
    [] op = ">=" -> c >= 0

Compare(op, a, b) == IF Comparable(a, b) THEN Bool(Holds(op, ValCmp(a, b))) ELSE Unspec

(* ---------------------------- written form ------------------------------ *)
Ten == << 10 >>
RECURSIVE NatDigits(_)
NatDigits(d) == LET qr == DivMod(d, 10)
                IN IF qr[1] = << >> THEN << 48 + qr[2] >>
                   ELSE Append(NatDigits(qr[1]), 48 + qr[2])
RECURSIVE FracDigits(_, _)     \* digits of r / 2^k, 0 <= r < 2^k
FracDigits(r, k) ==
  IF r = << >> THEN << >>
  ELSE LET x == NatMul(r, Ten)
           q == Shr(x, k)
       IN << 48 + IntOf(q) >> \o FracDigits(NatSub(x, Shl(q, k)), k)
Decimal(v) ==
  LET m == Limbs(v)
      w == Shr(m, v.k)
      frac == FracDigits(NatSub(m, Shl(w, v.k)), v.k)
  IN (IF NumSign(v) < 0 THEN << 45 >> ELSE << >>) \o NatDigits(w)
     \o (IF frac = << >> THEN << >> ELSE << 46 >> \o frac)

Join(a, b) ==
  LET w(v) == IF IsNum(v) THEN Decimal(v) ELSE Chars(v)
  IN IF a.t \in {"N", "M", "T", "E"} /\ b.t \in {"N", "M", "T", "E"}
     THEN Text(w(a) \o w(b)) ELSE Unspec

RECURSIVE MinOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1]
            ELSE LET m == MinOf(Tail(s))
                 IN IF ~IsNum(s[1]) \/ ~IsNum(m) THEN Unspec
                    ELSE IF NumCmp(s[1], m) <= 0 THEN s[1] ELSE m

(* An observed value agrees with a specified one. *)
Agrees(spec, seen) == spec.t = "U" \/ spec = seen
=============================================================================
