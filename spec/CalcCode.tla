------------------------------ MODULE CalcCode ------------------------------
(* Stored calculations: a sequence of token codes.  Tokens are pairs of a     *)
(* sort and a byte string: "text" a quoted text, "word" a number, variable,   *)
(* function or field, "mark" an operator or parenthesis.                      *)
EXTENDS Integers, Sequences, TLC

(* texts are stored with the bits of 90 flipped *)
Bit(x, p) == (x \div p) % 2
Flip(x, y, p) == IF Bit(x, p) = Bit(y, p) THEN 0 ELSE p
Xor(x, y) == Flip(x, y, 1) + Flip(x, y, 2) + Flip(x, y, 4) + Flip(x, y, 8) + Flip(x, y, 16) + Flip(x, y, 32) + Flip(x, y, 64) + Flip(x, y, 128)
Unmask(s) == [k \in DOMAIN s |-> Xor(s[k], 90)]

Marks ==
  4 :> << 40 >> @@ 5 :> << 41 >> @@ 37 :> << 43 >> @@ 38 :> << 45 >> @@ 39 :> << 42 >> @@ 40 :> << 47 >> @@
  65 :> << 60 >> @@ 67 :> << 60, 61 >> @@ 68 :> << 61, 61 >> @@ 70 :> << 33, 61 >> @@ 71 :> << 62, 61 >> @@
  73 :> << 62 >> @@ 80 :> << 38 >>
Abs == << 65, 98, 115 >>
GetWord == << 71, 101, 116 >>
Acos == << 65, 99, 111, 115 >>
CharWord == << 67, 104, 97, 114 >>
GetNames ==
  29 :> << 67, 117, 114, 114, 101, 110, 116, 84, 105, 109, 101 >> @@
  32 :> << 65, 99, 99, 111, 117, 110, 116, 78, 97, 109, 101 >> @@
  73 :> << 68, 111, 99, 117, 109, 101, 110, 116, 115, 80, 97, 116, 104 >> @@
  93 :> << 68, 111, 99, 117, 109, 101, 110, 116, 115, 80, 97, 116, 104, 76, 105, 115, 116, 105, 110, 103 >>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN << 48 + n >> ELSE Append(Digits(n \div 10), 48 + (n % 10))

RECURSIVE Stored(_, _)
(* the tokens stored from position i on *)
Stored(b, i) ==
  IF i > Len(b) THEN << >>
  ELSE LET c == b[i]
           Tok(sort, s, j) == << << sort, s >> >> \o Stored(b, j)
           Bytes == SubSeq(b, i + 2, i + 1 + b[i + 1])
       IN CASE c \in DOMAIN Marks -> Tok("mark", Marks[c], i + 1)
            [] c = 12 -> Stored(b, IF i < Len(b) /\ b[i + 1] = 19 THEN i + 3 + b[i + 2] ELSE i + 1)
            [] c = 16 -> Tok("word", Digits(b[i + 9]), i + 20)
            [] c = 19 -> Tok("text", Unmask(Bytes), i + 2 + b[i + 1])
            [] c = 26 -> Tok("word", Unmask(Bytes), i + 2 + b[i + 1])
            [] c = 45 -> Tok("word", Abs, i + 1)
            [] c = 155 -> Tok("word", GetWord, i + 1)
            [] c = 156 -> Tok("word", GetNames[b[i + 1]], i + 2)
            [] c = 157 -> Tok("word", Acos, i + 1)
            [] c = 251 /\ b[i + 1] = 3 -> Tok("word", CharWord, i + 2)
            (* the byte after a text, and codes that are not in the list       *)
            [] OTHER -> Stored(b, i + 1)

(* ---------------------------------------------- tokens of a written text    *)
White(c) == c \in {32, 9, 10, 13}
Single == {40, 41, 43, 45, 42, 47, 38, 44}
Starts(c) == c \in Single \cup {60, 61, 62, 33}
RECURSIVE QuoteEnd(_, _), WordEnd(_, _), Written(_, _)
QuoteEnd(s, i) == IF i > Len(s) \/ s[i] = 34 THEN i ELSE QuoteEnd(s, i + 1)
WordEnd(s, i) == IF i > Len(s) \/ White(s[i]) \/ s[i] = 34 \/ Starts(s[i]) THEN i ELSE WordEnd(s, i + 1)
Written(s, i) ==
  IF i > Len(s) THEN << >>
  ELSE CASE White(s[i]) -> Written(s, i + 1)
         [] s[i] = 34 -> LET e == QuoteEnd(s, i + 1) IN << << "text", SubSeq(s, i + 1, e - 1) >> >> \o Written(s, e + 1)
         [] s[i] \in Single -> << << "mark", << s[i] >> >> >> \o Written(s, i + 1)
         [] Starts(s[i]) -> LET n == IF i < Len(s) /\ s[i + 1] = 61 THEN 2 ELSE 1
                            IN << << "mark", SubSeq(s, i, i + n - 1) >> >> \o Written(s, i + n)
         [] OTHER -> LET e == WordEnd(s, i) IN << << "word", SubSeq(s, i, e - 1) >> >> \o Written(s, e)
=============================================================================
