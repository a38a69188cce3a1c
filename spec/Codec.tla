------------------------------- MODULE Codec -------------------------------
(* The encodings inside fmp12 files.                                          *)
(*   integers      big-endian, one, two or four bytes                         *)
(*   path numbers  of directories and keys: one byte below 128, else a mark   *)
(*                 byte with its high bit set and the number less 128         *)
(*   texts         UTF-8 with the bits of 90 flipped                          *)
(*   index names   two bytes per character, small letters, blank, underscore, *)
(*   ended by two zero bytes; other characters have no code                   *)
(* TLC's integers end at 2^31: a number is a pair of 16-bit halves.           *)
EXTENDS Integers, Sequences, CalcCode, Chunks

PutInt(h) == << h[1] \div 256, h[1] % 256, h[2] \div 256, h[2] % 256 >>
GetInt(b) == CASE Len(b) = 1 -> << 0, b[1] >>
               [] Len(b) = 2 -> << 0, Big2(b, 1) >>
               [] Len(b) = 4 -> << Big2(b, 1), Big2(b, 3) >>

(* a written path number: how the mark byte is chosen is left open            *)
IsPath(b, n) == IF n < 128 THEN b = << n >> ELSE Len(b) = 2 /\ b[1] >= 128 /\ b[2] = (n - 128) % 256
GetPath(b) == IF Len(b) = 1 THEN b[1] ELSE Num2(b, 1)

RECURSIVE Utf8(_)
Utf8One(c) ==
  CASE c < 128 -> << c >>
    [] c < 2048 -> << 192 + c \div 64, 128 + (c % 64) >>
    [] c < 65536 -> << 224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64) >>
    [] OTHER -> << 240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
Utf8(s) == IF s = << >> THEN << >> ELSE Utf8One(Head(s)) \o Utf8(Tail(s))
Mask(s) == Unmask(Utf8(s))

Letters == << << 18, 15 >>, << 18, 37 >>, << 18, 61 >>, << 18, 80 >>, << 18, 107 >>, << 18, 163 >>, << 18, 176 >>, << 18, 211 >>, << 18, 236 >>,
  << 19, 5 >>, << 19, 30 >>, << 19, 48 >>, << 19, 95 >>, << 19, 109 >>, << 19, 142 >>, << 19, 179 >>, << 19, 200 >>, << 19, 218 >>,
  << 20, 16 >>, << 20, 51 >>, << 20, 83 >>, << 20, 123 >>, << 20, 141 >>, << 20, 151 >>, << 20, 156 >>, << 20, 173 >> >>
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lowered(s) == [k \in DOMAIN s |-> Lower(s[k])]
Double(c) == CASE c = 0 -> << 0, 0 >> [] c = 32 -> << 2, 10 >> [] c = 95 -> << 2, 29 >> [] Lower(c) \in 97..122 -> Letters[Lower(c) - 96] [] OTHER -> << 0, 0 >>
RECURSIVE Name(_)
Name(s) == IF s = << >> THEN << 0, 0 >> ELSE Double(Head(s)) \o Name(Tail(s))
=============================================================================
