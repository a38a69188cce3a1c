------------------------------- MODULE Chunks -------------------------------
(* The chunk stream of an fmp12 sector.  A chunk starts with a code byte; the *)
(* code prescribes what follows.  Two high bits set in the code mean that the *)
(* current directory is closed after the chunk.                               *)
(*   kind  "data" plain data, "ref" data under a numeric key, "reflong" data  *)
(*         under a byte string, "segment" numbered part of a long value,      *)
(*         "push" opens a directory, "pop" closes one, "noop", "bad"          *)
(*   end   position of the byte right after the chunk                         *)
(*   dir   directory number opened by a push                                  *)
(*   late  the current directory is closed after the chunk                    *)
(*   code  the code without its two high bits                                 *)
EXTENDS Integers, Sequences

(* Reading past the end gives zeroes and cuts payloads; the end position then *)
(* lies past the end.                                                         *)
At(b, k) == IF k <= Len(b) THEN b[k] ELSE 0
Cut(b, i, j) == SubSeq(b, i, IF j <= Len(b) THEN j ELSE Len(b))
Big2(b, i) == At(b, i) * 256 + At(b, i + 1)
(* A directory or key number in two bytes: a mark byte, then the number less  *)
(* 128.                                                                       *)
Num2(b, i) == 128 + At(b, i + 1)

CodeOf(x) == IF x >= 192 THEN x - 192 ELSE x
Late(x) == x >= 192

Frame(b, i) ==
  LET c == CodeOf(b[i])
      F(kind, at, n, after) ==
        [kind |-> kind, code |-> c, data |-> Cut(b, at, at + n - 1), ref |-> << >>, key |-> -1, seg |-> -1, dir |-> -1,
         end |-> at + n + after, late |-> Late(b[i])]
      Data(at, n, after) == F("data", at, n, after)
      Key(k, at, n) == [F("ref", at, n, 0) EXCEPT !.key = k]
      Seg(s, at, n) == [F("segment", at, n, 0) EXCEPT !.seg = s]
      Long(rat, rn, at, n) == [F("reflong", at, n, 0) EXCEPT !.ref = Cut(b, rat, rat + rn - 1)]
      Push(d, at, n) == [F("push", at, n, 0) EXCEPT !.dir = d]
      Bare(kind) == F(kind, i + 1, 0, 0)
      (* fixed sizes of the code groups 1..5, 9..D, 11..15 *)
      Size(k) == IF k = 0 THEN 1 ELSE 2 * k
  IN CASE c = 0 -> Data(i + 1, 0, 1)
       [] c \in 1..5 -> Key(At(b, i + 1), i + 2, Size(c - 1))
       [] c = 6 -> Key(At(b, i + 1), i + 3, At(b, i + 2))
       [] c = 7 -> Seg(At(b, i + 1), i + 4, Big2(b, i + 2))
       [] c = 8 -> Data(i + 1, 2, 0)
       [] c \in 9..13 -> Key(Num2(b, i + 1), i + 3, Size(c - 9))
       [] c = 14 -> IF At(b, i + 1) = 255 THEN Data(i + 1, 6, 0) ELSE Key(Num2(b, i + 1), i + 4, At(b, i + 3))
       [] c = 15 /\ At(b, i + 1) = 128 -> Seg(At(b, i + 2), i + 5, Big2(b, i + 3))
       [] c = 16 -> Data(i + 1, 3, 0)
       [] c \in 17..21 -> Data(i + 1, 3 + Size(c - 17), 0)
       [] c = 22 -> Long(i + 1, 3, i + 5, At(b, i + 4))
       [] c = 23 -> Long(i + 1, 3, i + 6, Big2(b, i + 4))
       [] c = 27 /\ At(b, i + 1) = 0 -> Key(At(b, i + 2), i + 3, 4)
       [] c \in 25..29 -> Data(i + 2, At(b, i + 1), Size(c - 25))
       [] c = 30 -> LET n == At(b, i + 1) IN Long(i + 2, n, i + 3 + n, At(b, i + 2 + n))
       [] c = 31 -> LET n == At(b, i + 1) IN Long(i + 2, n, i + 4 + n, Big2(b, i + 2 + n))
       [] c = 32 -> IF At(b, i + 1) = 254 THEN Push(At(b, i + 2), i + 2, 8) ELSE Push(At(b, i + 1), i + 1, 1)
       [] c = 35 -> Data(i + 2, At(b, i + 1), 0)
       [] c = 40 -> Push(Num2(b, i + 1), i + 1, 2)
       [] c = 48 -> Push(0, i + 1, 3)
       [] c = 56 -> [Push(Num2(b, i + 2), i + 2, 2) EXCEPT !.end = i + 2 + At(b, i + 1)]
       [] c \in {61, 64} -> Bare("pop")
       [] c = 128 -> Bare("noop")
       [] OTHER -> Bare("bad")

Up(path) == IF path = << >> THEN path ELSE SubSeq(path, 1, Len(path) - 1)
(* the open directories after a chunk *)
After(path, f) ==
  LET p == CASE f.kind = "push" -> Append(path, f.dir) [] f.kind = "pop" -> Up(path) [] OTHER -> path
  IN IF f.late THEN Up(p) ELSE p

(* ------------------------------------------------------------------ writing *)
(* The bytes of a chunk written with a code; x gives the variable parts:      *)
(* key, key2, seg, ref, data, dir.                                            *)
Lo(n) == << n % 256 >>
Hi2(n) == << n \div 256, n % 256 >>
Mark(n) == << 252, n - 128 >>
Pad(n) == [k \in 1..n |-> 0]
Write(c, x) ==
  LET Size(k) == IF k = 0 THEN 1 ELSE 2 * k
      D == x.data
      n == Len(D)
      body ==
        CASE c = 0 -> << 0 >>
          [] c \in 1..5 -> << x.key >> \o D
          [] c = 6 -> << x.key, n >> \o D
          [] c = 7 -> << x.seg >> \o Hi2(n) \o D
          [] c \in {8, 16} \cup 17..21 -> D
          [] c \in 9..13 -> Mark(x.key2) \o D
          [] c = 14 -> Mark(x.key2) \o << n >> \o D
          [] c = 15 -> << 128, x.seg >> \o Hi2(n) \o D
          [] c = 22 -> x.ref \o << n >> \o D
          [] c = 23 -> x.ref \o Hi2(n) \o D
          [] c = 27 /\ n = 0 -> << 0, x.key, 7, 7, 7, 7 >>
          [] c \in 25..29 -> << n >> \o D \o Pad(Size(c - 25))
          [] c = 30 -> << Len(x.ref) >> \o x.ref \o << n >> \o D
          [] c = 31 -> << Len(x.ref) >> \o x.ref \o Hi2(n) \o D
          [] c = 32 -> << x.dir >>
          [] c = 35 -> << n >> \o D
          [] c = 40 -> Mark(x.key2)
          [] c = 48 -> << 128, 0, x.dir >>
          [] c = 56 -> << 3 >> \o Mark(x.key2) \o << 9 >>
          [] OTHER -> << >>
  IN << c >> \o body
(* payload sizes a code can carry *)
Carries(c, n) ==
  CASE c \in 1..5 -> n = (IF c = 1 THEN 1 ELSE 2 * (c - 1))
    [] c \in 9..13 -> n = (IF c = 9 THEN 1 ELSE 2 * (c - 9))
    [] c = 8 -> n = 2
    [] c = 16 -> n = 3
    [] c \in 17..21 -> n = (IF c = 17 THEN 4 ELSE 3 + 2 * (c - 17))
    [] c \in {0, 32, 40, 48, 56, 61, 64, 128} -> n = 0
    [] OTHER -> TRUE
Codes == (0..23) \cup (25..32) \cup {35, 40, 48, 56, 61, 64, 128}
=============================================================================
