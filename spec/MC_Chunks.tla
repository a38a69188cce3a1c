------------------------------ MODULE MC_Chunks ------------------------------
(* Whatever is written is read back: every code with payloads of up to N      *)
(* bytes, after every kind of directory situation, followed by any byte.      *)
EXTENDS Chunks, FiniteSets, TLC
CONSTANTS N, Depth
Bytes == {0, 1, 128, 255}
Payload(n) == IF n > 2 THEN {[k \in 1..n |-> (k * 37) % 256], [k \in 1..n |-> 0]} ELSE [1..n -> Bytes]
VARIABLES path, last, count
vars == << path, last, count >>
Init == path = << >> /\ last = << >> /\ count = 0

Check(c, late, x, rest) ==
  LET w == Write(c, x)
      b == << 5 >> \o (IF late THEN << w[1] + 192 >> \o Tail(w) ELSE w) \o rest
      f == Frame(b, 2)
  IN /\ Assert(f.end = Len(w) + 2, << "extent", c, x, f >>)
     /\ Assert(f.kind # "bad", << "bad", c >>)
     /\ Assert(c \in {0, 32, 40, 48, 56, 61, 64, 128} \/ (c = 27 /\ x.data = << >>) \/ f.data = x.data, << "data", c, x, f >>)
     /\ Assert(f.kind # "ref" \/ f.key = (IF c \in 9..14 THEN x.key2 ELSE x.key), << "key", c, x, f >>)
     /\ Assert(f.kind # "segment" \/ f.seg = x.seg, << "segment", c, x, f >>)
     /\ Assert(f.kind # "reflong" \/ f.ref = x.ref, << "ref", c, x, f >>)
     /\ Assert(f.kind # "push" \/ f.dir = (CASE c = 32 -> x.dir [] c = 48 -> 0 [] OTHER -> x.key2), << "dir", c, x, f >>)
     /\ path' = After(path, f)
     /\ Assert(Len(path') - Len(path) \in {-2, -1, 0, 1}, "path")
     /\ last' = << c, late, f.kind >>
Next ==
  /\ count < Depth
  /\ count' = count + 1
  /\ \E c \in Codes, late \in BOOLEAN, n \in 0..N, rest \in {<< 0 >>, << 64, 1 >>} :
       /\ Carries(c, n)
       /\ ~(late /\ c = 128)
       /\ ~(late /\ c = 64)
       /\ \E d \in Payload(n) :
            \E key \in {0, 16, 255}, r \in {<< 1, 2, 3 >>} \cup (IF c \in {30, 31} THEN {<< >>} ELSE {}) :
              Check(c, late, [key |-> key, key2 |-> 128 + ((key * 3) % 127), seg |-> key, ref |-> r, data |-> d, dir |-> key % 254], rest)
Spec == Init /\ [][Next]_vars
Shallow == Len(path) <= count
=============================================================================
