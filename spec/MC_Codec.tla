------------------------------ MODULE MC_Codec ------------------------------
(* The encodings lose nothing: every number of 0..65535 in either half, every *)
(* code point, and every index name of up to MaxLen characters.               *)
EXTENDS Codec, FiniteSets, TLC
CONSTANTS MaxLen, Grain   \* Grain: every so many code points above 65535
VARIABLES kind, x
Chars == {32, 95} \cup (97..122)
Init == \/ kind = "int" /\ x \in 0..65535
        \/ kind = "utf8" /\ x \in 1..55295
        \/ kind = "utf8" /\ x \in 57344..65535
        \/ kind = "utf8" /\ \E k \in 0..(1048575 \div Grain) : x = 65536 + k * Grain + (k % Grain)
        \/ kind = "name" /\ x = << >>
Next == kind = "name" /\ Len(x) < MaxLen /\ \E c \in Chars : x' = Append(x, c) /\ UNCHANGED kind
Spec == Init /\ [][Next]_<< kind, x >>

(* decoding, by its definition rather than by inverting the encoder           *)
Decode8(b) == CASE b[1] < 128 -> b[1]
                [] b[1] < 224 -> (b[1] - 192) * 64 + b[2] - 128
                [] b[1] < 240 -> ((b[1] - 224) * 64 + b[2] - 128) * 64 + b[3] - 128
                [] OTHER -> (((b[1] - 240) * 64 + b[2] - 128) * 64 + b[3] - 128) * 64 + b[4] - 128
Char(p) == CHOOSE c \in Chars : Double(c) = p
Inverse ==
  CASE kind = "int" -> /\ GetInt(PutInt(<< x, 65535 - x >>)) = << x, 65535 - x >>
                       /\ \A k \in 1..4 : PutInt(<< x, 7 >>)[k] \in 0..255
                       /\ GetInt(SubSeq(PutInt(<< 3, x >>), 3, 4)) = << 0, x >>
    [] kind = "utf8" -> /\ Decode8(Unmask(Mask(<< x >>))) = x
                        /\ Len(Utf8One(x)) = (IF x < 128 THEN 1 ELSE IF x < 2048 THEN 2 ELSE IF x < 65536 THEN 3 ELSE 4)
    [] kind = "name" -> /\ Len(Name(x)) = 2 * Len(x) + 2
                        /\ \A k \in DOMAIN x : Char(<< Name(x)[2 * k - 1], Name(x)[2 * k] >>) = x[k]
=============================================================================
