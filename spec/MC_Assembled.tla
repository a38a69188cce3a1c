---------------------------- MODULE MC_Assembled ----------------------------
(* Whatever is assembled from a small schema reads back as it was said, and   *)
(* leaves no directory open.                                                  *)
EXTENDS Assembled, TLC
CONSTANTS MaxTables, MaxOccs
VARIABLES src, pos, path, out
Names == {<< >>, << 97 >>, << 90, 95 >>, << 49 >>}
Rows(n) == UNION {{r \in [1..k -> (0..3) \X Names] : \A i, j \in 1..k : i < j => r[i][1] < r[j][1]} : k \in 0..n}
Init == /\ src \in [tables : Rows(MaxTables), occs : Rows(MaxOccs), layouts : {0, 2}, scripts : {0, 3}]
        /\ pos = 1 /\ path = << >> /\ out = << >>
B == Bytes(Events(src))
Next == LET b == B IN
        pos <= Len(b) /\ LET f == Frame(b, pos) IN
        pos' = f.end /\ path' = After(path, f) /\ out' = out \o Said(path, f) /\ UNCHANGED src
Spec == Init /\ [][Next]_<< src, pos, path, out >>
Whole == LET es == Events(src) IN
         /\ Len(out) <= Len(es) /\ out = SubSeq(es, 1, Len(out))
         /\ pos > Len(B) => out = es /\ path = << >> /\ pos = Len(B) + 1
         /\ \A k \in DOMAIN path : path[k] >= 0
=============================================================================
