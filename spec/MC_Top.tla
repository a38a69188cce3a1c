------------------------------- MODULE MC_Top -------------------------------
(* Which rows of words are sound sources, stated on the whole row instead of   *)
(* word by word: a sound source is a row of definitions, each with what it has *)
(* to have.  The machine of BurnTop refuses exactly the others, never takes a  *)
(* refusal back, and keeps one thing for each definition.                      *)
EXTENDS BurnTop, Integers
CONSTANT Longest
Words == {"table", "table_occurence", "relationship", "end", ";", ":", "x"}
VARIABLES ts, t
vars == << ts, t >>
Init == ts = << >> /\ t = TopStart
(* a refused row is only continued while it is short *)
Next == /\ Len(ts) < Longest /\ (t.bad => Len(ts) < 5)
        /\ \E w \in Words : ts' = Append(ts, w) /\ t' = Token(t, w)
Spec == Init /\ [][Next]_vars

DefOk(d) ==
  LET n == Len(d)
      named == d[1] # "relationship"
      body == 3..(n - 3)
  IN /\ n >= 5 /\ d[1] \in Kinds
     /\ (IF named THEN IsName(d[2]) ELSE d[2] = ":")
     /\ SubSeq(d, n - 2, n) = << "end", d[1], ";" >>
     /\ \A j \in body : d[j] # "end"
     /\ d[1] = "table_occurence" => \A j \in body : d[j] = "table" => j + 2 <= n - 3 /\ d[j + 1] = ":" /\ IsName(d[j + 2])
RECURSIVE Count(_)
(* how many definitions a sound row has, -1 for the others                     *)
Count(r) ==
  IF r = << >> THEN 0
  ELSE LET cuts == {i \in 5..Len(r) : DefOk(SubSeq(r, 1, i))}
       IN IF cuts = {} THEN -1
          ELSE LET i == CHOOSE i \in cuts : \A j \in cuts : i <= j
                   rest == Count(SubSeq(r, i + 1, Len(r)))
               IN IF rest = -1 THEN -1 ELSE rest + 1
Kept == Len(t.out.tables) + Len(t.out.occs) + Len(t.out.rels)
Exact == LET n == Count(ts) IN (n # -1) = (~t.bad /\ t.kind = "") /\ (n # -1 => Kept = n)
Final == [][t.bad => t'.bad /\ t'.out = t.out]_vars
=============================================================================
