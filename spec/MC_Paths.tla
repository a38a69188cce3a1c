------------------------------ MODULE MC_Paths ------------------------------
(* The search for a path as an algorithm, breadth first with a queue and the  *)
(* occurrences already met, on every graph of a few occurrences: it ends and  *)
(* answers what Relation allows, whatever the order the neighbours come in.   *)
EXTENDS Relation
CONSTANT N
VARIABLES links, a, b, queue, met, answer, done
vars == << links, a, b, queue, met, answer, done >>
Node == 1..N
Pairs == {<< x, y >> \in Node \X Node : x < y}
Init == /\ \E P \in SUBSET Pairs : links = P \cup {<< p[2], p[1] >> : p \in P}
        /\ a = 1 /\ b \in Node \ {1}
        /\ queue = << << a >> >> /\ met = {a} /\ answer = << >> /\ done = FALSE
Look == /\ ~done /\ queue # << >>
        /\ LET p == Head(queue) x == p[Len(p)] ys == Next1(links, {x}) \ met
           IN IF << x, b >> \in links
              THEN answer' = Append(p, b) /\ done' = TRUE /\ UNCHANGED << queue, met >>
              ELSE /\ met' = met \cup ys
                   /\ \E order \in {s \in [1..Cardinality(ys) -> ys] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]} :
                        queue' = Tail(queue) \o [i \in DOMAIN order |-> Append(p, order[i])]
                   /\ UNCHANGED << answer, done >>
        /\ UNCHANGED << links, a, b >>
GiveUp == ~done /\ queue = << >> /\ done' = TRUE /\ UNCHANGED << links, a, b, queue, met, answer >>
Spec == Init /\ [][Look \/ GiveUp]_vars /\ WF_vars(Look \/ GiveUp)

Right == done => IsAnswer(links, a, b, answer)
Agree == done => ((answer = << >>) = (ShortestPaths(links, a, b) = {})) /\ (answer # << >> => answer \in ShortestPaths(links, a, b))
Symmetric == Distance(links, a, b) = Distance(links, b, a)
NoLonger == \A x \in Node : Distance(links, a, x) >= 0 /\ Distance(links, x, b) >= 0 => Distance(links, a, b) \in 0..Distance(links, a, x) + Distance(links, x, b)
Ends == <>done
=============================================================================
