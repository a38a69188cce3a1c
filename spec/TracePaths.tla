----------------------------- MODULE TracePaths -----------------------------
(* Conformance of the relationship graph: relationships are added one by one, *)
(* and then every recorded question, << from, to, answer >>, has to have an   *)
(* acceptable answer.                                                         *)
EXTENDS Relation, Json, IOUtils, TLC
Recorded == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES sid, k, links, said
vars == << sid, k, links, said >>
R == Recorded[sid]
Init == sid \in 1..Len(Recorded) /\ k = 0 /\ links = {} /\ said = FALSE
Add == k < Len(R.edges) /\ links' = Link(links, R.edges[k + 1][1], R.edges[k + 1][2]) /\ k' = k + 1 /\ UNCHANGED << sid, said >>
Wrong == {i \in DOMAIN R.asked : ~IsAnswer(links, R.asked[i][1], R.asked[i][2], R.asked[i][3])}
Report == /\ ~said /\ k = Len(R.edges)
          /\ PrintT(<< "END", R.id, IF R.status = "done" /\ Wrong = {} THEN "ok" ELSE "bad", IF Wrong = {} THEN << >> ELSE R.asked[CHOOSE i \in Wrong : TRUE] >>)
          /\ said' = TRUE /\ UNCHANGED << sid, k, links >>
Spec == Init /\ [][~said /\ (Add \/ Report)]_vars
=============================================================================
