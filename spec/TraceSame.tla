----------------------------- MODULE TraceSame -----------------------------
(* Conformance of repeated runs: the machine that compiles or decompiles has  *)
(* one result for each input.  Each record gives, for one input, the results  *)
(* observed in several runs, and the identifiers of each listing in the order *)
(* in which they were written.                                                *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Recorded == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES sid, run, result, said
vars == << sid, run, result, said >>
R == Recorded[sid]
Init == sid \in 1..Len(Recorded) /\ run = 1 /\ result = R.runs[1] /\ said = FALSE
Again == run < Len(R.runs) /\ R.runs[run + 1] = result /\ run' = run + 1 /\ UNCHANGED << sid, result, said >>
Ascending(s) == \A k \in 1..Len(s) - 1 : s[k] < s[k + 1]
Accepted == run = Len(R.runs) /\ \A k \in DOMAIN R.orders : Ascending(R.orders[k])
Report == /\ ~said /\ (IF run < Len(R.runs) THEN R.runs[run + 1] # result ELSE TRUE)
          /\ PrintT(<< "END", R.id, IF Accepted /\ R.status = "done" THEN "ok" ELSE "bad", run >>)
          /\ said' = TRUE /\ UNCHANGED << sid, run, result >>
Next == (~said /\ Again) \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
