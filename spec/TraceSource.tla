----------------------------- MODULE TraceSource -----------------------------
(* Conformance of script compilation: BurnScript reads each recorded source   *)
(* and has to end with exactly the scripts the real compiler produced.        *)
EXTENDS BurnScript, Json, IOUtils, FiniteSets

Recorded == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES sid, pos, m, said
vars == << sid, pos, m, said >>
Src == Recorded[sid].src
Seen == Recorded[sid].seen

Init == sid \in 1..Len(Recorded) /\ pos = 1 /\ m = Start /\ said = FALSE
Read == /\ ~said /\ pos <= Len(Src)
        /\ m' = Feed(m, Src[pos])
        /\ pos' = pos + 1
        /\ UNCHANGED << sid, said >>

Norm(a) == IF a = << << >> >> THEN << >> ELSE a
SameSteps(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].op = b[i].op /\ a[i].args = Norm(b[i].args)
Same(a, b) == a.name = b.name /\ a.args = Norm(b.args) /\ SameSteps(a.steps, b.steps)
Accepted == Len(m.done) = Len(Seen) /\ \A i \in DOMAIN Seen : Same(m.done[i], Seen[i])

Report == /\ ~said /\ pos > Len(Src)
          /\ Assert(Complete(m), << "incomplete source", Recorded[sid].id >>)
          /\ PrintT(<< "END", Recorded[sid].id, IF Accepted THEN "ok" ELSE "bad" >>)
          /\ said' = TRUE /\ UNCHANGED << sid, pos, m >>
Next == Read \/ Report
Spec == Init /\ [][Next]_vars
Nested == said => NestedOk(m)
=============================================================================
