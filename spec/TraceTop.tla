------------------------------ MODULE TraceTop ------------------------------
(* Conformance of burn compilation: BurnTop reads each recorded source and    *)
(* has to end with exactly the definitions the real compiler kept.            *)
EXTENDS BurnTop, Json, IOUtils, FiniteSets

Recorded == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES sid, pos, t, said
vars == << sid, pos, t, said >>
Src == Recorded[sid].src
Seen == Recorded[sid].seen

Init == sid \in 1..Len(Recorded) /\ pos = 1 /\ t = TopStart /\ said = FALSE
Read == /\ ~said /\ pos <= Len(Src)
        /\ t' = Top(t, Src[pos])
        /\ pos' = pos + 1
        /\ UNCHANGED << sid, said >>

Norm(a) == IF a = << << >> >> THEN << >> ELSE a
SameSteps(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].op = b[i].op /\ a[i].args = Norm(b[i].args)
SameScript(a, b) == a.name = b.name /\ a.args = Norm(b.args) /\ SameSteps(a.steps, b.steps)
(* what was defined, by kind, in ascending id order; ids are distinct by      *)
(* being keys, and definitions are in source order                            *)
Accepted ==
  /\ Seen.tables = t.out.tables
  /\ Seen.lists = t.out.lists
  /\ Seen.occs = t.out.occs
  /\ Seen.rels = t.out.rels
  /\ Len(Seen.scripts) = Len(t.out.scripts)
  /\ \A i \in DOMAIN Seen.scripts : SameScript(t.out.scripts[i], Seen.scripts[i])
  /\ Len(Seen.tests) = Len(t.out.tests)
  /\ \A i \in DOMAIN Seen.tests : Seen.tests[i].name = t.out.tests[i].name /\ SameScript(t.out.tests[i].script, Seen.tests[i].script)

Report == /\ ~said /\ pos > Len(Src)
          /\ Assert(TopComplete(t), << "incomplete source", Recorded[sid].id >>)
          /\ PrintT(<< "END", Recorded[sid].id, IF Accepted THEN "ok" ELSE "bad" >>)
          /\ said' = TRUE /\ UNCHANGED << sid, pos, t >>
Next == Read \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
