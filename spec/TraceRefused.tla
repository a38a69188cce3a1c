---------------------------- MODULE TraceRefused ----------------------------
(* Conformance of refusing: a source whose definitions lack what they have to  *)
(* have ends in a failure that leaves no listing and no file; a source that    *)
(* lacks nothing is compiled.                                                  *)
EXTENDS BurnTop, Json, IOUtils
Recorded == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES sid, pos, t, said
vars == << sid, pos, t, said >>
R == Recorded[sid]
Init == sid \in 1..Len(Recorded) /\ pos = 1 /\ t = TopStart /\ said = FALSE
Read == /\ ~said /\ pos <= Len(R.src)
        /\ t' = Top(t, R.src[pos])
        /\ pos' = IF t'.bad THEN Len(R.src) + 1 ELSE pos + 1
        /\ UNCHANGED << sid, said >>
(* a source that only stops too early, at the very start of a text or block or *)
(* in the middle of a definition or word, is left open                         *)
Opening == LET s == TrimRight(R.src) IN s # << >> /\ s[Len(s)] \in {"\"", "{", "["}
Class == CASE t.bad -> "refused"
           [] TopComplete(t) -> "compiled"
           [] TopCut(t) /\ ~Opening -> "refused"
           [] OTHER -> "open"
Accepted ==
  CASE Class = "refused" -> R.failed /\ R.made = << >>
    [] Class = "compiled" -> ~R.failed /\ R.made # << >>
    [] OTHER -> TRUE
Report == /\ ~said /\ pos > Len(R.src)
          /\ Assert(R.expect = "" \/ R.expect = Class, << "generator and specification differ", R.id, Class >>)
          /\ PrintT(<< "END", R.id, IF Accepted THEN "ok" ELSE "bad", Class >>)
          /\ said' = TRUE /\ UNCHANGED << sid, pos, t >>
Next == Read \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
