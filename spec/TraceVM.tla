------------------------------- MODULE TraceVM -------------------------------
(* Conformance: what the tool printed while it ran a suite has to be the      *)
(* output of VM for the same programs: the values its dialogs show and the    *)
(* outcome of each test, in order.  A run that meets a known limit of the     *)
(* interpreter is judged up to there, unless the record says that it is to be *)
(* judged as a whole.                                                         *)
(*                                                                            *)
(* A record: the programs as the user gave them, namely S, scripts and names  *)
(* as in VM, given (the test files in order, each a sequence of tests) and    *)
(* own (the tests in the schema's source); quiet: run with --no-testing;      *)
(* log: what was printed; clean: the program ended by itself with status 0.   *)
(* kept: what the tool wrote down as the program it had read; catalog: what   *)
(* the stored schema consists of.                                             *)
EXTENDS Limits, Json, IOUtils
Reader == INSTANCE CalcCode

Input == JsonDeserialize(IOEnv.TRACE_FILE)

RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Flat(Tail(ss))
(* The tests in the order in which they run. *)
Suite(r) == IF r.quiet THEN << >> ELSE Flat(r.given) \o r.own
Recorded == TLCEval([i \in DOMAIN Input |-> [S |-> Input[i].S, scripts |-> Input[i].scripts, names |-> Input[i].names,
                                             tests |-> Suite(Input[i])]])

ASSUME TLCSet(2, Input)
Rec(i) == TLCGet(2)[i]
Log == Rec(sid).log

VARIABLES l,     \* entries of the log consumed
          said   \* the verdict was reported

tvars == << sid, test, frames, db, mode, crit, out, bt, scope, slots, l, said >>

TraceInit ==
  /\ \E s \in 1..Len(Scenarios) : InitFor(s)
  /\ GhostInit
  /\ l = 0
  /\ said = FALSE

Same(spec, seen) ==
  IF spec.k = "show" THEN seen.k = "show" /\ Agrees(spec.v, seen.v)
  ELSE seen = spec
Matched(o) == l + Len(o) <= Len(Log) /\ \A i \in DOMAIN o : Same(o[i], Log[l + i])

(* The program that was read is the one that was given: the same steps in the *)
(* same order, their arguments the same but for the space between the symbols. *)
Words(s) == Reader!Written(s, 1)
Given(a) == IF a = << << >> >> THEN << >> ELSE a            \* f() has no argument or an empty one
SameArgs(a, s) == LET b == Given(s) IN Len(a) = Len(b) /\ \A i \in DOMAIN a : Words(a[i]) = Words(b[i])
SameListing(body, steps) ==
  LET x == Listing(body)
  IN Len(x) = Len(steps) /\ \A i \in DOMAIN x : x[i].op = steps[i].op /\ SameArgs(x[i].w, steps[i].w)
KeptScripts(r) ==
  /\ Len(r.kept.scripts) = Cardinality(DOMAIN r.scripts)
  /\ \A n \in DOMAIN r.scripts : \E i \in DOMAIN r.kept.scripts :
        r.kept.scripts[i].name = n /\ SameListing(r.scripts[n], r.kept.scripts[i].steps)
KeptTests(r) ==
  LET t == Flat(r.given) \o r.own
      k == r.kept.tests
  IN Len(t) = Len(k) /\ \A i \in DOMAIN t : t[i].name = k[i].name /\ t[i].script = k[i].script /\ SameListing(t[i].body, k[i].steps)
Misread ==
  LET r == Rec(sid)
  IN CASE r.kept.state = "unknown" -> {}
       [] r.kept.state = "nothing" -> {"nothing was read"}
       [] OTHER -> (IF KeptScripts(r) THEN {} ELSE {"scripts"}) \cup (IF KeptTests(r) THEN {} ELSE {"tests"})
                   \cup (IF r.kept.catalog = r.catalog THEN {} ELSE {"catalog"})

Cut == ~Rec(sid).whole /\ StepLimits # {}

TraceStep ==
  /\ ~said /\ ~Cut
  /\ Next
  /\ GhostStep
  /\ IF Matched(Output) THEN l' = l + Len(Output) /\ said' = FALSE
     ELSE /\ PrintT(<< "END", Rec(sid).id, "bad", l, Output, IF l < Len(Log) THEN Log[l + 1] ELSE "nothing more" >>)
          /\ said' = TRUE /\ l' = l

Report ==
  /\ ~said
  /\ Finished \/ Cut
  /\ IF Misread # {} THEN PrintT(<< "END", Rec(sid).id, "bad", "misread", l, Misread >>)
     ELSE IF Finished THEN PrintT(<< "END", Rec(sid).id, IF l = Len(Log) /\ Rec(sid).clean THEN "ok" ELSE "bad", "whole", l, Len(Log) >>)
     ELSE PrintT(<< "END", Rec(sid).id, "ok", "limit", l, StepLimits >>)
  /\ said' = TRUE
  /\ UNCHANGED << sid, test, frames, db, mode, crit, out, bt, scope, slots, l >>

TraceNext == TraceStep \/ Report
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
