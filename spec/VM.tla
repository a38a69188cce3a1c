--------------------------------- MODULE VM ---------------------------------
(* The interpreter: runs the tests of a scenario one after the other over one *)
(* record store.                                                              *)
(*                                                                            *)
(* A scenario is a record with                                                *)
(*   S        schema (see Db)                                                 *)
(*   scripts  function: script name -> body                                   *)
(*   names    function: script name -> its code points                        *)
(*   tests    sequence of [name, script: name, body]                          *)
EXTENDS Calc, Script

CONSTANT Scenarios

VARIABLES
  sid,      \* the scenario
  test,     \* number of the running test
  frames,   \* call stack: sequence of [name, own: test's own script?, pc, vars]
  db,       \* record store
  mode,     \* "browse" or "find"
  crit,     \* find requests
  out       \* outcome of the test: "run", "pass", "fail"

vars == << sid, test, frames, db, mode, crit, out >>

Sc == Scenarios[sid]

(* The code of every script and test; computed once, kept in a TLC register. *)
AllCodes == TLCEval([i \in 1..Len(Scenarios) |->
            [scripts |-> TLCEval([n \in DOMAIN Scenarios[i].scripts |-> TLCEval(CodeOf(Scenarios[i].scripts[n]))]),
             tests   |-> TLCEval([t \in 1..Len(Scenarios[i].tests) |-> TLCEval(CodeOf(Scenarios[i].tests[t].body))])]])

ASSUME TLCSet(1, AllCodes)
Codes == TLCGet(1)

NoVars == [x \in {} |-> Empty]
StartFrame(s, t) == [name |-> Scenarios[s].tests[t].script, own |-> TRUE, pc |-> 1, vars |-> NoVars]

InitFor(s) ==
  /\ sid = s
  /\ test = Min2(1, Len(Scenarios[s].tests))
  /\ frames = IF test = 0 THEN << >> ELSE << StartFrame(s, 1) >>
  /\ db = EmptyStore(Scenarios[s].S)
  /\ mode = "browse"
  /\ crit = << >>
  /\ out = IF test = 0 THEN "pass" ELSE "run"

Top == frames[Len(frames)]
Code == IF Top.own THEN Codes[sid].tests[test] ELSE Codes[sid].scripts[Top.name]
Running == out = "run" /\ frames # << >>
AtEnd == Top.pc > Len(Code)
Ins == Code[Top.pc]
Env == [vars |-> Top.vars, S |-> Sc.S, db |-> db]
Val(e) == Eval(e, Env)
IsTrue(v) == v = Bool(TRUE)
Flag(v) == v \in {Bool(TRUE), Text(<< 116, 114, 117, 101 >>)}     \* true or "true"

Goto(pc) == [frames EXCEPT ![Len(frames)].pc = pc]
Advance == Goto(Top.pc + 1)

On(op) == Running /\ ~AtEnd /\ Ins.op = op
OnStmt(k) == On("do") /\ Ins.s.k = k

(* ------------------------------- control -------------------------------- *)
Branch ==
  /\ On("br")
  /\ frames' = IF IsTrue(Val(Ins.e)) THEN Advance ELSE Goto(Ins.no)
  /\ UNCHANGED << sid, test, db, mode, crit, out >>

Jump ==
  /\ On("end") \/ On("rep")
  /\ frames' = Goto(Ins.to)
  /\ UNCHANGED << sid, test, db, mode, crit, out >>

Pass ==
  /\ On("eif") \/ On("loop")
  /\ frames' = Advance
  /\ UNCHANGED << sid, test, db, mode, crit, out >>

ExitLoopIf ==
  /\ On("xit")
  /\ frames' = IF IsTrue(Val(Ins.e)) THEN Goto(Ins.to) ELSE Advance
  /\ UNCHANGED << sid, test, db, mode, crit, out >>

ScriptNamed(v) == {n \in DOMAIN Sc.scripts : Sc.names[n] = v}
Call ==
  /\ OnStmt("call")
  /\ LET v == Val(Ins.s.e)
         ns == IF v.t = "T" THEN ScriptNamed(v.c) ELSE {}
     IN frames' = IF ns = {} THEN Advance
                  ELSE Append(Advance, [name |-> CHOOSE n \in ns : TRUE,
                                        own |-> FALSE, pc |-> 1, vars |-> NoVars])
  /\ UNCHANGED << sid, test, db, mode, crit, out >>

Return ==
  /\ Running /\ AtEnd
  /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
  /\ out' = IF Len(frames) = 1 THEN "pass" ELSE out
  /\ UNCHANGED << sid, test, db, mode, crit >>

Assign ==
  /\ OnStmt("set")
  /\ frames' = [Advance EXCEPT ![Len(frames)].vars = (Ins.s.v :> Val(Ins.s.e)) @@ Top.vars]
  /\ UNCHANGED << sid, test, db, mode, crit, out >>

AssertTrue ==
  /\ OnStmt("assert")
  /\ frames' = Advance
  /\ out' = IF Val(Ins.s.e) = Bool(FALSE) THEN "fail" ELSE out
  /\ UNCHANGED << sid, test, db, mode, crit >>

(* A dialog shows the value of a calculation. *)
Show ==
  /\ OnStmt("show")
  /\ frames' = Advance
  /\ UNCHANGED << sid, test, db, mode, crit, out >>

(* ------------------------------- records -------------------------------- *)
NewRecord ==
  /\ OnStmt("new")
  /\ frames' = Advance
  /\ db' = NewRecordIn(Sc.S, db)
  /\ UNCHANGED << sid, test, mode, crit, out >>

SetField ==
  /\ OnStmt("setf") /\ mode = "browse"
  /\ frames' = Advance
  /\ db' = SetFieldIn(Sc.S, db, Ins.s.o, Ins.s.f, Val(Ins.s.e))
  /\ UNCHANGED << sid, test, mode, crit, out >>

Request ==
  /\ OnStmt("setf") /\ mode = "find"
  /\ frames' = Advance
  /\ crit' = Append(crit, [f |-> Ins.s.f, v |-> Val(Ins.s.e)])
  /\ UNCHANGED << sid, test, db, mode, out >>

EnterFind ==
  /\ OnStmt("find")
  /\ frames' = Advance
  /\ mode' = "find"
  /\ UNCHANGED << sid, test, db, crit, out >>

PerformFind ==
  /\ OnStmt("pfind")
  /\ frames' = Advance
  /\ db' = FindIn(Sc.S, db, crit)
  /\ mode' = "browse"
  /\ crit' = << >>
  /\ UNCHANGED << sid, test, out >>

ShowAll ==
  /\ OnStmt("all")
  /\ frames' = Advance
  /\ db' = ShowAllIn(Sc.S, db)
  /\ UNCHANGED << sid, test, mode, crit, out >>

Stuck(d) == d.occs[d.cur].pos = db.occs[db.cur].pos
Nav ==
  /\ OnStmt("nav")
  /\ IF mode = "find" THEN db' = db /\ frames' = Advance
     ELSE /\ db' = Navigate(db, Val(Ins.s.e))
          /\ frames' = IF Ins.s.x # << >> /\ Flag(Val(Ins.s.x[1])) /\ Stuck(db')
                       THEN Goto(Ins.to) ELSE Advance
  /\ UNCHANGED << sid, test, mode, crit, out >>

Layout ==
  /\ OnStmt("layout")
  /\ frames' = Advance
  /\ LET v == Val(Ins.s.e)
     IN db' = IF v.t = "T" THEN GoToLayout(Sc.S, db, v.c) ELSE db
  /\ UNCHANGED << sid, test, mode, crit, out >>

(* -------------------------------- tests --------------------------------- *)
Ended == out \in {"pass", "fail"}
NextTest ==
  /\ Ended /\ test < Len(Sc.tests)
  /\ test' = test + 1
  /\ frames' = << StartFrame(sid, test + 1) >>
  /\ db' = EmptyStore(Sc.S)
  /\ mode' = "browse" /\ crit' = << >> /\ out' = "run"
  /\ UNCHANGED sid

Finished == Ended /\ test = Len(Sc.tests)

Step == \/ Branch \/ Jump \/ Pass \/ ExitLoopIf \/ Call \/ Return \/ Assign \/ AssertTrue \/ Show
        \/ NewRecord \/ SetField \/ Request \/ EnterFind \/ PerformFind \/ ShowAll \/ Nav \/ Layout
Next == Step \/ NextTest

(* What the user sees of a step: what a dialog shows, how a test ended. *)
Output ==
  IF OnStmt("show") THEN << [k |-> "show", v |-> Val(Ins.s.e)] >>
  ELSE IF out = "run" /\ out' # "run" THEN << [k |-> "end", name |-> Sc.tests[test].name, out |-> out'] >>
  ELSE << >>

(* ------------------------------ properties ------------------------------- *)
TypeOk ==
  /\ mode \in {"browse", "find"}
  /\ out \in {"run", "pass", "fail"}
  /\ test \in 0..Len(Sc.tests)
  /\ out = "pass" => frames = << >>
  /\ \A i \in DOMAIN frames : frames[i].own = (i = 1)

StoreConsistent == StoreOk(Sc.S, db)

(* Nothing outside the current run of the current script changes a variable.  *)
FramesBelowKept ==
  [][test' = test /\ Len(frames) > 0 =>
       \A i \in 1..(Len(frames) - 1) :
          i <= Len(frames') /\ frames'[i].vars = frames[i].vars]_vars

(* A call starts with no variables; a return gives the caller's back.         *)
FreshCallee ==
  [][(test' = test /\ Len(frames') > Len(frames)) =>
       /\ frames'[Len(frames')].vars = NoVars
       /\ SubSeq(frames', 1, Len(frames) - 1) = SubSeq(frames, 1, Len(frames) - 1)]_vars

(* Records are only ever added within a test, and values change one at a time.*)
DataGrows ==
  [][test' = test =>
       /\ \A t \in DOMAIN db.tabs : Len(db'.tabs[t]) \in {Len(db.tabs[t]), Len(db.tabs[t]) + 1}
       /\ Cardinality({ << t, r, f >> \in UNION { {t} \X (1..Len(db.tabs[t])) \X (1..Sc.S.nf[t]) : t \in DOMAIN db.tabs } :
                          db'.tabs[t][r][f] # db.tabs[t][r][f]}) <= 1]_vars

(* In find mode no value changes. *)
FindKeepsData == [][(test' = test /\ mode = "find" /\ mode' = "find" /\ ~OnStmt("new")) => db'.tabs = db.tabs]_vars

(* An outcome is final for its test. *)
OutcomeFinal == [][(test' = test /\ Ended) => out' = out]_vars

(* A fresh start for every test. *)
CleanStart ==
  [][test' # test => /\ Len(frames') = 1 /\ frames'[1].vars = NoVars /\ frames'[1].pc = 1
                     /\ mode' = "browse" /\ crit' = << >>
                     /\ db' = EmptyStore(Sc.S)]_vars
=============================================================================
