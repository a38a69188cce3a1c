-------------------------------- MODULE MC_VM --------------------------------
(* The interpreter on its own: every test of up to MaxLen statements taken    *)
(* from a list, followed by a second test, with a script that can be called.  *)
(* Checked are the properties of VM, and that every run ends.                 *)
EXTENDS VM
CONSTANT MaxLen

N(n) == << [k |-> "val", v |-> IntNum(n)] >>
T(c) == << [k |-> "val", v |-> Text(c)] >>
V(x) == << [k |-> "var", s |-> x] >>
F(o, f) == << [k |-> "fld", o |-> o, f |-> f] >>
Op(a, o, b) == a \o << [k |-> "op", s |-> o] >> \o b
S == [nf |-> << 2, 1 >>, occTab |-> << 1, 2, 1 >>, first |-> 1,
      layouts |-> << [name |-> << 97 >>, occ |-> 1], [name |-> << 98 >>, occ |-> 2], [name |-> << 99 >>, occ |-> 3] >>]
Inc(x) == [k |-> "set", v |-> x, e |-> Op(V(x), "+", N(1))]
Stop(x, n) == [k |-> "exit", e |-> Op(V(x), ">=", N(n))]
Exit == [k |-> "exit", e |-> Op(N(1), "==", N(1))]
Statements == <<
  [k |-> "set", v |-> "x", e |-> N(0)], Inc("x"), [k |-> "set", v |-> "y", e |-> F(1, 1)],
  [k |-> "new"], [k |-> "find"], [k |-> "pfind"], [k |-> "all"],
  [k |-> "setf", o |-> 1, f |-> 1, e |-> N(7)], [k |-> "setf", o |-> 3, f |-> 2, e |-> V("x")],
  [k |-> "nav", e |-> T(First), x |-> << >>], [k |-> "nav", e |-> T(Next_), x |-> << >>], [k |-> "nav", e |-> N(0), x |-> << >>],
  [k |-> "layout", e |-> T(<< 98 >>)], [k |-> "layout", e |-> T(<< 99 >>)], [k |-> "layout", e |-> T(<< 120 >>)],
  [k |-> "call", e |-> T(<< 115 >>)], [k |-> "call", e |-> T(<< 120 >>)],
  [k |-> "show", e |-> V("x")], Exit,
  [k |-> "assert", e |-> Op(V("x"), "!=", N(1))],
  [k |-> "if", arms |-> << [c |-> Op(F(1, 1), "==", N(7)), b |-> << Inc("x") >>], [c |-> Op(V("x"), "==", N(0)), b |-> << [k |-> "new"] >>] >>,
               els |-> << << [k |-> "show", e |-> N(9)] >> >>],
  [k |-> "loop", b |-> << Inc("i"), [k |-> "new"], Stop("i", 2) >>],
  [k |-> "loop", b |-> << Inc("x"), [k |-> "nav", e |-> T(Next_), x |-> << Op(N(1), "==", N(1)) >>],
                          [k |-> "if", arms |-> << [c |-> Op(V("x"), "==", N(3)), b |-> << Exit >>] >>, els |-> << >>], Stop("x", 5) >>],
  [k |-> "call", e |-> T(<< 114 >>)],
  [k |-> "nav", e |-> T(Previous), x |-> << >>],
  [k |-> "if", arms |-> << [c |-> Op(V("x"), "<", N(2)), b |-> << Inc("x"), [k |-> "call", e |-> T(<< 115 >>)] >>] >>, els |-> << << >> >>],
  [k |-> "loop", b |-> << [k |-> "set", v |-> "j", e |-> N(0)], Inc("i"), [k |-> "loop", b |-> << Inc("j"), Inc("x"), Stop("j", 2) >>], Stop("i", 2) >>] >>
(* new; then a script that calls itself until a field is set                   *)
Rec == << [k |-> "if", arms |-> << [c |-> Op(F(1, 1), "!=", N(7)), b |-> << [k |-> "setf", o |-> 1, f |-> 1, e |-> N(7)], [k |-> "call", e |-> T(<< 113 >>)], [k |-> "show", e |-> F(1, 1)] >>] >>, els |-> << >>] >>
Script == << [k |-> "set", v |-> "x", e |-> N(5)], [k |-> "nav", e |-> T(Last), x |-> << >>], [k |-> "show", e |-> V("y")] >>
N_ == Len(Statements)
Count == IF MaxLen = 3 THEN 1 + N_ + N_ * N_ + N_ * N_ * N_ ELSE IF MaxLen = 2 THEN 1 + N_ + N_ * N_ ELSE 1 + N_
(* the i-th body: shorter ones first *)
Nth(i) ==
  LET j == i - 1
  IN IF j < 1 THEN << >>
     ELSE IF j < 1 + N_ THEN << j >>
     ELSE LET k == j - 1 - N_
          IN IF k < N_ * N_ THEN << (k \div N_) + 1, (k % N_) + 1 >>
             ELSE LET m == k - N_ * N_ IN << (m \div (N_ * N_)) + 1, ((m \div N_) % N_) + 1, (m % N_) + 1 >>
Body(b) == << [k |-> "set", v |-> "x", e |-> N(0)], [k |-> "set", v |-> "i", e |-> N(0)] >> \o [i \in DOMAIN b |-> Statements[b[i]]]
Given == [i \in 1..Count |->
  [S |-> S, scripts |-> [s |-> Script, q |-> Rec, r |-> << [k |-> "layout", e |-> T(<< 97 >>)], [k |-> "all"], [k |-> "new"], [k |-> "call", e |-> T(<< 113 >>)] >>],
   names |-> [s |-> << 115 >>, q |-> << 113 >>, r |-> << 114 >>],
   tests |-> << [name |-> "first", script |-> "own", body |-> Body(Nth(i))],
                [name |-> "second", script |-> "own", body |-> << [k |-> "show", e |-> V("x")], [k |-> "new"] >>] >>]]

Init == \E s \in 1..Count : InitFor(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* one thing happens next, and something always does *)
Live == Finished \/ ENABLED Next
(* what a run that is over leaves behind *)
Ends == <>[]Finished
Depth == Len(frames) <= 4
(* an outcome only says fail when an assertion was false *)
FailOnlyByAssertion == [][(test' = test /\ out = "run" /\ out' = "fail") => OnStmt("assert") /\ Val(Ins.s.e) = Bool(FALSE)]_vars
(* a step looks at records or changes them, but only one table grows at a time *)
OnlyNewGrows == [][(test' = test /\ \E t \in DOMAIN db.tabs : Len(db'.tabs[t]) # Len(db.tabs[t])) => OnStmt("new")]_vars
=============================================================================
