------------------------------- MODULE Script -------------------------------
(* The structure of scripts.  A body is a sequence of statements; Compile     *)
(* turns it into code whose jumps are derived from the nesting alone.         *)
(*                                                                            *)
(* Statements (field k):                                                      *)
(*   set    v, e        assignment        setf   o, f, e   set field          *)
(*   if     arms, els   arms: seq of [c, b]; els: << >> or << body >>         *)
(*   loop   b           repeat            exit   e         exit loop if       *)
(*   call   e           perform script    assert e                            *)
(*   nav    e, x        go to record, x: << >> or << exit flag >>             *)
(*   new  find  pfind  all                layout e         go to layout       *)
(*   show   e           show a dialog                                         *)
EXTENDS Integers, Sequences, FiniteSets

(* Whether a body has a statement of kind k, however deep. *)
RECURSIVE Has(_, _)
RECURSIVE HasInArms(_, _)
Has(b, k) ==
  IF b = << >> THEN FALSE
  ELSE \/ b[1].k = k
       \/ b[1].k = "if" /\ (HasInArms(b[1].arms, k) \/ (b[1].els # << >> /\ Has(b[1].els[1], k)))
       \/ b[1].k = "loop" /\ Has(b[1].b, k)
       \/ Has(Tail(b), k)
HasInArms(arms, k) == IF arms = << >> THEN FALSE ELSE Has(arms[1].b, k) \/ HasInArms(Tail(arms), k)

RECURSIVE Size(_)          \* number of instructions of a body
RECURSIVE SizeArms(_)
SizeStmt(s) ==
  CASE s.k = "if"   -> SizeArms(s.arms) + (IF s.els = << >> THEN 0 ELSE Size(s.els[1])) + 1
    [] s.k = "loop" -> Size(s.b) + 2
    [] OTHER -> 1
SizeArms(arms) == IF arms = << >> THEN 0
                  ELSE 2 + Size(arms[1].b) + SizeArms(Tail(arms))
Size(b) == IF b = << >> THEN 0 ELSE SizeStmt(b[1]) + Size(Tail(b))

(* at: address of the first instruction; out: address behind the enclosing    *)
(* loop, or 0; after: whether another loop stands further down in that loop.  *)
(* Instructions:                                                              *)
(*   [op |-> "br", e, no]  go on if e is true, else jump to no                *)
(*   [op |-> "end", to]    the end of a chosen branch: jump to `to'           *)
(*   [op |-> "eif"]        the end of a chain                                 *)
(*   [op |-> "loop"]       the start of a loop                                *)
(*   [op |-> "rep", to]    the end of a loop's body: jump to `to'             *)
(*   [op |-> "xit", e, to] jump to `to' if e is true                          *)
(*   [op |-> "do", s, to]  any other statement (to: where a nav exit leads)   *)
(* The fields nested, more, rest and after say what the branch contains, what *)
(* follows it in its chain and what follows in the loop; only Limits.tla uses *)
(* them.                                                                      *)
RECURSIVE Compile(_, _, _, _)
RECURSIVE CompileArms(_, _, _, _, _, _)
CompileStmt(s, at, out, after) ==
  CASE s.k = "if" ->
         LET end == at + SizeStmt(s) - 1
             rest == IF s.els = << >> THEN << >> ELSE s.els[1]
         IN CompileArms(s.arms, s.els, at, end, out, after)
            \o Compile(rest, at + SizeArms(s.arms), out, after)
            \o << [op |-> "eif"] >>
    [] s.k = "loop" ->
         << [op |-> "loop"] >> \o Compile(s.b, at + 1, at + Size(s.b) + 2, FALSE) \o << [op |-> "rep", to |-> at + 1] >>
    [] s.k = "exit" -> << [op |-> "xit", e |-> s.e, to |-> IF out = 0 THEN at + 1 ELSE out, in |-> out # 0, after |-> after] >>
    [] OTHER -> << [op |-> "do", s |-> s, to |-> IF out = 0 THEN at + 1 ELSE out, in |-> out # 0, after |-> after] >>

CompileArms(arms, els, at, end, out, after) ==
  IF arms = << >> THEN << >>
  ELSE LET n == Size(arms[1].b)
           more == Len(arms) > 1 \/ els # << >>
           rest(k) == HasInArms(Tail(arms), k) \/ (els # << >> /\ Has(els[1], k))
       IN << [op |-> "br", e |-> arms[1].c, no |-> at + n + 2, nested |-> Has(arms[1].b, "if"), more |-> more] >>
          \o Compile(arms[1].b, at + 1, out, after \/ rest("loop"))
          \o << [op |-> "end", to |-> end, more |-> more, rest |-> rest("if")] >>
          \o CompileArms(Tail(arms), els, at + n + 2, end, out, after)

Compile(b, at, out, after) ==
  IF b = << >> THEN << >>
  ELSE CompileStmt(b[1], at, out, after \/ Has(Tail(b), "loop"))
       \o Compile(Tail(b), at + SizeStmt(b[1]), out, after)

(* The steps a body is written as, one after the other: what the tool keeps   *)
(* of it.  w: the arguments as texts.                                         *)
StepName ==
  [set |-> "SetVariable", setf |-> "SetField", exit |-> "ExitLoopIf", call |-> "PerformScript", assert |-> "Assert",
   nav |-> "GoToRecordRequestPage", new |-> "NewRecordRequest", find |-> "EnterFindMode", pfind |-> "PerformFind",
   all |-> "ShowAllRecords", layout |-> "GoToLayout", show |-> "ShowCustomDialog"]
Line(op, w) == << [op |-> op, w |-> w] >>
RECURSIVE Listing(_)
RECURSIVE ListingOfArms(_, _)
Listing(b) ==
  IF b = << >> THEN << >>
  ELSE LET s == b[1]
       IN (CASE s.k = "if" -> ListingOfArms(s.arms, "If")
                              \o (IF s.els = << >> THEN << >> ELSE Line("Else", << >>) \o Listing(s.els[1]))
                              \o Line("EndIf", << >>)
             [] s.k = "loop" -> Line("Loop", << >>) \o Listing(s.b) \o Line("EndLoop", << >>)
             [] OTHER -> Line(StepName[s.k], s.w))
          \o Listing(Tail(b))
ListingOfArms(arms, op) ==
  IF arms = << >> THEN << >>
  ELSE Line(op, << arms[1].w >>) \o Listing(arms[1].b) \o ListingOfArms(Tail(arms), "ElseIf")

CodeOf(body) == Compile(body, 1, 0, FALSE)
=============================================================================
