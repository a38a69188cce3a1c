------------------------------- MODULE Limits -------------------------------
(* Where the interpreter in src/testing is known to leave the specification.  *)
(* Those sources count as test files of the repository, so what is wrong in   *)
(* them can not be repaired here; each kind of defect is shown by a fixed     *)
(* scenario of its own and listed in known_findings.txt under the name given  *)
(* here.  StepLimits is the set of defects the next step of the specification *)
(* would meet; a recorded run is judged up to the first such step.            *)
(*                                                                            *)
(* What the interpreter has and the specification does not is followed in     *)
(* three variables:                                                           *)
(*   bt     its one flag for "a branch of the current chain was taken"        *)
(*   scope  the loop started last, in any script                              *)
(*   slots  the variables it keeps for each call depth, also after a return   *)
EXTENDS VM

VARIABLES bt, scope, slots
gvars == << bt, scope, slots >>

GhostInit ==
  /\ bt = FALSE
  /\ scope = << >>
  /\ slots = [d \in 1..Len(frames) |-> NoVars]

(* ----------------------------- calculations ------------------------------ *)
Quoted(v) == IF v.t = "T" THEN << 34 >> \o v.c \o << 34 >> ELSE << >>
Fine(op, d1, d2) == Holds(op, d1) = Holds(op, d2)
OpLimits(r, op, x, y) ==
  IF x.t = "U" \/ y.t = "U" THEN {"unspecified"}
  ELSE IF r = 1 THEN
    (IF IsNum(x) /\ IsNum(y)
     THEN (IF Fine(op, NumCmp(x, y), TextCmp(Decimal(x), Decimal(y))) THEN {} ELSE {"number-order"})
     ELSE IF IsText(x) /\ IsText(y)
     THEN (IF Fine(op, TextCmp(Chars(x), Chars(y)), TextCmp(Quoted(x), Quoted(y))) THEN {} ELSE {"text-order"})
     ELSE {"unspecified"})
  ELSE IF op \in {"*", "/"} /\ IsNum(x) /\ IsNum(y) /\ NumSign(x) * NumSign(y) = 0 /\ (NumSign(x) < 0 \/ NumSign(y) < 0)
  THEN {"negative-zero"}
  ELSE {}

Kept(x) == IF x \in DOMAIN slots[Len(frames)] THEN slots[Len(frames)][x] ELSE Empty

OnlyClosing(T, j) == \A k \in (j + 1)..Len(T) : T[k].k = "rp"

RECURSIVE RangeLimits(_, _, _, _, _, _, _)
RECURSIVE ArgLimits(_, _, _, _, _, _)
PrimaryLimits(T, D, i, j, b, env) ==
  CASE T[i].k = "val" -> IF T[i].v.t = "B" THEN {"truth-value"}
                         ELSE IF T[i].v.t = "T" /\ ~T[i].a THEN {"text-literal"} ELSE {}
    [] T[i].k = "var" -> IF Kept(T[i].s) # VarValue(env, T[i].s) THEN {"stale-variables"}
                         ELSE IF VarValue(env, T[i].s).t = "B" THEN {"truth-value"} ELSE {}
    [] T[i].k = "fld" -> IF T[i].o # env.db.cur THEN {"field-of-other-occurrence"}
                         ELSE IF ~HasCurrent(env.db, T[i].o) THEN {"no-record"}
                         ELSE IF ReadField(env.S, env.db, T[i].o, T[i].f).t = "B" THEN {"truth-value"} ELSE {}
    [] T[i].k = "lp"  -> RangeLimits(T, D, i + 1, j - 1, b + 1, env, 1)
    [] T[i].k = "fn"  ->
         IF T[i].s = "Get" THEN {"get-account"}
         ELSE (IF OnlyClosing(T, j) THEN {} ELSE {"call-position"})
              \cup (IF NextComma(T, D, i + 2, j - 1, b + 1) # 0 THEN {"call-arguments"} ELSE {})
              \cup (IF T[i].s = "Abs"
                    THEN LET x == EvalRange(T, D, i + 2, j - 1, b + 1, env)
                         IN IF x.t = "N" /\ x.k <= 2 /\ Abs(x.n) < 262144 THEN {} ELSE {"abs-single-precision"}
                    ELSE {})
              \cup ArgLimits(T, D, i + 2, j - 1, b + 1, env)
ArgLimits(T, D, i, j, b, env) ==
  LET c == NextComma(T, D, i, j, b)
  IN IF c = 0 THEN RangeLimits(T, D, i, j, b, env, 1)
     ELSE RangeLimits(T, D, i, c - 1, b, env, 1) \cup ArgLimits(T, D, c + 1, j, b, env)
RangeLimits(T, D, i, j, b, env, r) ==
  IF r > Len(Ranks) THEN PrimaryLimits(T, D, i, j, b, env)
  ELSE LET p == LastOp(T, D, i, j, b, Ranks[r])
       IN IF p = 0 THEN RangeLimits(T, D, i, j, b, env, r + 1)
          ELSE RangeLimits(T, D, i, p - 1, b, env, 1) \cup RangeLimits(T, D, p + 1, j, b, env, 1)
               \cup OpLimits(r, T[p].s, EvalRange(T, D, i, p - 1, b, env), EvalRange(T, D, p + 1, j, b, env))

CalcLimits(e) ==
  LET ls == RangeLimits(e, Depths(e), 1, Len(e), 0, Env, 1)
  IN IF ls = {} /\ Val(e).t = "U" THEN {"unspecified"} ELSE ls

(* --------------------------------- steps --------------------------------- *)
When(c, x) == IF c THEN {x} ELSE {}
Leaves(ins) == When(~ins.in, "exit-outside-loop") \cup When(ins.after, "exit-before-inner-loop")
Place(pc) == << Top.name, Top.own, pc >>

DoLimits(s) ==
  CASE s.k \in {"set", "assert", "show", "layout"} -> CalcLimits(s.e)
    [] s.k = "setf" -> CalcLimits(s.e) \cup When(mode = "browse" /\ ~HasCurrent(db, s.o), "no-record")
    [] s.k = "call" ->
         CalcLimits(s.e) \cup When(Val(s.e).t # "T" \/ ScriptNamed(Chars(Val(s.e))) = {}, "unknown-script")
    [] s.k = "nav" ->
         CalcLimits(s.e)
         \cup (IF s.x = << >> THEN {} ELSE CalcLimits(s.x[1]))
         \cup (IF mode = "find" THEN {}
               ELSE IF ~HasCurrent(db, db.cur) THEN {"no-record"}
               ELSE IF s.x = << >> \/ ~Stuck(Navigate(db, Val(s.e))) THEN {}
               ELSE IF Flag(Val(s.x[1])) THEN Leaves(Ins) ELSE {"exit-flag"})
    [] OTHER -> {}

InsLimits ==
  CASE Ins.op = "br" ->
         LET c == CalcLimits(Ins.e)
         IN IF c # {} \/ IsTrue(Val(Ins.e)) THEN c
            ELSE When(Ins.nested, "nested-if-skipped") \cup When(Ins.more /\ bt, "branch-flag")
    [] Ins.op = "end" ->
         IF ~Ins.more THEN {} ELSE When(~bt, "branch-flag") \cup When(Ins.rest, "nested-if-skipped")
    [] Ins.op = "rep" -> When(scope # Place(Ins.to - 1), "loop-scope")
    [] Ins.op = "xit" ->
         LET c == CalcLimits(Ins.e)
         IN IF c # {} \/ ~IsTrue(Val(Ins.e)) THEN c ELSE Leaves(Ins)
    [] Ins.op = "do" -> DoLimits(Ins.s)
    [] OTHER -> {}

TestLimits ==
  When(out = "fail", "after-failure")
  \cup When(mode # "browse" \/ crit # << >> \/ db # EmptyStore(Sc.S), "leftovers")

StepLimits ==
  IF Finished THEN {}
  ELSE IF Ended THEN TestLimits
  ELSE IF AtEnd THEN {} ELSE InsLimits

GhostStep ==
  /\ bt' = IF ~Running \/ AtEnd THEN bt
           ELSE IF Ins.op = "br" /\ IsTrue(Val(Ins.e)) THEN TRUE
           ELSE IF Ins.op = "eif" \/ (Ins.op = "end" /\ Ins.more) THEN FALSE ELSE bt
  /\ scope' = IF Running /\ ~AtEnd /\ Ins.op = "loop" THEN Place(Top.pc) ELSE scope
  /\ slots' = [d \in 1..(Max(Len(frames'), Len(slots))) |->
                 (IF d <= Len(frames') THEN frames'[d].vars ELSE NoVars) @@ (IF d <= Len(slots) THEN slots[d] ELSE NoVars)]
=============================================================================
