------------------------------ MODULE MC_Script ------------------------------
(* The code Compile gives a body, its jumps derived from sizes, runs like the *)
(* body itself, read as nested statements with a stack of what remains to be  *)
(* done.  Every body up to MaxSize statements, every outcome of every         *)
(* condition.                                                                 *)
EXTENDS Script, TLC

CONSTANT MaxSize

Leaf(k) == [k |-> k, e |-> 0]
(* Bodies(n): all bodies of n statements, a chain or a loop counting as one.  *)
RECURSIVE Bodies(_), Statements(_), Arms(_, _)
Bodies(n) ==
  IF n = 0 THEN {<< >>}
  ELSE UNION { {<< s >> \o b : s \in Statements(k), b \in Bodies(n - k)} : k \in 1..n }
(* m branches with n statements in all *)
Arms(m, n) ==
  IF m = 0 THEN (IF n = 0 THEN {<< >>} ELSE {})
  ELSE UNION { {<< [c |-> 0, b |-> b] >> \o a : b \in Bodies(k), a \in Arms(m - 1, n - k)} : k \in 0..n }
Statements(n) ==
  (IF n = 1 THEN {Leaf("show"), Leaf("exit"), Leaf("nav")} ELSE {})
  \cup { [k |-> "loop", b |-> b] : b \in Bodies(n - 1) }
  \cup UNION { { [k |-> "if", arms |-> a, els |-> << >>] : a \in Arms(m, n - 1) } : m \in 1..n }
  \cup UNION { UNION { { [k |-> "if", arms |-> a, els |-> << e >>] : a \in Arms(m, n - 1 - j), e \in Bodies(j) } : m \in 1..n } : j \in 0..(n - 1) }

(* A number for each condition and plain statement, in reading order. *)
RECURSIVE Mark(_, _), MarkArms(_, _)
Mark(b, n) ==                    \* << the body, the next number >>
  IF b = << >> THEN << b, n >>
  ELSE LET s == b[1]
           r == CASE s.k = "loop" -> LET x == Mark(s.b, n + 1) IN << [s EXCEPT !.b = x[1]] @@ [e |-> n], x[2] >>
                  [] s.k = "if" -> LET a == MarkArms(s.arms, n)
                                       x == IF s.els = << >> THEN << << >>, a[2] >> ELSE Mark(s.els[1], a[2])
                                   IN << [k |-> "if", arms |-> a[1], els |-> IF s.els = << >> THEN << >> ELSE << x[1] >>], x[2] >>
                  [] OTHER -> << [s EXCEPT !.e = n], n + 1 >>
           t == Mark(Tail(b), r[2])
       IN << << r[1] >> \o t[1], t[2] >>
MarkArms(a, n) ==
  IF a = << >> THEN << a, n >>
  ELSE LET x == Mark(a[1].b, n + 1)
           t == MarkArms(Tail(a), x[2])
       IN << << [c |-> n, b |-> x[1]] >> \o t[1], t[2] >>

VARIABLES body, pc, todo
vars == << body, pc, todo >>

(* ------------------------------ the code --------------------------------- *)
Code == CodeOf(body)
RECURSIVE Settle(_)
Settle(p) ==
  IF p > Len(Code) THEN p
  ELSE CASE Code[p].op \in {"eif", "loop"} -> Settle(p + 1)
         [] Code[p].op = "end" -> Settle(Code[p].to)
         [] OTHER -> p
CodeEvent == IF pc > Len(Code) THEN << "over", 0 >>
             ELSE LET i == Code[pc]
                  IN CASE i.op = "br" -> << "if", i.e >>
                       [] i.op = "xit" -> << "exit", i.e >>
                       [] i.op = "do" -> << i.s.k, i.s.e >>
                       [] i.op = "rep" -> << "again", 0 >>
CodeStep(yes) ==
  LET i == Code[pc]
  IN Settle(CASE i.op = "br" -> IF yes THEN pc + 1 ELSE i.no
              [] i.op = "xit" -> IF yes THEN i.to ELSE pc + 1
              [] i.op = "do" -> IF yes /\ i.s.k = "nav" THEN i.to ELSE pc + 1
              [] i.op = "rep" -> i.to)

(* --------------------------- the nested reading --------------------------- *)
(* todo: what remains, innermost first: sequence of [b, again], again: << >>, *)
(* or the body of the loop this is a round of.                                *)
Rest(t) == << [t[1] EXCEPT !.b = Tail(@)] >> \o Tail(t)
Do(t, b) == << [b |-> b, again |-> << >>] >> \o t
RECURSIVE Unwind(_), Reach(_)
Unwind(t) == IF t[1].again # << >> THEN Tail(t) ELSE Unwind(Tail(t))     \* behind the innermost loop
InLoop(t) == \E i \in DOMAIN t : t[i].again # << >>
Reach(t) ==
  IF t = << >> THEN t
  ELSE IF t[1].b = << >> THEN (IF t[1].again # << >> THEN t ELSE Reach(Tail(t)))
  ELSE IF t[1].b[1].k = "loop" THEN Reach(<< [b |-> t[1].b[1].b, again |-> << t[1].b[1].b >>] >> \o Rest(t))
  ELSE t
Event == IF todo = << >> THEN << "over", 0 >>
         ELSE IF todo[1].b = << >> THEN << "again", 0 >>
         ELSE LET s == todo[1].b[1] IN IF s.k = "if" THEN << "if", s.arms[1].c >> ELSE << s.k, s.e >>
TodoStep(yes) ==
  Reach(IF todo[1].b = << >> THEN << [todo[1] EXCEPT !.b = todo[1].again[1]] >> \o Tail(todo)
        ELSE LET s == todo[1].b[1]
             IN CASE s.k = "if" /\ yes -> Do(Rest(todo), s.arms[1].b)
                  [] s.k = "if" /\ Len(s.arms) > 1 -> << [todo[1] EXCEPT !.b[1].arms = Tail(@)] >> \o Tail(todo)
                  [] s.k = "if" -> IF s.els = << >> THEN Rest(todo) ELSE Do(Rest(todo), s.els[1])
                  [] s.k \in {"exit", "nav"} /\ yes /\ InLoop(todo) -> Unwind(todo)
                  [] OTHER -> Rest(todo))

Init == /\ body \in { Mark(b, 1)[1] : b \in UNION { Bodies(n) : n \in 0..MaxSize } }
        /\ pc = Settle(1)
        /\ todo = Reach(<< [b |-> body, again |-> << >>] >>)
Next == /\ CodeEvent = Event /\ Event[1] # "over"
        /\ \E yes \in BOOLEAN : pc' = CodeStep(yes) /\ todo' = TodoStep(yes)
        /\ UNCHANGED body
Spec == Init /\ [][Next]_vars

InStep == CodeEvent = Event
SizeOk == Len(Code) = Size(body)
=============================================================================
