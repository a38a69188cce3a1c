----------------------------- MODULE BurnScript -----------------------------
(* Compiling script source text, as a machine that reads one character at a   *)
(* time.  Source:                                                             *)
(*    define NAME(args) { statements }                                        *)
(*    statement:  step(args);   loop { .. }   if(c) { .. } elif(c) { .. } else { .. }  *)
(* The state is the record m:                                                 *)
(*    mode   "code", or "args" inside a step's parentheses                    *)
(*    word   characters of the word being read                                *)
(*    head   last complete word, "" if used up                                *)
(*    depth, quote, arg, args   progress in the parentheses                   *)
(*    blocks open blocks, innermost last: "script", "loop", "if"              *)
(*    chain  a branch of an if chain was closed: else or elif may follow      *)
(*    cur    script being defined;  done  scripts defined so far              *)
(*    bad    a step without its semicolon, or a condition without its block   *)
EXTENDS Naturals, Sequences, TLC

Spaces == {" ", "\t", "\n", "\r"}

RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(s) == IF s # << >> /\ Head(s) \in Spaces THEN TrimLeft(Tail(s)) ELSE s
TrimRight(s) == IF s # << >> /\ s[Len(s)] \in Spaces THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimLeft(TrimRight(s))

StepOf ==
  ("perform_script" :> "PerformScript") @@ ("go_to_layout" :> "GoToLayout") @@
  ("go_to_record" :> "GoToRecordRequestPage") @@ ("go_to_request" :> "GoToRecordRequestPage") @@
  ("enter_find_mode" :> "EnterFindMode") @@ ("perform_find" :> "PerformFind") @@
  ("show_all_records" :> "ShowAllRecords") @@ ("set_field" :> "SetField") @@
  ("set_variable" :> "SetVariable") @@ ("exit_loop_if" :> "ExitLoopIf") @@
  ("new_record_request" :> "NewRecordRequest") @@ ("exit_script" :> "ExitScript") @@
  ("show_custom_dialog" :> "ShowCustomDialog") @@ ("assert" :> "Assert")

NoScript == [name |-> "", args |-> << >>, steps |-> << >>]
Start == [mode |-> "code", word |-> "", head |-> "", depth |-> 0, quote |-> FALSE, arg |-> << >>, args |-> << >>,
          blocks |-> << >>, chain |-> FALSE, cur |-> NoScript, done |-> << >>, bad |-> FALSE]

Emit(m, op, args) == [m EXCEPT !.cur.steps = Append(@, [op |-> op, args |-> args])]

(* An if chain that was closed and is not continued ends here. *)
EndChain(m) == IF m.chain THEN [Emit(m, "EndIf", << >>) EXCEPT !.chain = FALSE] ELSE m

Steplike(w) == w \in DOMAIN StepOf
Conditional(w) == w \in {"if", "elif"}
(* A word is complete. *)
Word(m) ==
  IF m.word = "" THEN m
  ELSE IF Steplike(m.head) \/ Conditional(m.head) THEN [m EXCEPT !.word = "", !.head = m.word, !.bad = TRUE]
  ELSE LET n == [m EXCEPT !.word = "", !.head = m.word]
       IN CASE m.word \in {"elif", "else"} -> [n EXCEPT !.chain = FALSE]
            [] m.head = "define" -> [n EXCEPT !.cur.name = m.word, !.head = "define"]
            [] OTHER -> EndChain(n)

(* No argument at all and one empty argument are written the same way. *)
ArgsOf(m) == IF m.args = << << >> >> THEN << >> ELSE m.args
Used(m) == [m EXCEPT !.head = "", !.args = << >>]

InArgs(m, c) ==
  CASE c = "\"" -> [m EXCEPT !.quote = ~@, !.arg = Append(@, c)]
    [] m.quote -> [m EXCEPT !.arg = Append(@, c)]
    [] c = "(" -> [m EXCEPT !.depth = @ + 1, !.arg = Append(@, c)]
    [] c = ")" /\ m.depth > 0 -> [m EXCEPT !.depth = @ - 1, !.arg = Append(@, c)]
    [] c = ")" -> [m EXCEPT !.mode = "code", !.args = Append(@, Trim(m.arg)), !.arg = << >>]
    [] c = "," /\ m.depth = 0 -> [m EXCEPT !.args = Append(@, Trim(m.arg)), !.arg = << >>]
    [] OTHER -> [m EXCEPT !.arg = Append(@, c)]

Open(w) ==     \* an opening brace, its head word complete
  CASE w.head = "define" -> Used([w EXCEPT !.cur.args = ArgsOf(w), !.blocks = Append(@, "script")])
    [] w.head = "loop"   -> Used([Emit(w, "Loop", << >>) EXCEPT !.blocks = Append(@, "loop")])
    [] w.head = "if"     -> Used([Emit(w, "If", ArgsOf(w)) EXCEPT !.blocks = Append(@, "if")])
    [] w.head = "elif"   -> Used([Emit(w, "ElseIf", ArgsOf(w)) EXCEPT !.blocks = Append(@, "if")])
    [] w.head = "else"   -> Used([Emit(w, "Else", << >>) EXCEPT !.blocks = Append(@, "if")])
    [] Steplike(w.head)  -> [w EXCEPT !.bad = TRUE]
    [] OTHER -> w

Close(m) ==
  IF Steplike(m.head) \/ Conditional(m.head) THEN [m EXCEPT !.bad = TRUE]
  ELSE
  LET n == EndChain(m)
      b == n.blocks[Len(n.blocks)]
      p == [n EXCEPT !.blocks = SubSeq(@, 1, Len(@) - 1)]
  IN CASE b = "loop" -> Emit(p, "EndLoop", << >>)
       [] b = "if" -> [p EXCEPT !.chain = TRUE]
       [] b = "script" -> [p EXCEPT !.done = Append(@, p.cur), !.cur = NoScript]

Semicolon(m) ==
  IF Steplike(m.head) THEN Used(Emit(m, StepOf[m.head], ArgsOf(m)))
  ELSE IF Conditional(m.head) THEN [m EXCEPT !.bad = TRUE]
  ELSE Used(m)

InCode(m, c) ==
  CASE c \in Spaces -> Word(m)
    [] c = "(" -> [Word(m) EXCEPT !.mode = "args", !.args = << >>, !.depth = 0, !.quote = FALSE]
    [] c = "{" -> Open(Word(m))
    [] c = "}" -> Close(Word(m))
    [] c = ";" -> Semicolon(Word(m))
    [] OTHER -> [m EXCEPT !.word = @ \o c]

Feed(m, c) == IF m.bad THEN m ELSE IF m.mode = "args" THEN InArgs(m, c) ELSE InCode(m, c)
Complete(m) == m.mode = "code" /\ m.word = "" /\ m.blocks = << >> /\ ~m.chain /\ m.head = ""

(* ------------------------- what has to be true of it ---------------------- *)
(* The emitted steps nest: an independent reading of "properly nested".       *)
RECURSIVE Nesting(_, _, _)
Nesting(steps, i, stack) ==       \* the open constructs after steps i.., or << "bad" >>
  IF i > Len(steps) THEN stack
  ELSE LET op == steps[i].op
           top == IF stack = << >> THEN "" ELSE stack[Len(stack)]
           pop == SubSeq(stack, 1, Len(stack) - 1)
       IN CASE op = "If" -> Nesting(steps, i + 1, Append(stack, "if"))
            [] op = "Loop" -> Nesting(steps, i + 1, Append(stack, "loop"))
            [] op = "ElseIf" -> IF top = "if" THEN Nesting(steps, i + 1, stack) ELSE << "bad" >>
            [] op = "Else" -> IF top = "if" THEN Nesting(steps, i + 1, Append(pop, "else")) ELSE << "bad" >>
            [] op = "EndIf" -> IF top \in {"if", "else"} THEN Nesting(steps, i + 1, pop) ELSE << "bad" >>
            [] op = "EndLoop" -> IF top = "loop" THEN Nesting(steps, i + 1, pop) ELSE << "bad" >>
            [] OTHER -> Nesting(steps, i + 1, stack)

NestedOk(m) == \A i \in DOMAIN m.done : Nesting(m.done[i].steps, 1, << >>) = << >>

(* Splitting at commas, stated on positions instead of as a scan. *)
QuotesBefore(s, i) == Len(SelectSeq(SubSeq(s, 1, i - 1), LAMBDA x : x = "\""))
Quoted(s, i) == QuotesBefore(s, i) % 2 = 1
Unquoted(s, i, x) == Len(SelectSeq([j \in 1..(i - 1) |-> IF Quoted(s, j) THEN "." ELSE s[j]], LAMBDA y : y = x))
Level(s, i) == Unquoted(s, i, "(") - Unquoted(s, i, ")")
CutsAt(s) == {i \in DOMAIN s : s[i] = "," /\ ~Quoted(s, i) /\ Level(s, i) = 0}
RECURSIVE Pieces(_, _, _)
Pieces(s, cuts, from) ==
  IF cuts = {} THEN << Trim(SubSeq(s, from, Len(s))) >>
  ELSE LET c == CHOOSE x \in cuts : \A y \in cuts : x <= y
       IN << Trim(SubSeq(s, from, c - 1)) >> \o Pieces(s, cuts \ {c}, c + 1)
SplitArgs(s) == Pieces(s, CutsAt(s), 1)
=============================================================================
