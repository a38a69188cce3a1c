------------------------------ MODULE MC_Args ------------------------------
(* Every text of at most N characters over a small alphabet between a step's  *)
(* parentheses: the machine's arguments are the pieces at the cut positions.  *)
EXTENDS BurnScript
CONSTANT N
Alphabet == {"a", " ", ",", "(", ")", "\"", "\n"}
VARIABLES m, raw
vars == << m, raw >>
Init == m = [Start EXCEPT !.mode = "args", !.head = "assert", !.blocks = << "script" >>] /\ raw = << >>
Type == /\ m.mode = "args" /\ Len(raw) < N
        /\ \E c \in Alphabet : m' = Feed(m, c) /\ raw' = Append(raw, c)
Next == Type
Spec == Init /\ [][Next]_vars
Closed == m.mode = "code" => m.args = SplitArgs(SubSeq(raw, 1, Len(raw) - 1))
Open1 == m.mode = "args" => /\ m.quote = (QuotesBefore(raw, Len(raw) + 1) % 2 = 1)
                            /\ m.depth = Level(raw, Len(raw) + 1)
=============================================================================
