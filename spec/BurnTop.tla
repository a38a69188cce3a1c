------------------------------ MODULE BurnTop ------------------------------
(* Compiling a whole burn source: definitions of tables, table occurrences,   *)
(* value lists, relationships, script blocks and tests, read one character at *)
(* a time.  Script blocks are read by the BurnScript machine.                 *)
(* State t:                                                                   *)
(*    lex    "code", "text" (quoted), "calc" (braces), "block" (brackets)     *)
(*    kind   definition being read, "" between definitions                    *)
(*    toks   words and marks of the definition that are not used yet          *)
(*    s      BurnScript machine of the current block                          *)
(*    out    everything defined so far                                        *)
(*    want   what has to follow, in order; bad: something else did            *)
EXTENDS BurnScript

Kinds == {"table", "relationship", "value_list", "table_occurence", "script", "test"}
Nothing == [tables |-> << >>, occs |-> << >>, lists |-> << >>, rels |-> << >>, scripts |-> << >>, tests |-> << >>]
TopStart == [lex |-> "code", word |-> "", quote |-> FALSE, kind |-> "", name |-> "", ref |-> << >>,
             last |-> << >>, s |-> Start, script |-> NoScript, out |-> Nothing, want |-> << >>, bad |-> FALSE]

(* last: the tokens since the last use, at most four; enough to recognise     *)
(* "table : NAME", "A : B" and "end kind ;"                                   *)
Push(t, tok) == [t EXCEPT !.last = SubSeq(Append(@, tok), IF Len(@) >= 4 THEN 2 ELSE 1, Len(@) + 1)]
Ends(t, toks) == Len(t.last) >= Len(toks) /\ SubSeq(t.last, Len(t.last) - Len(toks) + 1, Len(t.last)) = toks

Define(t) ==          \* "end kind ;" was read, or a block's "]" at top level
  CASE t.kind = "table" -> [t.out EXCEPT !.tables = Append(@, t.name)]
    [] t.kind = "value_list" -> [t.out EXCEPT !.lists = Append(@, t.name)]
    [] t.kind = "table_occurence" -> [t.out EXCEPT !.occs = Append(@, << t.name, t.ref >>)]
    [] t.kind = "relationship" -> [t.out EXCEPT !.rels = Append(@, t.ref)]
    [] t.kind = "test" -> [t.out EXCEPT !.tests = Append(@, [name |-> t.name, script |-> t.script])]
(* What a definition has to have: a name, or a colon and a bracket, first; the *)
(* kind and a semicolon after "end"; a colon and a name after "table" in an    *)
(* occurrence; a colon and a block after "script" in a test.                   *)
Marks == {";", ":", ",", "!", "=", "[", "\"", "{"}
IsName(w) == w \notin Kinds \cup Marks \cup {"end"} /\ SubSeq(w, 1, 1) \notin {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "."}
First(kind) == CASE kind = "relationship" -> << ":" >> [] kind = "script" -> << ":", "[" >> [] OTHER -> << "name" >>
Follows(t, tok) ==
  CASE tok = "end" -> << t.kind, ";" >>
    [] t.kind = "table_occurence" /\ tok = "table" -> << ":", "name" >>
    [] t.kind = "test" /\ tok = "script" -> << ":", "[" >>
    [] OTHER -> << >>
Meets(w, tok) == IF w = "name" THEN IsName(tok) ELSE tok = w

Fresh(t) == [t EXCEPT !.want = << >>, !.kind = "", !.name = "", !.ref = << >>, !.last = << >>, !.script = NoScript]

Token(t0, tok) ==
  IF t0.bad THEN t0
  ELSE IF t0.kind = "" THEN (IF tok \in Kinds THEN [t0 EXCEPT !.kind = tok, !.last = << >>, !.want = First(tok)] ELSE [t0 EXCEPT !.bad = TRUE])
  ELSE IF t0.want # << >> /\ ~Meets(Head(t0.want), tok) THEN [t0 EXCEPT !.bad = TRUE]
  ELSE LET t == [t0 EXCEPT !.want = IF @ = << >> THEN Follows(t0, tok) ELSE Tail(@)]
           p == Push(t, tok)
           n == Len(p.last)
       IN IF Ends(p, << "end", t.kind, ";" >>) THEN Fresh([p EXCEPT !.out = Define(p)])
          ELSE IF t.kind # "relationship" /\ t.kind # "script" /\ t.name = "" THEN [p EXCEPT !.name = tok]
          ELSE IF t.kind = "table_occurence" /\ n >= 3 /\ p.last[n - 2] = "table" /\ p.last[n - 1] = ":"
               THEN [p EXCEPT !.ref = tok]
          ELSE IF t.kind = "relationship" /\ n >= 3 /\ p.last[n - 1] = ":" /\ p.last[n - 2] \notin {",", ":"}
               THEN [p EXCEPT !.ref = << p.last[n - 2], tok >>]
          ELSE p

TopWord(t) == IF t.word = "" THEN t ELSE Token([t EXCEPT !.word = ""], t.word)

Block(t) ==           \* the end of a bracketed block
  CASE t.bad \/ (t.kind \in {"script", "test"} /\ t.s.bad) -> [t EXCEPT !.bad = TRUE]
    [] t.kind = "test" /\ Len(t.s.done) # 1 -> [t EXCEPT !.bad = TRUE]
    [] t.kind = "script" -> Fresh([t EXCEPT !.out.scripts = @ \o t.s.done])
    [] t.kind = "test" -> [t EXCEPT !.script = t.s.done[1]]
    [] OTHER -> t

Top(t, c) ==
  IF t.bad THEN t ELSE
  CASE t.lex = "text" -> IF c = "\"" THEN [t EXCEPT !.lex = "code"] ELSE t
    [] t.lex = "calc" -> CASE c = "\"" -> [t EXCEPT !.quote = ~@]
                           [] c = "}" /\ ~t.quote -> [t EXCEPT !.lex = "code"]
                           [] OTHER -> t
    [] t.lex = "block" -> CASE c = "]" /\ ~t.quote -> Block([t EXCEPT !.lex = "code"])
                            [] OTHER -> [t EXCEPT !.s = Feed(@, c), !.quote = IF c = "\"" THEN ~@ ELSE @]
    [] OTHER ->
       CASE c \in Spaces -> TopWord(t)
         [] c = "\"" -> Token([TopWord(t) EXCEPT !.lex = "text"], "\"")
         [] c = "{" -> Token([TopWord(t) EXCEPT !.lex = "calc", !.quote = FALSE], "{")
         [] c = "[" -> [Token(TopWord(t), c) EXCEPT !.lex = "block", !.quote = FALSE, !.s = Start]
         [] c \in {";", ":", ",", "!", "="} -> Token(TopWord(t), c)
         [] OTHER -> [t EXCEPT !.word = @ \o c]

TopComplete(t) == t.lex = "code" /\ t.kind = "" /\ t.word = "" /\ ~t.bad
(* The source stops inside a text, a calculation, a block, or before what has  *)
(* to follow.                                                                  *)
TopCut(t) == t.lex # "code" \/ t.want # << >>
=============================================================================
