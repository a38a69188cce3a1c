------------------------------- MODULE Fmp12 -------------------------------
(* The catalog of an fmp12 file, as a machine that reads the chunks of the    *)
(* sectors in chain order.  Catalog db:                                       *)
(*   tables    id -> [name, fields: id -> [name, desc, type, acc, user]]      *)
(*   occs      id -> [name, table]         cur: occurrence being read         *)
(*   rels      id -> [t1, t2, f1, f2, cmp] layouts id -> [name, occ]          *)
(*   sources   id -> [name, user, at]: external data sources; at: the stored  *)
(*             location                                                       *)
(*   scripts   id -> [name, code, segs, data]  code: step records; segs: the  *)
(*             same in numbered parts; data: what belongs to single steps     *)
EXTENDS Chunks, CalcCode, Opcodes, FiniteSets

None == << >>
NoFields == [x \in {} |-> 0]
Empty == [tables |-> NoFields, occs |-> NoFields, rels |-> NoFields, layouts |-> NoFields, scripts |-> NoFields, sources |-> NoFields, cur |-> 0]
Table0 == [name |-> None, fields |-> NoFields]
Field0 == [name |-> None, desc |-> None, type |-> None, acc |-> None, user |-> None]
Occ0 == [name |-> None, table |-> 0]
Layout0 == [name |-> None, occ |-> 0]
Source0 == [name |-> None, user |-> None, at |-> None]
Script0 == [name |-> None, code |-> None, segs |-> NoFields, data |-> << >>]

Has(f, x) == x \in DOMAIN f
Put(f, x, v) == (x :> v) @@ f
Ensure(f, x, v) == IF Has(f, x) THEN f ELSE Put(f, x, v)

Comparison == << "Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual", "Cartesian" >>

(* What a chunk read with the directories p open adds to the catalog. *)
Read(db, p, f) ==
  LET n == Len(p)
      opens == f.kind = "push"
      Under(k) == f.kind = "ref" /\ f.key = k
      text == Unmask(f.data)
      Is(q) == n = Len(q) /\ \A k \in 1..n : q[k] = -1 \/ p[k] = q[k]
  IN CASE Is(<< 3, 16, 5, -1 >>) ->
            LET t == p[4] - 128 IN
            IF opens THEN [db EXCEPT !.tables = Ensure(@, t, Table0)]
            ELSE IF Under(16) THEN [db EXCEPT !.tables[t].name = text] ELSE db
       [] n = 4 /\ p[2] = 3 /\ p[3] = 5 /\ p[1] >= 128 ->
            LET t == p[1] - 128
                x == p[4]
                has == [db EXCEPT !.tables = Ensure(@, t, Table0)]
            IN IF opens THEN [has EXCEPT !.tables[t].fields = Ensure(@, x, Field0)]
               ELSE IF f.kind # "ref" THEN db
               ELSE CASE f.key = 16 -> [db EXCEPT !.tables[t].fields[x].name = text]
                      [] f.key = 3 -> [db EXCEPT !.tables[t].fields[x].desc = text]
                      [] f.key = 2 -> [db EXCEPT !.tables[t].fields[x].type = text]
                      [] f.key = 129 -> [db EXCEPT !.tables[t].fields[x].acc = text]
                      [] f.key = 130 -> [db EXCEPT !.tables[t].fields[x].user = text]
                      [] OTHER -> db
       [] Is(<< 3, 17, 5, 0 >>) ->
            IF opens THEN [db EXCEPT !.cur = f.data[Len(f.data)]]
            ELSE IF Under(2) THEN [db EXCEPT !.occs = Put(@, db.cur, [Occ0 EXCEPT !.table = f.data[7]])]
            ELSE IF Under(16) THEN [db EXCEPT !.occs[db.cur].name = text] ELSE db
       [] Is(<< 3, 17, 5, 0, 251 >>) ->
            IF f.kind = "data" /\ f.data # << >> THEN [db EXCEPT !.rels = Ensure(@, f.data[5], [t1 |-> db.cur, t2 |-> f.data[3], f1 |-> 0, f2 |-> 0, cmp |-> "Equal"])]
            ELSE db
       [] Is(<< 3, 251, 5, -1, 3 >>) ->
            IF Under(1) /\ Has(db.rels, p[4])
            THEN [db EXCEPT !.rels[p[4]] = [@ EXCEPT !.cmp = Comparison[f.data[1] + 1], !.f1 = Num2(f.data, 3) - 128, !.f2 = Num2(f.data, 6) - 128]]
            ELSE db
       [] Is(<< 4, 1, 7, -1 >>) ->
            IF opens THEN [db EXCEPT !.layouts = Ensure(@, p[4], Layout0)]
            ELSE IF Under(2) THEN [db EXCEPT !.layouts[p[4]].occ = f.data[2] - 128]
            ELSE IF Under(16) THEN [db EXCEPT !.layouts[p[4]].name = text] ELSE db
       [] Is(<< 17, 1, -1, -1 >>) ->
            IF Under(16) THEN [db EXCEPT !.scripts = Put(@, p[4], [(IF Has(@, p[4]) THEN @[p[4]] ELSE Script0) EXCEPT !.name = text])] ELSE db
       [] Is(<< 17, 5, -1 >>) /\ ((f.kind = "ref" /\ f.key = 4) \/ (f.kind = "segment" /\ f.seg = 4)) ->
            [db EXCEPT !.scripts[p[3]].code = @ \o f.data]
       [] Is(<< 17, 5, -1, 4 >>) ->
            IF f.kind = "segment" THEN [db EXCEPT !.scripts[p[3]].segs = Put(@, f.seg, f.data)] ELSE db
       [] Is(<< 17, 5, -1, 5, -1, 128 >>) /\ Under(1) ->
            [db EXCEPT !.scripts[p[3]].data = Append(@, << p[5], "name", text >>)]
       [] Is(<< 17, 5, -1, 5, -1, 128, 5 >>) /\ Under(5) ->
            [db EXCEPT !.scripts[p[3]].data = Append(@, << p[5], "result", Stored(f.data, 1) >>)]
       [] Is(<< 17, 5, -1, 5, -1, 129, 5 >>) /\ Under(5) ->
            [db EXCEPT !.scripts[p[3]].data = Append(@, << p[5], "calc", Stored(f.data, 1) >>)]
       [] Is(<< 32, 5, -1 >>) ->
            IF opens THEN [db EXCEPT !.sources = Ensure(@, p[3], Source0)]
            ELSE IF Under(16) THEN [db EXCEPT !.sources[p[3]].name = text]
            ELSE IF Under(130) /\ f.code = 6 THEN [db EXCEPT !.sources[p[3]].at = f.data]
            ELSE IF Under(130) THEN [db EXCEPT !.sources[p[3]].user = text] ELSE db
       [] OTHER -> db

(* A stored location: four bytes, then length and text of the kind, length,   *)
(* two bytes and the parts of the path, length and text of the file name.  In *)
(* the path 218 ends a directory, 219 is the parent, 65 a ":".   *)
RECURSIVE Parts(_)
Parts(s) == IF s = << >> THEN << >>
            ELSE (CASE Head(s) = 218 -> << 47 >> [] Head(s) = 219 -> << 46, 46 >> [] Head(s) = 65 -> << 58 >> [] OTHER -> << Xor(Head(s), 90) >>) \o Parts(Tail(s))
Location(b) ==
  IF b = None THEN [type |-> None, path |-> None, file |-> None]
  ELSE LET n == b[5]
           at == 6 + n                 \* length of the path
           m == b[at]
           to == at + 3 + m            \* length of the file name
       IN [type |-> Unmask(SubSeq(b, 6, 5 + n)), path |-> Parts(SubSeq(b, at + 3, at + 2 + m)), file |-> Unmask(SubSeq(b, to + 1, to + b[to]))]

(* ------------------------------------------------------------ script steps *)
RECURSIVE Ordered(_), Joined(_, _)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Ordered(S) == IF S = {} THEN << >> ELSE << Least(S) >> \o Ordered(S \ {Least(S)})
Joined(f, keys) == IF keys = << >> THEN << >> ELSE f[Head(keys)] \o Joined(f, Tail(keys))

CodeBytes(s) == s.code \o Joined(s.segs, Ordered(DOMAIN s.segs))
Record(b, k) == SubSeq(b, 28 * (k - 1) + 1, 28 * k)
Number(rec) == IF rec[1] = 2 THEN rec[3] ELSE Num2(rec, 3)

(* a step: kind, number, arguments; an argument is a text or a calculation    *)
Args(db, s, op, n) ==
  LET mine == SelectSeq(s.data, LAMBDA d : d[1] = n /\
                 (CASE d[2] = "name" -> op = "SetVariable" [] d[2] = "result" -> op = "ExitScript" [] OTHER -> TRUE))
  IN [k \in DOMAIN mine |-> << IF mine[k][2] = "name" THEN "text" ELSE "calc", mine[k][3] >>]
Step(db, s, rec) ==
  LET op == Opcode[rec[22]]
      n == Number(rec)
      target == IF op = "PerformScript" THEN IF rec[9] \in DOMAIN db.scripts
                     THEN << << "text", << 34 >> \o db.scripts[rec[9]].name \o << 34 >> >> >>
                     ELSE << << "gone", << >> >> >>   \* deleted since: not said what is shown for it
                ELSE << >>
  IN [op |-> op, n |-> n, args |-> target \o Args(db, s, op, n)]
Steps(db, s) ==
  LET b == CodeBytes(s)
      all == [k \in 1..(Len(b) \div 28) |-> Record(b, k)]
      known == SelectSeq(all, LAMBDA rec : Known(rec[22]))
  IN [k \in DOMAIN known |-> Step(db, s, known[k])]
=============================================================================
