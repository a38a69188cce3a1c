--------------------------------- MODULE Db ---------------------------------
(* The record store: tables, their records, and for every table occurrence    *)
(* the found set and the current position.                                    *)
(*                                                                            *)
(* A schema is a record with                                                  *)
(*   nf       number of fields of each table                                  *)
(*   occTab   table of each occurrence                                        *)
(*   first    the occurrence shown first (0: the schema has none)             *)
(*   layouts  sequence of [name: code points, occ]                            *)
(* Tables, fields and occurrences are numbered from 1 in schema order.        *)
(*                                                                            *)
(* A store is a record with                                                   *)
(*   tabs  for each table the sequence of its records, a record being the     *)
(*         sequence of its field values                                       *)
(*   occs  for each occurrence [found: record numbers, pos: index in found]   *)
(*   cur   the current occurrence                                             *)
(* pos is 0 exactly when the found set is empty.                              *)
EXTENDS Values, FiniteSets

EmptyStore(S) ==
  [tabs |-> [t \in 1..Len(S.nf) |-> << >>],
   occs |-> [o \in 1..Len(S.occTab) |-> [found |-> << >>, pos |-> 0]],
   cur  |-> S.first]

TabOf(S, o) == S.occTab[o]
CurTab(S, db) == S.occTab[db.cur]
HasCurrent(db, o) == db.occs[o].pos # 0
CurrentRecord(db, o) == db.occs[o].found[db.occs[o].pos]

AllRecords(db, t) == [i \in 1..Len(db.tabs[t]) |-> i]

(* -------------------------------- actions -------------------------------- *)
NewRecordIn(S, db) ==
  LET t == CurTab(S, db)
      n == Len(db.tabs[t]) + 1
      blank == [f \in 1..S.nf[t] |-> Empty]
  IN [db EXCEPT
        !.tabs[t] = Append(@, blank),
        !.occs = [o \in DOMAIN @ |->
                    IF S.occTab[o] = t
                    THEN [found |-> Append(@[o].found, n), pos |-> Len(@[o].found) + 1]
                    ELSE @[o]]]

SetFieldIn(S, db, o, f, v) ==
  IF ~HasCurrent(db, o) THEN db
  ELSE [db EXCEPT !.tabs[TabOf(S, o)][CurrentRecord(db, o)][f] = v]

ReadField(S, db, o, f) ==
  IF ~HasCurrent(db, o) THEN Empty
  ELSE db.tabs[TabOf(S, o)][CurrentRecord(db, o)][f]

First == << 102, 105, 114, 115, 116 >>
Last == << 108, 97, 115, 116 >>
Next_ == << 110, 101, 120, 116 >>
Previous == << 112, 114, 101, 118, 105, 111, 117, 115 >>

(* dest: the value of the navigation argument; position numbers count from 0 *)
Target(dest, pos, n) ==
  CASE n = 0 -> 0
    [] n > 0 /\ dest = Text(First) -> 1
    [] n > 0 /\ dest = Text(Last) -> n
    [] n > 0 /\ dest = Text(Next_) -> IF pos < n THEN pos + 1 ELSE n
    [] n > 0 /\ dest = Text(Previous) -> IF pos > 1 THEN pos - 1 ELSE 1
    [] n > 0 /\ IsNum(dest) -> IF dest.n >= n THEN n ELSE dest.n + 1
    [] OTHER -> pos

Navigate(db, dest) ==
  LET o == db.occs[db.cur]
  IN [db EXCEPT !.occs[db.cur].pos = Target(dest, o.pos, Len(o.found))]

ShowAllIn(S, db) ==
  LET all == AllRecords(db, CurTab(S, db))
  IN [db EXCEPT !.occs[db.cur].found = all,
                !.occs[db.cur].pos = IF all = << >> THEN 0 ELSE Max(@, 1)]

(* requests: sequence of [o, f, v] *)
Matches(row, requests) == \E i \in DOMAIN requests : row[requests[i].f] = requests[i].v
FindIn(S, db, requests) ==
  LET t == CurTab(S, db)
      hits == SelectSeq(AllRecords(db, t), LAMBDA r : Matches(db.tabs[t][r], requests))
  IN IF hits = << >> THEN ShowAllIn(S, db)
     ELSE [db EXCEPT !.occs[db.cur] = [found |-> hits, pos |-> 1]]

GoToLayout(S, db, name) ==
  LET ls == {i \in DOMAIN S.layouts : S.layouts[i].name = name}
  IN IF ls = {} THEN db
     ELSE [db EXCEPT !.cur = S.layouts[CHOOSE i \in ls : TRUE].occ]

(* ------------------------------ properties ------------------------------- *)
Increasing(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
OccOk(S, db, o) ==
  /\ Increasing(db.occs[o].found)
  /\ \A i \in DOMAIN db.occs[o].found : db.occs[o].found[i] \in 1..Len(db.tabs[TabOf(S, o)])
  /\ IF db.occs[o].found = << >> THEN db.occs[o].pos = 0
     ELSE db.occs[o].pos \in 1..Len(db.occs[o].found)
StoreOk(S, db) ==
  /\ \A o \in DOMAIN db.occs : OccOk(S, db, o)
  /\ \A t \in DOMAIN db.tabs : \A r \in DOMAIN db.tabs[t] : Len(db.tabs[t][r]) = S.nf[t]
=============================================================================
