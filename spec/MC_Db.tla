-------------------------------- MODULE MC_Db --------------------------------
(* The record store in the hands of a user who does anything: every history   *)
(* over two tables, three occurrences and two layouts, up to MaxRecords       *)
(* records in a table.  What the operations mean is stated once more, without *)
(* referring to how Db computes it; ghost: the value given last to each cell. *)
EXTENDS Db, TLC
CONSTANTS MaxRecords, Numbers

S == [nf |-> << 2, 1 >>, occTab |-> << 1, 2, 1 >>, first |-> 1,
      layouts |-> << [name |-> << 1 >>, occ |-> 1], [name |-> << 2 >>, occ |-> 2], [name |-> << 3 >>, occ |-> 3] >>]
Vals == {Text(<< n >>) : n \in Numbers}

VARIABLES db, ghost, did
View == << db, ghost >>
vars == << db, ghost, did >>
Cells == UNION { {t} \X (1..MaxRecords) \X (1..S.nf[t]) : t \in 1..2 }
Init == db = EmptyStore(S) /\ ghost = [c \in Cells |-> Empty] /\ did = << "start" >>

New == /\ Len(db.tabs[CurTab(S, db)]) < MaxRecords
       /\ db' = NewRecordIn(S, db) /\ did' = << "new" >> /\ UNCHANGED ghost
Set == \E o \in 1..3, v \in Vals : \E f \in 1..S.nf[S.occTab[o]] :
       /\ db' = SetFieldIn(S, db, o, f, v) /\ did' = << "set", o, f, v >>
       /\ ghost' = IF HasCurrent(db, o) THEN [ghost EXCEPT ![<< S.occTab[o], CurrentRecord(db, o), f >>] = v] ELSE ghost
Go == \E d \in {Text(First), Text(Last), Text(Next_), Text(Previous)} \cup {IntNum(n) : n \in 0..MaxRecords} :
       /\ db' = Navigate(db, d) /\ did' = << "go", d >> /\ UNCHANGED ghost
All == db' = ShowAllIn(S, db) /\ did' = << "all" >> /\ UNCHANGED ghost
Find == \E rs \in {<< >>} \cup {<< [f |-> 1, v |-> v] >> : v \in Vals} \cup {<< [f |-> 1, v |-> v], [f |-> S.nf[CurTab(S, db)], v |-> w] >> : v, w \in Vals} :
       /\ db' = FindIn(S, db, rs) /\ did' = << "find", rs >> /\ UNCHANGED ghost
Layout == \E n \in 1..4 : db' = GoToLayout(S, db, << n >>) /\ did' = << "layout", n >> /\ UNCHANGED ghost
Next == New \/ Set \/ Go \/ All \/ Find \/ Layout
Spec == Init /\ [][Next]_vars

Ok == StoreOk(S, db)
(* what can be read is what was written last                                  *)
LastWritten == \A t \in 1..2 : \A r \in DOMAIN db.tabs[t] : \A f \in 1..S.nf[t] : db.tabs[t][r][f] = ghost[<< t, r, f >>]
(* two occurrences of a table show the same record as the same                *)
SameRecord == \A o, p \in 1..3 : (S.occTab[o] = S.occTab[p] /\ HasCurrent(db, o) /\ HasCurrent(db, p) /\ CurrentRecord(db, o) = CurrentRecord(db, p))
                => \A f \in 1..S.nf[S.occTab[o]] : ReadField(S, db, o, f) = ReadField(S, db, p, f)

Here == db.occs[db.cur]
HereNext == db'.occs[db.cur]
Members(s) == {s[i] : i \in DOMAIN s}
Others == \A o \in 1..3 : o # db.cur => db'.occs[o] = db.occs[o]

NewOk == did'[1] = "new" =>
  LET t == CurTab(S, db)
      n == Len(db.tabs[t]) + 1
  IN /\ Len(db'.tabs[t]) = n /\ SubSeq(db'.tabs[t], 1, n - 1) = db.tabs[t]
     /\ \A u \in 1..2 : u # t => db'.tabs[u] = db.tabs[u]
     /\ \A f \in 1..S.nf[t] : ReadField(S, db', db.cur, f) = Empty
     /\ \A o \in 1..3 : IF S.occTab[o] = t THEN CurrentRecord(db', o) = n /\ Members(db'.occs[o].found) = Members(db.occs[o].found) \cup {n}
                        ELSE db'.occs[o] = db.occs[o]
     /\ db'.cur = db.cur
SetOk == did'[1] = "set" =>
  /\ db'.occs = db.occs /\ db'.cur = db.cur
  /\ HasCurrent(db, did'[2]) => ReadField(S, db', did'[2], did'[3]) = did'[4]
  /\ Cardinality({c \in Cells : c[2] \in DOMAIN db.tabs[c[1]] /\ db'.tabs[c[1]][c[2]][c[3]] # db.tabs[c[1]][c[2]][c[3]]}) <= 1
GoOk == did'[1] = "go" =>
  /\ db'.tabs = db.tabs /\ db'.cur = db.cur /\ Others /\ HereNext.found = Here.found
  /\ Here.found # << >> =>
       LET n == Len(Here.found)
           d == did'[2]
       IN CASE d = Text(First) -> HereNext.pos = 1
            [] d = Text(Last) -> HereNext.pos = n
            [] d = Text(Next_) -> HereNext.pos = Min2(Here.pos + 1, n)
            [] d = Text(Previous) -> HereNext.pos = Max(Here.pos - 1, 1)
            [] OTHER -> HereNext.pos = Min2(d.n + 1, n)
Meets(t, r, rs) == \E i \in DOMAIN rs : db.tabs[t][r][rs[i].f] = rs[i].v
FindOk == did'[1] = "find" =>
  LET t == CurTab(S, db)
      hits == {r \in DOMAIN db.tabs[t] : Meets(t, r, did'[2])}
  IN /\ db'.tabs = db.tabs /\ db'.cur = db.cur /\ Others
     /\ IF hits = {} THEN Members(HereNext.found) = DOMAIN db.tabs[t]
        ELSE Members(HereNext.found) = hits /\ HereNext.pos = 1
AllOk == did'[1] = "all" =>
  /\ db'.tabs = db.tabs /\ db'.cur = db.cur /\ Others
  /\ Members(HereNext.found) = DOMAIN db.tabs[CurTab(S, db)]
LayoutOk == did'[1] = "layout" =>
  /\ db'.tabs = db.tabs /\ db'.occs = db.occs
  /\ db'.cur = IF did'[2] <= 3 THEN did'[2] ELSE db.cur
StepsOk == [][NewOk /\ SetOk /\ GoOk /\ FindOk /\ AllOk /\ LayoutOk]_vars
=============================================================================
