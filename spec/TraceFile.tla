------------------------------ MODULE TraceFile ------------------------------
(* Conformance of decompiling: reading each recorded file by Fmp12 has to end *)
(* with the schema the real decompiler recovered.                             *)
(* sectors[k] = [next, payload]; reading starts at sector 2.                  *)
EXTENDS Fmp12, Json, IOUtils
Recorded == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES sid, sec, pos, path, db, said
vars == << sid, sec, pos, path, db, said >>
R == Recorded[sid]
Init == sid \in 1..Len(Recorded) /\ sec = 2 /\ pos = 1 /\ path = << >> /\ db = Empty /\ said = FALSE
Payload == R.sectors[sec][2]

Decode ==
  /\ ~said /\ sec # 0 /\ pos <= Len(Payload)
  /\ LET f == Frame(Payload, pos)
         p == After(path, f)
     IN /\ Assert(f.kind # "bad", << "bad chunk", R.id, sec, pos >>)
        /\ pos' = f.end /\ path' = p /\ db' = Read(db, p, f)
  /\ UNCHANGED << sid, sec, said >>
(* the rest of a sector is empty; the next one starts with no directory open  *)
NextSector ==
  /\ ~said /\ sec # 0 /\ pos > Len(Payload)
  /\ sec' = R.sectors[sec][1] /\ pos' = 1 /\ path' = << >>
  /\ UNCHANGED << sid, db, said >>

Ids(f) == Ordered(DOMAIN f)
Map(f, G(_, _)) == LET ids == Ids(f) IN [k \in DOMAIN ids |-> G(ids[k], f[ids[k]])]

FieldRow(x, v) == << x, v.name, v.desc, v.type, v.acc, v.user >>
(* the type entry of FileMaker's own files is a list of switches: as a text   *)
(* it is only determined while it is ASCII                                    *)
Ascii(s) == \A k \in DOMAIN s : s[k] < 128
SameField(e, s) == e = [s EXCEPT ![4] = IF Ascii(e[4]) THEN @ ELSE e[4]]
SameFields(e, s) == Len(e) = Len(s) /\ \A k \in DOMAIN e : SameField(e[k], s[k])
TablesOk ==
  LET ids == Ids(db.tables)
  IN /\ Len(ids) = Len(R.seen.tables)
     /\ \A k \in DOMAIN ids : LET t == db.tables[ids[k]]
                                 x == R.seen.tables[k]
                             IN x[1] = ids[k] /\ x[2] = t.name /\ SameFields(Map(t.fields, FieldRow), x[3])
OccRow(o, v) == << o, v.name, v.table >>
RelRow(r, v) == << r, v.t1, v.f1, v.t2, v.f2, v.cmp >>
LayoutRow(l, v) == << l, v.name, v.occ >>
SourceRow(x, v) == LET at == Location(v.at) IN << x, v.name, v.user, at.type, at.path, at.file >>

SameArg(e, s) == CASE e[1] = "text" -> e[2] = s [] e[1] = "gone" -> TRUE [] OTHER -> e[2] = Written(s, 1)
SameSteps(e, s) ==
  /\ Len(e) = Len(s)
  /\ \A k \in DOMAIN e : /\ e[k].op = s[k][1] /\ e[k].n = s[k][2] /\ Len(e[k].args) = Len(s[k][3])
                         /\ \A j \in DOMAIN e[k].args : SameArg(e[k].args[j], s[k][3][j])
ScriptsOk ==
  LET ids == Ids(db.scripts)
  IN /\ Len(ids) = Len(R.seen.scripts)
     /\ \A k \in DOMAIN ids : /\ R.seen.scripts[k][1] = ids[k]
                              /\ R.seen.scripts[k][2] = db.scripts[ids[k]].name
                              /\ SameSteps(Steps(db, db.scripts[ids[k]]), R.seen.scripts[k][3])

Part(x) == CASE x = "tables" -> TablesOk
             [] x = "occs" -> R.seen.occs = Map(db.occs, OccRow)
             [] x = "rels" -> R.seen.rels = Map(db.rels, RelRow)
             [] x = "layouts" -> R.seen.layouts = Map(db.layouts, LayoutRow)
             [] x = "sources" -> R.seen.sources = Map(db.sources, SourceRow)
             [] x = "scripts" -> ScriptsOk
Wrong == {k \in DOMAIN R.parts : ~Part(R.parts[k])}
Accepted == R.status = "done" /\ Wrong = {}
(* the writer's own list of what it put in, so that it and Fmp12 are checked  *)
(* against each other                                                         *)
Counted == R.wrote = << >> \/ R.wrote = << Cardinality(DOMAIN db.tables), Cardinality(DOMAIN db.occs), Cardinality(DOMAIN db.rels),
                        Cardinality(DOMAIN db.layouts), Cardinality(DOMAIN db.scripts), Cardinality(DOMAIN db.sources) >>
Report == /\ ~said /\ sec = 0
          /\ Assert(Counted, << "writer and specification differ", R.id, R.wrote, db >>)
          /\ PrintT(<< "END", R.id, IF Accepted THEN "ok" ELSE "bad", R.status, IF R.status = "done" THEN {R.parts[k] : k \in Wrong} ELSE {} >>)
          /\ said' = TRUE /\ UNCHANGED << sid, sec, pos, path, db >>
Next == Decode \/ NextSector \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
