---------------------------- MODULE TraceRelated ----------------------------
(* Conformance of related values: the record store is built by the recorded   *)
(* operations, and then every recorded question, << occurrence, field,        *)
(* answer >>, has to have one of the values the specification allows.         *)
EXTENDS Relation, Json, IOUtils, TLC
Recorded == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES sid, k, db, said
vars == << sid, k, db, said >>
R == Recorded[sid]
S == R.S
Init == sid \in 1..Len(Recorded) /\ k = 0 /\ db = EmptyStore(Recorded[sid].S) /\ said = FALSE
Step == /\ k < Len(R.ops)
        /\ LET o == R.ops[k + 1] IN
           db' = CASE o.k = "new" -> NewRecordIn(S, db)
                   [] o.k = "setf" -> SetFieldIn(S, db, o.o, o.f, o.v)
                   [] o.k = "layout" -> GoToLayout(S, db, o.n)
                   [] o.k = "nav" -> Navigate(db, o.v)
        /\ k' = k + 1 /\ UNCHANGED << sid, said >>
Judged(q) == R.whole \/ RelatedLimits(S, db, R.rels, q[1]) = {}
Right(q) == \E v \in RelatedValues(S, db, R.rels, q[1], q[2]) : Agrees(v, q[3])
Wrong == {i \in DOMAIN R.asked : Judged(R.asked[i]) /\ ~Right(R.asked[i])}
Report == /\ ~said /\ k = Len(R.ops)
          /\ Assert(StoreOk(S, db), << "store", R.id >>)
          /\ LET n == Cardinality({i \in DOMAIN R.asked : Judged(R.asked[i])})
                 vs == {i \in DOMAIN R.asked : Judged(R.asked[i]) /\ R.asked[i][3] # NoValue}
             IN PrintT(<< "END", R.id, IF R.status = "done" /\ Wrong = {} THEN "ok" ELSE "bad", n, Cardinality(vs),
                          UNION {RelatedLimits(S, db, R.rels, R.asked[i][1]) : i \in DOMAIN R.asked},
                          IF Wrong = {} THEN << >> ELSE LET q == R.asked[CHOOSE i \in Wrong : TRUE] IN << q, RelatedValues(S, db, R.rels, q[1], q[2]) >> >>)
          /\ said' = TRUE /\ UNCHANGED << sid, k, db >>
Spec == Init /\ [][~said /\ (Step \/ Report)]_vars
=============================================================================
