--------------------------- MODULE TraceAssembled ---------------------------
(* Conformance of the assembler: the catalog sector of each recorded file is  *)
(* decoded chunk by chunk and has to say what Events gives for its source.    *)
(* next: the successor of each sector; names: what the source was generated   *)
(* with; seen: ids of the tables in the decompiled file                       *)
EXTENDS Assembled, Json, IOUtils
Recorded == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES sid, pos, path, out, ok, said
vars == << sid, pos, path, out, ok, said >>
R == Recorded[sid]
Init == sid \in 1..Len(Recorded) /\ pos = 1 /\ path = << >> /\ out = << >> /\ ok = TRUE /\ said = FALSE
Decode ==
  /\ ~said /\ ok /\ pos <= Len(R.bytes) - R.pad
  /\ LET f == Frame(R.bytes, pos) IN
     /\ ok' = (f.kind # "bad" /\ f.end <= Len(R.bytes) + 1 /\ (f.kind = "pop" => path # << >>))
     /\ pos' = f.end /\ path' = After(path, f) /\ out' = out \o Said(path, f)
  /\ UNCHANGED << sid, said >>
(* sector 1 gives the highest number, sectors 2 to the last are the chain     *)
Chained(n) == Len(n) = 4 /\ n = << 4, 3, 4, 0 >>
Accepted ==
  /\ ok /\ R.status = "done" /\ Chained(R.next) /\ R.outside = 0
  /\ path = << >> /\ out = Events(R.src)
  /\ [k \in DOMAIN R.src.tables |-> R.src.tables[k][2]] = R.names.tables
  /\ [k \in DOMAIN R.src.occs |-> R.src.occs[k][2]] = R.names.occs
  /\ R.src.scripts = R.names.scripts
  /\ R.seen = [k \in DOMAIN R.src.tables |-> R.src.tables[k][1]]
  /\ R.header = R.name \o << 47 >>
Report == /\ ~said /\ (IF ok THEN pos > Len(R.bytes) - R.pad ELSE TRUE)
          /\ PrintT(<< "END", R.id, IF Accepted THEN "ok" ELSE "bad", pos, path >>)
          /\ said' = TRUE /\ UNCHANGED << sid, pos, path, out, ok >>
Next == Decode \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
