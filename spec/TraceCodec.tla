----------------------------- MODULE TraceCodec -----------------------------
(* Conformance of the encodings: each recorded batch of calls, << kind,       *)
(* argument, results >>, has to give what Codec gives.                        *)
EXTENDS Codec, Json, IOUtils
Recorded == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES sid, at
vars == << sid, at >>
R == Recorded[sid]

Right(c) ==
  LET k == c[1] x == c[2] r == c[3] IN
  CASE k = "int" -> Len(r) = 2 /\ r[1] = PutInt(x) /\ r[2] = x
    [] k = "getint" -> r = << GetInt(x) >>
    [] k = "path" -> Len(r) = 2 /\ IsPath(r[1], x) /\ r[2] = x
    [] k = "getpath" -> r = << GetPath(x) >>
    [] k = "text" -> Len(r) = 2 /\ r[1] = Mask(x) /\ r[2] = x
    [] k = "name" -> Len(r) = 2 /\ r[1] = Name(x) /\ r[2] = Lowered(x)

Init == sid \in 1..Len(Recorded) /\ at = 0
(* at: calls accepted so far; -1 at the end                                   *)
Step == at >= 0 /\ at < Len(R.calls) /\ Right(R.calls[at + 1]) /\ at' = at + 1 /\ UNCHANGED sid
Report == /\ at >= 0
          /\ LET ok == at = Len(R.calls) IN
             /\ IF ok THEN TRUE ELSE ~Right(R.calls[at + 1])
             /\ PrintT(<< "END", R.id, IF ok THEN "ok" ELSE "bad", IF ok THEN << >> ELSE R.calls[at + 1] >>)
          /\ at' = -1 /\ UNCHANGED sid
Spec == Init /\ [][Step \/ Report]_vars
=============================================================================
