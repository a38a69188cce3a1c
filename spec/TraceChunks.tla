----------------------------- MODULE TraceChunks -----------------------------
(* Conformance of chunk decoding: the recorded decoding of a byte stream has  *)
(* to be the one Chunks gives, chunk by chunk, with the open directories.     *)
EXTENDS Chunks, Json, IOUtils, TLC
Recorded == TLCEval(JsonDeserialize(IOEnv.TRACE_FILE))
VARIABLES sid, pos, path, n, ok, said
vars == << sid, pos, path, n, ok, said >>
R == Recorded[sid]
Init == sid \in 1..Len(Recorded) /\ pos = R.from + 1 /\ path = << >> /\ n = 0 /\ ok = TRUE /\ said = FALSE

(* seen: [kind, data, ref, key, seg, path, position after] *)
Agrees(f, p, s) == s = << f.kind, f.data, f.ref, f.key, f.seg, p, f.end - 1 >>
Decode ==
  /\ ~said /\ ok /\ pos <= R.to
  /\ LET f == Frame(R.bytes, pos)
         p == After(path, f)
     IN IF f.kind = "bad"
        THEN /\ ok' = (R.end = "error" /\ Len(R.seen) = n)
             /\ pos' = R.to + 1 /\ n' = Len(R.seen) /\ path' = path
        ELSE /\ ok' = (n < Len(R.seen) /\ Agrees(f, p, R.seen[n + 1]))
             /\ pos' = f.end /\ path' = p /\ n' = n + 1
  /\ UNCHANGED << sid, said >>
Accepted == ok /\ n = Len(R.seen) /\ (R.wrote = -1 \/ R.end = "end")
Report == /\ ~said /\ (~ok \/ pos > R.to)
          /\ Assert(R.wrote = -1 \/ ~ok \/ n = R.wrote, << "writer and specification differ", R.id >>)
          /\ PrintT(<< "END", R.id, IF Accepted THEN "ok" ELSE "bad", n >>)
          /\ said' = TRUE /\ UNCHANGED << sid, pos, path, n, ok >>
Next == Decode \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
