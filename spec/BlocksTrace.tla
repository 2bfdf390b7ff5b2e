------------------------------ MODULE BlocksTrace ------------------------------
(* What the code answered to requests, judged by Blocks. *)
EXTENDS Blocks
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, done
TInit == \E i \in DOMAIN Traces : tid = i /\ InitWith(Traces[i].q) /\ done = FALSE
TNext == \/ Cut /\ UNCHANGED <<tid, done>>
         \/ /\ Complete /\ ~ done /\ done' = TRUE
            /\ PrintT("@@" \o ToJson([tid |-> tid,
                 fails |-> (IF Traces[tid].out # out THEN {"pieces"} ELSE {})
                           \cup (IF q.kind = "until" /\ Traces[tid].first # First(q.start, q.num, q.blk)
                                 THEN {"first index"} ELSE {})]))
            /\ UNCHANGED <<vars, tid>>
TView == <<tid, at, done>>
================================================================================
