-------------------------------- MODULE EventsTrace ---------------------------
(* Recorded runs of an event counter, judged by Events. *)
EXTENDS Events
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, k, fails
TInit == \E i \in DOMAIN Traces : tid = i /\ InitWith(Traces[i].defs) /\ k = 1 /\ fails = {}
TNext ==
    LET o == Traces[tid].hist IN
    IF k <= Len(o)
    THEN /\ IF o[k].op = "add" THEN Add(o[k].d) ELSE Progress
         /\ fails' = fails \cup (IF o[k].due # due' THEN {<<"events", k>>} ELSE {})
         /\ k' = k + 1 /\ UNCHANGED tid
    ELSE /\ k = Len(o) + 1
         /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> fails]))
         /\ k' = k + 1 /\ UNCHANGED <<vars, tid, fails>>
TView == <<tid, k, n, fails>>
==============================================================================
