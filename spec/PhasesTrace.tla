-------------------------------- MODULE PhasesTrace ---------------------------
(* Recorded runs of a phase counter, judged by Phases. *)
EXTENDS Phases
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, fails
TInit == \E i \in DOMAIN Traces : tid = i /\ InitWith(Traces[i].len) /\ fails = {}
Look(o, k) == (IF o[1] # ph THEN {<<"phase", k>>} ELSE {}) \cup (IF o[2] # first THEN {<<"first sample", k>>} ELSE {})
              \cup (IF o[3] THEN {} ELSE {<<"current_phase_is", k>>})
TNext ==
    LET o == Traces[tid].hist IN
    IF n < Len(o) - 1
    THEN Progress /\ fails' = fails \cup Look(o[n + 1], n) /\ UNCHANGED tid
    ELSE /\ fails # {<<"end", 0>>}
         /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> fails \cup Look(o[n + 1], n)]))
         /\ fails' = {<<"end", 0>>} /\ UNCHANGED <<vars, tid>>
TView == <<tid, n, fails>>
==============================================================================
