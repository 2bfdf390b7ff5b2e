------------------------------ MODULE MovingTrace ------------------------------
(***************************************************************************)
(* Recorded runs with moving arrays, judged by Moving.  The driver has     *)
(* computed what each sample of each contribution would be under the       *)
(* response for each update time; fit[p][n] are the times that explain     *)
(* sample n of pair p (n = 0 is the last sample before the loop).          *)
(* sum[m][n]: the microphone is the sum of its contributions.              *)
(* calls: [t, fit]: at the call of the processor at loop index t, the      *)
(* times whose positions are those of array a.                             *)
(***************************************************************************)
EXTENDS Moving, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, fails
T == Traces[tid]
In(x, s) == \E k \in DOMAIN s : s[k] = x
\* the time of a response: that of its moving end (both ends agree if both move)
TimeOf(q) == IF q[1] > q[2] THEN q[1] ELSE q[2]
TInit == tid \in DOMAIN Traces /\ InitWith(Traces[tid].mv) /\
         fails = {<<"before the loop", p>> : p \in {k \in DOMAIN T.fit : ~ In(0, T.fit[k][1])}}
                 \cup {<<"sum", 0>> : m \in {x \in DOMAIN T.sum : ~ T.sum[x][1]}}
Calls == {k \in DOMAIN T.calls : T.calls[k].t = t}
JudgeMove == {<<"position", t>> : k \in {x \in Calls : \E a \in Arrays : ~ In(pos'[a], T.calls[x].fit[a])}}
JudgeSample == {<<"response", t + 1>> : p \in {k \in DOMAIN T.fit : ~ In(TimeOf(resp[mv.pairs[k]]), T.fit[k][t + 2])}}
               \cup {<<"sum", t + 1>> : m \in {x \in DOMAIN T.sum : ~ T.sum[x][t + 2]}}
TNext ==
    IF t < T.last
    THEN \/ Move /\ fails' = fails \cup JudgeMove /\ UNCHANGED tid
         \/ Propagate /\ fails' = fails \cup JudgeSample /\ UNCHANGED tid
    ELSE /\ phase # "end" /\ phase' = "end"
         /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> fails]))
         /\ UNCHANGED <<mv, t, pos, resp, used, seen, tid, fails>>
TView == <<tid, t, phase>>
================================================================================
