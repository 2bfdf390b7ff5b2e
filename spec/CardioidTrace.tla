------------------------------ MODULE CardioidTrace ------------------------------
(* Directional microphones. A trace has a kind:                                      *)
(*   pair   one of the rows given to a differential cardioid: a wave from the front    *)
(*          and one from behind, what was given to the code (only what is between     *)
(*          the samples clean and clean + steps is the waves), and what came out,      *)
(*          times scale and the length of the period. The filter reaches half samples  *)
(*          to both sides. below: the frequency below which the filter fades, in       *)
(*          quarters of the distance of two frequencies of the filter, or -1           *)
(*   array  a source and an array of microphones in a free field: the types and        *)
(*          directions asked for, the direction to the source, whether it was refused, *)
(*          and the strength of each microphone, 2 for one without direction           *)
EXTENDS Cardioid, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, fails, done
T == Traces[tid]
TInit == \E t \in DOMAIN Traces :
           /\ tid = t /\ fails = {} /\ done = FALSE
           /\ IF Traces[t].kind = "pair" THEN InitWith(Traces[t].dist, Traces[t].front, Traces[t].back) ELSE InitWith(1, <<0>>, <<0>>)
Steps == IF T.kind = "pair" THEN T.steps ELSE 0
Abs(x) == IF x < 0 THEN 0 - x ELSE x
P4(x) == x * x * x * x
\* the filter has half + 1 frequencies; those up to below fade in, with the fourth power
Count == IF T.below \div 4 + 1 > T.half + 1 THEN T.half + 1 ELSE T.below \div 4 + 1
Bin == (2 * T.half + 1) \div 3     \* fading is only asked for with waves of period 3 from the front
Faded == T.below >= 0 /\ Bin < Count
Num == IF Faded THEN P4(Bin) ELSE 1
Den == IF Faded THEN P4(Count - 1) ELSE 1
Sample == T.clean + time + 1
Within == time >= T.half /\ time < T.steps - T.half
StepFails ==
  (IF Sample <= Len(T.main) /\ T.main[Sample] = MainNow /\ T.second[Sample] = SecondNow THEN {} ELSE {"the harness"})
  \cup (IF ~Within THEN {}
        ELSE IF Sample > Len(T.out) THEN {"number of samples"}
        ELSE IF Abs(T.out[Sample] * Den - T.scale * Heard * Num) <= T.tol * Den THEN {} ELSE {"what is heard"})
Step == /\ ~done /\ time < Steps /\ Move /\ fails' = fails \cup StepFails /\ UNCHANGED <<tid, done>>

Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Strength(k) == IF T.types[k] = "omni" THEN 2 ELSE 1 + Dot(T.dirs[k], T.toward)
Known(k) == T.types[k] \in {"omni", "cardioid"}
AllOmni == T.from = "omni" /\ \A k \in DOMAIN T.types : T.types[k] = "omni"
ArrayFails == IF T.refused THEN (IF AllOmni THEN {"refused"} ELSE {})
              ELSE IF AllOmni THEN (IF \A k \in DOMAIN T.types : T.got[k] = 2 * T.scale THEN {} ELSE {"microphone without direction"})
              ELSE IF T.from # "omni" THEN {"direction of a source is ignored"}
              ELSE IF \A k \in DOMAIN T.types : Known(k) /\ Abs(T.got[k] - T.scale * Strength(k)) <= T.tol THEN {} ELSE {"direction of a microphone is ignored"}
EndFails == IF T.kind = "array" THEN ArrayFails
            ELSE (IF Len(T.out) = Len(T.main) THEN {} ELSE {"number of samples"})
                 \cup (IF T.untouched THEN {} ELSE {"signals that were given have changed"})
Finish == /\ ~done /\ time = Steps /\ done' = TRUE
          /\ fails' = fails \cup EndFails
          /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> fails']))
          /\ UNCHANGED <<vars, tid>>
TNext == Step \/ Finish
TView == <<tid, time, done>>
================================================================================
