----------------------------- MODULE SpectrumTrace -----------------------------
(* The frequency responses of a set-up. A trace has                                *)
(*   n, samplerate  as they were asked for                                          *)
(*   refused        whether the question was refused                                *)
(*   times          the frequencies that were reported, times n                     *)
(*   pairs          for each pair [src, mic] of arrays: the number of elements of   *)
(*                  each, and whether there is an answer and its shape              *)
(*   resps          the responses of the set-up, in some order; the verdict has      *)
(*                  what each frequency of each has to collect in every direction    *)
EXTENDS Spectrum, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, idx
T == Traces[tid]
TInit == \E k \in DOMAIN Traces : /\ tid = k /\ idx = 1
                                  /\ IF Len(Traces[k].resps) > 0 THEN InitWith(Traces[k].n, Traces[k].resps[1]) ELSE InitWith(2, <<0>>)
Step == Take /\ UNCHANGED <<tid, idx>>
Answer == /\ Taken /\ idx <= Len(T.resps)
          /\ PrintT("@@" \o ToJson([tid |-> tid, idx |-> idx, acc |-> [k \in 1 .. n \div 2 + 1 |-> [p \in 1 .. n |-> acc[k - 1][p - 1]]]]))
          /\ idx' = idx + 1
          /\ resp' = (IF idx < Len(T.resps) THEN T.resps[idx + 1] ELSE <<0>>)
          /\ t' = 0 /\ dir' = [k \in Bins |-> 0] /\ acc' = [k \in Bins |-> [p \in 0 .. n - 1 |-> 0]]
          /\ UNCHANGED <<n, tid>>
Fails == IF T.n % 2 = 1 THEN (IF T.refused THEN {} ELSE {"odd number of frequencies"})
         ELSE IF T.refused THEN {"refused"}
         ELSE (IF T.times = [k \in 1 .. T.n \div 2 + 1 |-> (k - 1) * T.samplerate] THEN {} ELSE {"frequencies"})
              \cup (IF \A k \in DOMAIN T.pairs : LET p == T.pairs[k] IN p.shape = <<T.n \div 2 + 1, p.mic, p.src>> THEN {} ELSE {"shape"})
              \cup (IF T.extra THEN {"paths between arrays that have none"} ELSE {})
Finish == /\ idx < 1000000 /\ idx = Len(T.resps) + 1 /\ t = 0
          /\ idx' = 1000000
          /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> Fails]))
          /\ UNCHANGED <<vars, tid>>
Left == idx <= Len(T.resps)
TNext == (Left /\ (Step \/ Answer)) \/ Finish
TView == <<tid, idx, t>>
================================================================================
