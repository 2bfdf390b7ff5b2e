-------------------------------- MODULE Stream --------------------------------
(***************************************************************************)
(* A signal source is one infinite stream per channel: whoever asks, and   *)
(* in however many pieces, gets the next samples of the same stream.       *)
(*                                                                         *)
(* gain: a source whose power is changed (by the square of an integer)     *)
(* goes on with the same stream, scaled from the next sample on.           *)
(*                                                                         *)
(* Pass: samples that somebody took without showing them (long streams).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES pos,    \* samples handed out
          gain,   \* current gain
          given,  \* <<stream index, gain>> of all samples handed out
          reqs,   \* the history of requests
          passed  \* samples taken unseen, before all others
vars == <<pos, gain, given, reqs, passed>>

Init0 == pos = 0 /\ gain = 1 /\ given = <<>> /\ reqs = <<>> /\ passed = 0
Get(m) == /\ pos' = pos + m
          /\ given' = given \o [j \in 1..m |-> <<pos + j, gain>>]
          /\ reqs' = Append(reqs, [op |-> "get", n |-> m])
          /\ UNCHANGED <<gain, passed>>
SetPower(g) == /\ gain' = g /\ reqs' = Append(reqs, [op |-> "gain", n |-> g]) /\ UNCHANGED <<pos, given, passed>>
Pass(m) == /\ given = <<>>
           /\ pos' = pos + m /\ passed' = passed + m
           /\ reqs' = Append(reqs, [op |-> "pass", n |-> m])
           /\ UNCHANGED <<gain, given>>

\* no sample is lost, repeated or moved by how the requests were cut
Gapless == Len(given) + passed = pos /\ \A k \in DOMAIN given : given[k][1] = k + passed

CONSTANTS Total, MaxReqs, Gains
MCInit == Init0
MCNext == Len(reqs) < MaxReqs /\
          (\/ \E m \in 0..(Total - pos) : Get(m)
           \/ \E m \in 1..(Total - pos) : pos = 0 /\ Pass(m)
           \/ \E g \in Gains : g # gain /\ (IF reqs = <<>> THEN TRUE ELSE reqs[Len(reqs)].op # "gain") /\ SetPower(g))
Emit == pos = Total => PrintT("@@" \o ToJson([reqs |-> reqs, given |-> given]))
===============================================================================
