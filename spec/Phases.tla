-------------------------------- MODULE Phases --------------------------------
(***************************************************************************)
(* A phase counter steps through phases of given lengths, one sample at a  *)
(* time.  A length below 0 stands for an infinite phase; a phase of length *)
(* 0 never happens; after the last phase there is no phase (0).            *)
(*                                                                         *)
(* The machine keeps the current phase and the samples left in it, as a    *)
(* counter does.  The invariants state it in closed form: sample n belongs *)
(* to the phase whose interval contains n.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES len,    \* lengths of the phases
          n,      \* sample
          ph,     \* current phase, 0 if there is none
          left,   \* samples left in the phase, including this one; -1 if endless
          first,  \* this is the first sample of the phase
          hist    \* sequence of <<phase, first>>
vars == <<len, n, ph, left, first, hist>>

\* the first phase from q on that happens at all
NextFrom(l, q) == LET S == {x \in q..Len(l) : l[x] # 0} IN
                  IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
LeftOf(l, q) == IF q = 0 \/ l[q] < 0 THEN -1 ELSE l[q]

InitWith(l) ==
    /\ len = l /\ n = 0
    /\ ph = NextFrom(l, 1) /\ left = LeftOf(l, NextFrom(l, 1)) /\ first = TRUE
    /\ hist = << <<NextFrom(l, 1), TRUE>> >>

Progress ==
    /\ n' = n + 1
    /\ IF left = 1
       THEN LET q == NextFrom(len, ph + 1) IN
            ph' = q /\ left' = LeftOf(len, q) /\ first' = TRUE
       ELSE ph' = ph /\ left' = (IF left > 1 THEN left - 1 ELSE left) /\ first' = FALSE
    /\ hist' = Append(hist, <<ph', first'>>)
    /\ UNCHANGED len

\* --- closed form -----------------------------------------------------------
RECURSIVE StartOf(_)
StartOf(q) == IF q = 1 THEN 0 ELSE LET s == StartOf(q - 1) IN
              IF s < 0 \/ len[q - 1] < 0 THEN -1 ELSE s + len[q - 1]
Inside(q) == StartOf(q) >= 0 /\ n >= StartOf(q) /\ (len[q] < 0 \/ n < StartOf(q) + len[q])
InInterval == IF ph = 0 THEN \A q \in DOMAIN len : ~ Inside(q)
              ELSE Inside(ph) /\ \A q \in DOMAIN len : Inside(q) => q = ph
FirstOnce == first <=> (IF ph = 0 THEN n = 0 \/ hist[n][1] # 0 ELSE n = StartOf(ph))
Ordered == \A i \in 1..n : hist[i + 1][1] = hist[i][1] \/ hist[i + 1][1] = 0
                           \/ (hist[i][1] # 0 /\ hist[i + 1][1] > hist[i][1])

\* --- all small definitions ---------------------------------------------------
CONSTANTS MaxPhases, Lengths, Steps
SmallLengths == {-1, 0, 1, 2, 3}
MCInit == \E k \in 0..MaxPhases : \E l \in [1..k -> Lengths] : InitWith(l)
MCNext == n < Steps /\ Progress
Emit == n = Steps => PrintT("@@" \o ToJson([len |-> len, hist |-> hist]))

==============================================================================
