-------------------------------- MODULE Moving --------------------------------
(***************************************************************************)
(* Moving arrays.  At loop index t the arrays are first moved to where     *)
(* they are at t, if t is a multiple of the update frequency f; the        *)
(* responses of the pairs that a moving array belongs to follow; then the  *)
(* processor is called; then sample t + 1 is propagated with the responses *)
(* in force.  Samples up to 0 are propagated before the loop, with the     *)
(* arrays at their first positions.                                        *)
(*                                                                         *)
(* A position is identified with the time at which it was asked for, a     *)
(* response with the times of its two ends.                                *)
(*                                                                         *)
(* SampleUses and SeenByProcessor are the closed forms.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES mv,     \* [f, dyn] : dyn[a] is TRUE if array a moves
          t, phase,
          pos,    \* pos[a] : time of its position
          resp,   \* resp[<<a, b>>] : times of the positions the response is for
          used,   \* used[n] : the responses that sample n was propagated with
          seen    \* seen[n] : the positions the processor could see at loop index n - 1
vars == <<mv, t, phase, pos, resp, used, seen>>

Arrays == DOMAIN mv.dyn
\* the pairs that are of interest (sources before microphones)
Pairs == {mv.pairs[k] : k \in DOMAIN mv.pairs}
InitWith(m) ==
    /\ mv = m /\ t = 0 /\ phase = "move"
    /\ pos = [a \in DOMAIN m.dyn |-> 0]
    /\ resp = [p \in {m.pairs[k] : k \in DOMAIN m.pairs} |-> <<0, 0>>]
    /\ used = <<>> /\ seen = <<>>

Move ==
    /\ phase = "move"
    /\ LET due == t % mv.f = 0
           new == [a \in Arrays |-> IF due /\ mv.dyn[a] THEN t ELSE pos[a]] IN
       /\ pos' = new
       /\ resp' = [p \in Pairs |-> IF due /\ (mv.dyn[p[1]] \/ mv.dyn[p[2]])
                                   THEN <<new[p[1]], new[p[2]]>> ELSE resp[p]]
    /\ phase' = "propagate" /\ seen' = Append(seen, pos')
    /\ UNCHANGED <<mv, t, used>>
Propagate ==
    /\ phase = "propagate"
    /\ used' = Append(used, resp) /\ t' = t + 1 /\ phase' = "move"
    /\ UNCHANGED <<mv, pos, resp, seen>>

Last(n) == ((n - 1) \div mv.f) * mv.f    \* the last update before sample n
At(a, n) == IF mv.dyn[a] THEN Last(n) ELSE 0
SampleUses == \A n \in DOMAIN used : \A p \in Pairs : used[n][p] = <<At(p[1], n), At(p[2], n)>>
SeenByProcessor == \A n \in DOMAIN seen : \A a \in Arrays : seen[n][a] = At(a, n)

CONSTANTS Freqs, Steps
MCInit == \E f \in Freqs, d \in [1..3 -> BOOLEAN] : InitWith([f |-> f, dyn |-> d, pairs |-> << <<1, 2>>, <<1, 3>> >>])
MCNext == t < Steps /\ (Move \/ Propagate)
===============================================================================
