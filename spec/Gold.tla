---------------------------------- MODULE Gold ----------------------------------
(* The sequences behind Gold codes, slid along each other sample by sample. Where    *)
(* they agree and where they differ balance but for one of three values, whatever     *)
(* the delay: this is what makes a pair of sequences preferred. Products of one with  *)
(* delays of the other then have the same property, so that channels can be told      *)
(* apart. There are no such pairs for orders that are multiples of four.             *)
EXTENDS Register
VARIABLES order, a, b, shift, seen
gvars == <<order, a, b, shift, seen>>
RECURSIVE Play(_, _, _, _)
Play(r, t, k, out) == IF k = 0 THEN out ELSE Play(Next(r, t), t, k - 1, Append(out, r[1]))
GInit == /\ order \in Orders /\ shift = 0 /\ seen = {}
         /\ a = Play(Ones(order), Preferred[order][1], Period(order), <<>>)
         /\ b = Play(Ones(order), Preferred[order][2], Period(order), <<>>)
         /\ bits = <<>> /\ taps = {} /\ start = <<>> /\ n = 0
GNext == /\ shift < Period(order)
         /\ seen' = seen \cup {Agree(a, b, shift, Period(order))}
         /\ shift' = shift + 1
         /\ UNCHANGED <<order, a, b, rvars>>
GView == <<order, shift>>
ThreeValued == order % 4 # 0 => seen \subseteq Values(order)
\* and every one of them occurs
AllThree == order % 4 # 0 /\ shift = Period(order) => seen = Values(order)
================================================================================
