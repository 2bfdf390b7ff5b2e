--------------------------------- MODULE Room_MC ---------------------------------
EXTENDS Room
CONSTANTS MaxWide, MaxTime
MCInit == \/ \E w \in 2 .. MaxWide, a, b \in 1 .. MaxWide : a < w /\ b < w /\ InitWith(w, a, b)
          \/ \E a, b \in 1 .. MaxWide : InitWith(0, a, b)
MCNext == time < MaxTime /\ Move
Emit == (time = MaxTime /\ wide > 2 /\ s # m) => PrintT("@@" \o ToJson([wide |-> wide, s |-> s, m |-> m, got |-> got]))
================================================================================
