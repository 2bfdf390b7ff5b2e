------------------------------- MODULE Cardioid_MC -------------------------------
EXTENDS Cardioid
CONSTANTS MaxD, MaxP, MaxA, MaxTime
Waves == UNION {[1 .. p -> 0 .. MaxA] : p \in 1 .. MaxP}
MCInit == \E d \in 1 .. MaxD, f, b \in Waves : InitWith(d, f, b)
MCNext == time < MaxTime /\ Move
Determined == Unique(Waves)
================================================================================
