------------------------------- MODULE Points_MC -------------------------------
EXTENDS Points
CONSTANTS MaxLen, MaxNum, Den
MCInit == \E a, b \in 1 .. MaxLen, n \in 1 .. MaxNum, o \in 0 .. Den :
            InitWith([a |-> a, b |-> b, num |-> n, on |-> o, od |-> Den, ex |-> 0, ey |-> 0, z |-> 0])
Emit == Arrived => PrintT("@@" \o ToJson([w |-> w, unit |-> Unit(w), pts |-> {Pt(w, p[1], p[2], FALSE) : p \in Spots}]))
================================================================================
