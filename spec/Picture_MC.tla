------------------------------- MODULE Picture_MC -------------------------------
EXTENDS Picture
CONSTANTS MaxPts, MaxSide
\* every order of the points of every small grid with unequal spacings
MCInit == \E w, h \in 1 .. MaxSide : /\ w * h <= MaxPts
            /\ \E o \in {f \in [1 .. w * h -> 1 .. w * h] : \A i, j \in 1 .. w * h : f[i] = f[j] => i = j} :
                 InitWith([k \in 1 .. w * h |-> LET c == ((o[k] - 1) % w) + 1 r == ((o[k] - 1) \div w) + 1
                                               IN <<c * c - 5, 3 * r * r - 8>>])
Emit == Drawn => PrintT("@@" \o ToJson([pts |-> pts, pic |-> pic]))
================================================================================
