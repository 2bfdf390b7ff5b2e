-------------------------------- MODULE Walk_MC -------------------------------
EXTENDS Walk
CONSTANTS Lens, MaxSegs, Periods
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
MCInit == \E m \in {"speed", "time"}, l \in Seqs(Lens, MaxSegs), p \in Periods :
    InitWith([mode |-> m, len |-> l, P |-> p, pts |-> <<>>])
MCNext == now < 2 * walk.P + 1 /\ Tick
===============================================================================
