------------------------------ MODULE Spectrum_MC ------------------------------
EXTENDS Spectrum
CONSTANTS MaxN, MaxLen, Amp
Vals == {v - Amp : v \in 0 .. 2 * Amp}
MCInit == \E m \in {k \in 2 .. MaxN : k % 2 = 0}, l \in 1 .. MaxLen : \E r \in [1 .. l -> Vals] : InitWith(m, r)
Emit == Taken => PrintT("@@" \o ToJson([n |-> n, resp |-> resp, acc |-> [k \in 1 .. n \div 2 + 1 |-> [p \in 1 .. n |-> acc[k - 1][p - 1]]]]))
================================================================================
