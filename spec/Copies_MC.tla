------------------------------- MODULE Copies_MC ------------------------------
EXTENDS Copies
CONSTANTS Slots, Values, MaxSims
VARIABLE n
CONSTANT MaxOps
MCInit == setups = <<[s \in Slots |-> 1], [s \in Slots |-> 1]>> /\ sims = <<>> /\ born = <<>> /\ n = 0
MCNext == /\ n < MaxOps /\ n' = n + 1
          /\ \/ \E i \in {1, 2}, s \in Slots, v \in Values : Set(i, s, v)
             \/ Len(sims) < MaxSims /\ \E i \in {1, 2} : Create(i)
             \/ \E k \in DOMAIN sims, s \in Slots, v \in Values : Poke(k, s, v)
             \/ \E k \in DOMAIN sims : Run(k)
Spec == MCInit /\ [][MCNext]_<<vars, n>>
===============================================================================
