-------------------------------- MODULE Copies --------------------------------
(***************************************************************************)
(* Setups and the simulators made from them.  A setup has a value in each  *)
(* of its slots (settings, positions, responses, what sources play).  A    *)
(* simulator has the values of the moment it was made, however the setup,  *)
(* other setups and other simulators are changed or run afterwards.  What  *)
(* a run gives depends on nothing else.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES setups,   \* sequence of functions from slots to values
          sims,     \* sequence of [of (setup), vec, ran (BOOLEAN), gave]
          born      \* history: the vectors at the moments of creation, with the changes made to a simulator itself
vars == <<setups, sims, born>>
Set(i, s, v) == setups' = [setups EXCEPT ![i][s] = v] /\ UNCHANGED <<sims, born>>
Create(i) == /\ sims' = Append(sims, [of |-> i, vec |-> setups[i], ran |-> FALSE, gave |-> <<>>])
             /\ born' = Append(born, setups[i]) /\ UNCHANGED setups
Poke(k, s, v) == ~ sims[k].ran /\ sims' = [sims EXCEPT ![k].vec[s] = v] /\ born' = [born EXCEPT ![k][s] = v] /\ UNCHANGED setups
Run(k) == ~ sims[k].ran /\ sims' = [sims EXCEPT ![k].ran = TRUE, ![k].gave = sims[k].vec] /\ UNCHANGED <<setups, born>>
Isolated == \A k \in DOMAIN sims : sims[k].vec = born[k] /\ (sims[k].ran => sims[k].gave = born[k])
RunsTouchNothingElse == [][\A k \in DOMAIN sims : sims'[k].ran # sims[k].ran =>
      setups' = setups /\ \A j \in DOMAIN sims : j # k => sims'[j] = sims[j]]_vars
===============================================================================
