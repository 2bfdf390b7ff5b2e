------------------------------- MODULE Spectrum --------------------------------
(* The response of a path at n equally spaced frequencies. Every frequency has a  *)
(* pointer that turns by its own number of n-ths of a turn with each sample. The   *)
(* samples of the response are added where the pointer points to: acc[k][p] is     *)
(* what frequency k has collected in direction p. The value of the frequency is    *)
(* the sum over p of acc[k][p] * exp(-2 pi i p / n).                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES n,      \* number of frequencies (of the whole circle), even
          resp,   \* the response that is looked at, integers
          t,      \* number of samples taken
          dir,    \* per frequency, where the pointer points to
          acc
vars == <<n, resp, t, dir, acc>>

Bins == 0 .. n \div 2
InitWith(m, r) == /\ n = m /\ resp = r /\ t = 0
                  /\ dir = [k \in 0 .. m \div 2 |-> 0]
                  /\ acc = [k \in 0 .. m \div 2 |-> [p \in 0 .. m - 1 |-> 0]]
\* after the end of the response there is silence, and nothing after n samples is looked at
Take == /\ t < n
        /\ acc' = [k \in Bins |-> [acc[k] EXCEPT ![dir[k]] = @ + IF t < Len(resp) THEN resp[t + 1] ELSE 0]]
        /\ dir' = [k \in Bins |-> (dir[k] + k) % n]
        /\ t' = t + 1
        /\ UNCHANGED <<n, resp>>
Taken == t = n
RECURSIVE Sum(_, _)
Sum(f, s) == IF s = {} THEN 0 ELSE LET p == CHOOSE x \in s : TRUE IN f[p] + Sum(f, s \ {p})

\* --- what the spectrum has to be ---------------------------------------------------
Min(a, b) == IF a < b THEN a ELSE b
\* no sample is lost or counted twice
Total == Taken => \A k \in Bins : Sum(acc[k], 0 .. n - 1) = Sum(resp, 1 .. Min(n, Len(resp)))
\* at 0 Hz everything points the same way, at half the samplerate every other sample does
Zero == Taken => acc[0][0] = Sum(resp, 1 .. Min(n, Len(resp)))
Half == Taken => acc[n \div 2][0] = Sum(resp, {j \in 1 .. Min(n, Len(resp)) : j % 2 = 1})
\* the energy is the same in time and in frequency; in directions: what frequencies have collected
\* in directions that are a quarter of a turn apart (n = 4)
Re(a) == a[0] - a[2]
Im(a) == a[3] - a[1]
Energy == (Taken /\ n = 4) =>
            Re(acc[0]) * Re(acc[0]) + Re(acc[2]) * Re(acc[2]) + 2 * (Re(acc[1]) * Re(acc[1]) + Im(acc[1]) * Im(acc[1]))
            = 4 * Sum([j \in DOMAIN resp |-> resp[j] * resp[j]], 1 .. Min(n, Len(resp)))
================================================================================
