-------------------------------- MODULE Cardioid --------------------------------
(* Two microphones, at D and at 0 on an axis, and sound that travels one position    *)
(* per step. The front is beyond D: what comes from there passes the microphone at   *)
(* D, the main one, first. What comes from behind passes the one at 0 first. Both     *)
(* waves repeat themselves. A cardioid made of both microphones hears what is at D    *)
(* of the wave from the front, and nothing of the one from behind.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES dist,         \* between the microphones
          front, back,  \* one period of either wave
          time,
          fore, aft,    \* what is at positions 0 .. dist of either wave
          main, second  \* what the microphones heard so far
vars == <<dist, front, back, time, fore, aft, main, second>>

At(w, n) == w[(n % Len(w)) + 1]
InitWith(d, f, b) ==
  /\ dist = d /\ front = f /\ back = b /\ time = 0
  /\ fore = [i \in 0 .. d |-> At(f, i - d)]
  /\ aft = [i \in 0 .. d |-> At(b, 0 - i)]
  /\ main = <<>> /\ second = <<>>
MainNow == fore[dist] + aft[dist]
SecondNow == fore[0] + aft[0]
Move == /\ main' = Append(main, MainNow)
        /\ second' = Append(second, SecondNow)
        /\ time' = time + 1
        /\ fore' = [i \in 0 .. dist |-> IF i = dist THEN At(front, time + 1) ELSE fore[i + 1]]
        /\ aft' = [i \in 0 .. dist |-> IF i = 0 THEN At(back, time + 1) ELSE aft[i - 1]]
        /\ UNCHANGED <<dist, front, back>>

RECURSIVE Sum(_)
Sum(w) == IF w = <<>> THEN 0 ELSE Head(w) + Sum(Tail(w))
\* what is to be heard, times the length of the period; a constant is not sound
Heard == Len(front) * fore[dist] - Sum(front)

\* delaying one microphone and taking the difference cancels the wave from behind
Null == \A t \in dist + 1 .. Len(main) :
          main[t] - second[t - dist] = At(front, t - 1) - At(front, t - 1 - 2 * dist)
\* ... and what remains determines the wave from the front, except for a constant,
\* unless both microphones hear the same again after a period
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Same(w, v) == \A t \in 1 .. Len(w) : At(w, t) - At(w, t - 2 * dist) = At(v, t) - At(v, t - 2 * dist)
Level(w) == [i \in DOMAIN w |-> Len(w) * w[i] - Sum(w)]
Unique(others) == Gcd(2 * dist, Len(front)) = 1 =>
                    \A v \in others : Len(v) = Len(front) /\ Same(front, v) => Level(v) = Level(front)
================================================================================
