------------------------------- MODULE Register -------------------------------
(***************************************************************************)
(* The linear feedback shift register behind maximum length and Gold       *)
(* sequences.  bits[1] is the output; the feedback is the parity of it and *)
(* of the taps.  A preferred polynomial visits every state but zero before *)
(* it repeats (Maximal, NeverZero).                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES bits, taps, start, n
rvars == <<bits, taps, start, n>>

Next(b, t) == Append(Tail(b), (b[1] + Cardinality({x \in t : b[x + 1] = 1})) % 2)
Ones(order) == [i \in 1..order |-> 1]
Preferred == [o \in 5..11 |->
    CASE o = 5 -> << {2}, {1, 2, 3} >> [] o = 6 -> << {5}, {1, 4, 5} >> [] o = 7 -> << {4}, {4, 5, 6} >>
      [] o = 8 -> << {1, 2, 3, 6, 7}, {1, 2, 7} >> [] o = 9 -> << {5}, {3, 5, 6} >>
      [] o = 10 -> << {3}, {2, 3, 6, 8, 9} >> [] o = 11 -> << {9}, {3, 6, 9} >>]
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
\* how two sequences of order o agree when one is delayed, if they are a preferred pair
Period(o) == Pow2(o) - 1
Bound(o) == Pow2((o + 1) \div 2 + (IF o % 2 = 0 THEN 1 ELSE 0)) + 1
Agree(x, y, s, L) == 2 * Cardinality({i \in 1 .. L : x[i] = y[((i - 1 + s) % L) + 1]}) - L
Values(o) == {0 - 1, 0 - Bound(o), Bound(o) - 2}

CONSTANT Orders
Init == \E o \in Orders, w \in 1..2 : bits = Ones(o) /\ start = Ones(o) /\ taps = Preferred[o][w] /\ n = 0
Step == /\ n = 0 \/ bits # start
        /\ n' = n + 1 /\ bits' = Next(bits, taps) /\ UNCHANGED <<taps, start>>
Maximal == n > 0 /\ bits = start => n = Pow2(Len(bits)) - 1
NeverZero == \E i \in DOMAIN bits : bits[i] = 1
===============================================================================
