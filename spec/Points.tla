-------------------------------- MODULE Points --------------------------------
(* Placing points evenly along a rectangle, by walking along its edge; and around *)
(* a circle. A walk is a record                                                   *)
(*   a, b      side lengths, in some unit                                         *)
(*   num       number of points                                                   *)
(*   on, od    the first point lies on/od of a spacing behind the first corner     *)
(*   ex, ey    every other point is ex/2, ey/2 further out                        *)
(*   z         height of every point                                              *)
(* Coordinates of the specification are in 1/(2 num od) of that unit, so that all *)
(* of them are whole numbers.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES w,       \* the walk
          i,       \* number of points placed
          side,    \* the side that the next point is on, 1 .. 4, clockwise from the upper left corner
          at,      \* how far it is from the corner where that side begins
          placed   \* per side, the distances from its corner
vars == <<w, i, side, at, placed>>

Unit(v) == 2 * v.num * v.od
LenOf(v, s) == (IF s % 2 = 1 THEN v.a ELSE v.b) * Unit(v)
Step(v) == 2 * (v.a + v.b) * 2 * v.od           \* circumference / num
First(v) == 2 * (v.a + v.b) * 2 * v.on

InitWith(v) == /\ w = v /\ i = 0 /\ side = 1 /\ at = First(v)
               /\ placed = [s \in 1 .. 4 |-> << >>]
Turn == /\ i < w.num
        /\ at >= LenOf(w, side)
        /\ at' = at - LenOf(w, side)
        /\ side' = (side % 4) + 1
        /\ UNCHANGED <<w, i, placed>>
Place == /\ i < w.num
         /\ at < LenOf(w, side)
         /\ placed' = [placed EXCEPT ![side] = Append(@, at)]
         /\ at' = at + Step(w)
         /\ i' = i + 1
         /\ UNCHANGED <<w, side>>
Next == Turn \/ Place
Arrived == i = w.num

HalfA(v) == v.a * v.num * v.od
HalfB(v) == v.b * v.num * v.od
\* the point at distance t along side s, pushed out or not
Pt(v, s, t, out) ==
  LET px == IF out THEN v.ex * v.num * v.od ELSE 0
      py == IF out THEN v.ey * v.num * v.od ELSE 0
  IN CASE s = 1 -> <<t - HalfA(v), HalfB(v) + py>>
       [] s = 2 -> <<HalfA(v) + px, HalfB(v) - t>>
       [] s = 3 -> <<HalfA(v) - t, 0 - HalfB(v) - py>>
       [] s = 4 -> <<0 - HalfA(v) - px, t - HalfB(v)>>
Spots == {<<s, t>> \in UNION {{s} \X {placed[s][k] : k \in DOMAIN placed[s]} : s \in 1 .. 4} : TRUE}

\* --- what the walk has to give --------------------------------------------------
RECURSIVE Before(_, _)
Before(v, s) == IF s = 1 THEN 0 ELSE Before(v, s - 1) + LenOf(v, s - 1)
Along(p) == Before(w, p[1]) + p[2]
Circ == Before(w, 4) + LenOf(w, 4)
\* how many points come before this one on the walk
Earlier(p) == ((Along(p) - First(w) + Circ) % Circ) \div Step(w)
Numbered == Arrived => {Earlier(p) : p \in Spots} = 0 .. w.num - 1
Count == Arrived => Cardinality(Spots) = w.num
\* all points are a multiple of the spacing apart, so they are spread evenly
Even == \A p, q \in Spots : (Along(p) - Along(q)) % Step(w) = 0
OnEdge == \A p \in Spots : LET x == Pt(w, p[1], p[2], FALSE) IN
            \/ x[1] \in {HalfA(w), 0 - HalfA(w)} /\ 0 - HalfB(w) <= x[2] /\ x[2] <= HalfB(w)
            \/ x[2] \in {HalfB(w), 0 - HalfB(w)} /\ 0 - HalfA(w) <= x[1] /\ x[1] <= HalfA(w)
\* no side gets more than one point more or less than its share
Fair == Arrived => \A s \in 1 .. 4 : LET n == Len(placed[s]) IN
            /\ n * Step(w) < LenOf(w, s) + Step(w)
            /\ n * Step(w) > LenOf(w, s) - Step(w)
\* in the middle of its segment, an even number of points looks the same when turned by half a turn
Turned == (Arrived /\ 2 * w.on = w.od /\ w.num % 2 = 0) =>
            \A p \in Spots : LET x == Pt(w, p[1], p[2], FALSE) IN
              \E q \in Spots : Pt(w, q[1], q[2], FALSE) = <<0 - x[1], 0 - x[2]>>
================================================================================
