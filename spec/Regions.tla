------------------------------- MODULE Regions -------------------------------
(* Regions of a room: which points belong to them, and how the regular grid of   *)
(* points inside grows.                                                         *)
(*                                                                              *)
(* A region is a record                                                         *)
(*   shape  "box" (cuboid, rectangle), "tube" (cylinder, disc), "ball"          *)
(*   c      centre, as <<x, y, z>>                                              *)
(*   len    extent along each axis (2r for the round ones, 0 for a flat axis)   *)
(*   r      radius, 0 for a box                                                 *)
(*   d      spacing of the grid along each axis                                 *)
(*   rule   "fit": as many whole spacings as fit, "cover": as many as cover     *)
(* All lengths are integers, in a unit in which centres, extents, radii and     *)
(* spacings are even, so that halves are exact.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES reg,      \* the region
          n         \* number of grid lines along each axis so far
vars == <<reg, n>>

Axes == 1 .. 3
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Sq(x) == x * x
Flat(g, a) == g.len[a] = 0

\* --- membership: borders belong to the region, pad widens a box ----------------
InPad(g, p, pad) ==
  /\ \A a \in Axes : (g.shape = "box" \/ (g.shape = "tube" /\ a = 3)) => 2 * Abs(p[a] - g.c[a]) <= g.len[a] + 2 * pad[a]
  /\ g.shape = "tube" => Sq(p[1] - g.c[1]) + Sq(p[2] - g.c[2]) <= Sq(g.r)
  /\ g.shape = "ball" => Sq(p[1] - g.c[1]) + Sq(p[2] - g.c[2]) + Sq(p[3] - g.c[3]) <= Sq(g.r)
In(g, p) == InPad(g, p, <<0, 0, 0>>)

\* --- the grid: lines are added along each axis for as long as there is room ------
More(g, k, a) == IF Flat(g, a) THEN FALSE
                 ELSE IF g.rule = "fit" THEN (k[a] + 1) * g.d[a] <= g.len[a]
                 ELSE k[a] * g.d[a] < g.len[a]
Line(g, k, a, i) == IF Flat(g, a) THEN g.c[a] ELSE g.c[a] - ((k[a] - 1) * g.d[a]) \div 2 + (i - 1) * g.d[a]
Lines(g, k, a) == {Line(g, k, a, i) : i \in 1 .. k[a]}
GridOf(g, k) == {p \in Lines(g, k, 1) \X Lines(g, k, 2) \X Lines(g, k, 3) : In(g, p)}

InitWith(g) == /\ reg = g
               /\ n = <<1, 1, 1>>
Widen == \E a \in Axes : /\ More(reg, n, a)
                         /\ \A b \in 1 .. a - 1 : ~ More(reg, n, b)
                         /\ n' = [n EXCEPT ![a] = @ + 1]
                         /\ UNCHANGED reg
Full == \A a \in Axes : ~ More(reg, n, a)
Grid == GridOf(reg, n)

\* the number of lines in one go, for the judge (the model shows that it is the same)
FullCount(g, a) == IF Flat(g, a) THEN 1
                   ELSE IF g.rule = "fit" THEN g.len[a] \div g.d[a]
                   ELSE (g.len[a] + g.d[a] - 1) \div g.d[a]
FullGrid(g) == GridOf(g, [a \in Axes |-> FullCount(g, a)])

\* --- what has to hold of it -------------------------------------------------------
AllInside == \A p \in Grid : In(reg, p)
Symmetric == \A p \in Grid : [a \in Axes |-> 2 * reg.c[a] - p[a]] \in Grid
Spaced == \A p, q \in Grid : \A a \in Axes : (p[a] - q[a]) % (IF Flat(reg, a) THEN 1 ELSE reg.d[a]) = 0
\* no line of the final grid is further from the border than the spacing
Reaches == Full => \A a \in Axes : ~ Flat(reg, a) =>
             LET margin2 == reg.len[a] - (n[a] - 1) * reg.d[a]   \* twice the distance of the outer line from the border
             IN margin2 >= 0 /\ margin2 < 2 * reg.d[a]
NoGap == Full => \A p \in Grid : \A a \in {1, 2} : \A s \in {-1, 1} :
            LET q == [p EXCEPT ![a] = @ + s * reg.d[a]]
            IN (~ Flat(reg, a) /\ In(reg, q) /\ 2 * Abs(q[a] - reg.c[a]) <= (n[a] - 1) * reg.d[a]) => q \in Grid
Counted == Full => Grid = FullGrid(reg)
==============================================================================
