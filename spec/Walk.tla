---------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Prescribed movements.  Time is counted in ticks, B ticks to a sample,   *)
(* so that a period of P ticks need not be a whole number of samples.      *)
(*                                                                         *)
(* "speed":  through the points in straight lines, back to the first after *)
(*           P ticks, always equally fast.                                 *)
(* "time":   the same, but every segment takes equally long.               *)
(* "circle": one turn in A ticks, from the outer radius to the inner and   *)
(*           back in R ticks.                                              *)
(*                                                                         *)
(* The walker goes on tick by tick; At and Turn say where it is at any     *)
(* tick.  A walk is [mode, pts, len, P] with the first point repeated at   *)
(* the end and len[j] the length of the segment from point j.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Sum(_, _)
Sum(q, k) == IF k = 0 THEN 0 ELSE q[k] + Sum(q, k - 1)
Segs(w) == Len(w.len)
Total(w) == Sum(w.len, Segs(w))
\* a place on the walk: segment, and the part p/q of the segment that is behind
Place(j, p, q) == [seg |-> j, p |-> p, q |-> q]
\* walked so far, in length / P
AtSpeed(w, t) == LET d == (t % w.P) * Total(w)
                     j == CHOOSE x \in 1..Segs(w) : Sum(w.len, x - 1) * w.P <= d /\ d < Sum(w.len, x) * w.P
                 IN Place(j, d - Sum(w.len, j - 1) * w.P, w.len[j] * w.P)
AtTime(w, t) == LET d == (t % w.P) * Segs(w) IN Place((d \div w.P) + 1, d % w.P, w.P)
At(w, t) == IF w.mode = "speed" THEN AtSpeed(w, t) ELSE AtTime(w, t)
\* coordinate k of a place, times m (a multiple of q)
Coord(w, pl, k, m) == w.pts[pl.seg][k] * m + (w.pts[pl.seg + 1][k] - w.pts[pl.seg][k]) * pl.p * (m \div pl.q)

\* circles: [r0, r1, A, R]: part of a turn, in 1/A; radius, in 1/R
Turn(c, t) == t % c.A
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Radius(c, t) == c.r0 * c.R + (c.r1 - c.r0) * Abs(c.R - 2 * (t % c.R))

----------------------------------------------------------------------------
(* the walker *)
VARIABLES walk, now, seg, off, laps   \* off: in the units of At for the segment
vars == <<walk, now, seg, off, laps>>
Need(w, j) == IF w.mode = "speed" THEN w.len[j] * w.P ELSE w.P
Stride(w) == IF w.mode = "speed" THEN Total(w) ELSE Segs(w)
InitWith(w) == walk = w /\ now = 0 /\ seg = 1 /\ off = 0 /\ laps = 0
RECURSIVE Carry(_, _, _)
Carry(w, j, o) == IF o < Need(w, j) THEN <<j, o, 0>>
                  ELSE LET r == Carry(w, (j % Segs(w)) + 1, o - Need(w, j)) IN
                       <<r[1], r[2], r[3] + IF j = Segs(w) THEN 1 ELSE 0>>
Tick == LET r == Carry(walk, seg, off + Stride(walk)) IN
        /\ now' = now + 1 /\ seg' = r[1] /\ off' = r[2] /\ laps' = laps + r[3] /\ UNCHANGED walk
WhereItIs == LET pl == At(walk, now) IN pl.seg = seg /\ pl.p = off /\ pl.q = Need(walk, seg)
Periodic == (laps = now \div walk.P) /\ (now % walk.P = 0 => seg = 1 /\ off = 0)
===============================================================================
