------------------------------ MODULE PointsTrace ------------------------------
(* Points that the code generated, judged by Points. A trace has a kind:           *)
(*   walks    walks along rectangles, one after the other, with the points seen   *)
(*            (in the unit of the walk); alt heights: a pair, or << >>             *)
(*   circles  circles [num, start, lo, hi, z] with the points seen as              *)
(*            [angle, radius, height], and turn: the parts of a full turn          *)
(*   grid     [lo, hi, n, scale, edge] per axis, where the lines include lo and   *)
(*            hi (edge) or are the middles of n cells; disc: only those in a circle *)
(*   planes   points in planes of a cylinder                                       *)
(*   sunflower  [radius, angle]: squares of radii in parts of that of the last, and  *)
(*            millionths of a turn, turned by off                                   *)
(*   angles   points with their polar and spherical coordinates                    *)
EXTENDS Points, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, idx, bad
T == Traces[tid]
Idle == [a |-> 1, b |-> 1, num |-> 0, on |-> 0, od |-> 1, ex |-> 0, ey |-> 0, z |-> 0]
TInit == \E t \in DOMAIN Traces : /\ tid = t /\ idx = 1 /\ bad = {}
                                  /\ InitWith(IF Traces[t].kind = "walks" THEN Traces[t].walks[1].w ELSE Idle)
Walk == Next /\ UNCHANGED <<tid, idx, bad>>

Rng(s) == {s[k] : k \in DOMAIN s}
\* every other point of the walk is further out
Height(k, seen) == IF Len(seen.alt) = 0 THEN w.z ELSE IF k % 4 \in {2, 3} THEN seen.alt[2] ELSE seen.alt[1]
Should(seen, p) == LET k == Earlier(p)
                       x == Pt(w, p[1], p[2], k % 2 = 1)
                   IN <<x[1], x[2], Height(k, seen) * Unit(w)>>
WalkFails(seen) ==
  (IF Len(seen.pts) # w.num THEN {"number of points"}
   ELSE IF Rng(seen.pts) = {Should(seen, p) : p \in Spots} THEN {} ELSE {"points of the rectangle"})
NextWalk == /\ T.kind = "walks" /\ Arrived /\ idx <= Len(T.walks)
            /\ bad' = bad \cup WalkFails(T.walks[idx])
            /\ idx' = idx + 1
            /\ LET v == IF idx < Len(T.walks) THEN T.walks[idx + 1].w ELSE Idle
               IN w' = v /\ i' = 0 /\ side' = 1 /\ at' = First(v) /\ placed' = [s \in 1 .. 4 |-> << >>]
            /\ UNCHANGED tid

\* --- circles ---------------------------------------------------------------------
CircleFails(c) ==
  (IF Len(c.pts) # c.num THEN {"number of points"}
   ELSE IF \A j \in DOMAIN c.pts : /\ c.pts[j][1] = (c.start + (j - 1) * (T.turn \div c.num)) % T.turn
                                   /\ c.lo <= c.pts[j][2] /\ c.pts[j][2] <= c.hi
                                   /\ c.pts[j][3] = c.z THEN {} ELSE {"points of the circle"})

\* --- grids -----------------------------------------------------------------------
\* positions in 1/scale, the scale being n - 1 (edge) or 2n
GLines(x) == IF x.edge THEN {x.lo * (x.n - 1) + k * (x.hi - x.lo) : k \in 0 .. x.n - 1}
             ELSE {x.lo * 2 * x.n + (2 * k + 1) * (x.hi - x.lo) : k \in 0 .. x.n - 1}
GridPts == LET g == GLines(T.axes[1]) \X GLines(T.axes[2]) \X GLines(T.axes[3])
           IN IF T.disc THEN {p \in g : p[1] * p[1] + p[2] * p[2] <= (T.axes[1].hi * (T.axes[1].n - 1)) * (T.axes[1].hi * (T.axes[1].n - 1))} ELSE g
GridFails == IF Rng(T.pts) = GridPts /\ Len(T.pts) = Cardinality(Rng(T.pts)) THEN {} ELSE {"points of the grid"}

\* --- planes of a cylinder: four, evenly between the ends, alike and within the radius ----
PlaneFails == LET hs == {T.pts[k][2] : k \in DOMAIN T.pts}
                  in(h) == SelectSeq(T.pts, LAMBDA p : p[2] = h)
              IN IF T.each = 0 THEN IF T.pts = << >> THEN {} ELSE {"planes"}
                 ELSE IF /\ hs = {(0 - 3) * T.h, 0 - T.h, T.h, 3 * T.h}
                         /\ \A h \in hs : Len(in(h)) = T.each
                         /\ \A k \in DOMAIN T.pts : T.pts[k][1] <= T.r THEN {} ELSE {"planes"}

\* --- seeds of a sunflower: each takes the same area, and is the golden angle (x of a turn,
\* x * x = 3 * x - 1) on from the one before -------------------------------------------
Golden == 381966
Apart(x, y) == LET d == (x - y) % 1000000 IN IF d > 500000 THEN 1000000 - d ELSE d
SeedFails == IF /\ Len(T.pts) = T.num
                /\ \A k \in DOMAIN T.pts : T.pts[k][1] = 2 * k - 1 /\ Apart(T.pts[k][2], (T.off + k * Golden) % 1000000) <= 3
             THEN {} ELSE {"seeds"}

\* --- angles, in thousandths of an eighth of a turn ---------------------------------
\* on which ray or in which gap of the eight directions a point lies: even for a ray
Dir(x, y) == LET ax == IF x < 0 THEN 0 - x ELSE x
                 ay == IF y < 0 THEN 0 - y ELSE y
                 first == IF ay = 0 THEN 0 ELSE IF ay < ax THEN 1 ELSE IF ay = ax THEN 2 ELSE IF ax > 0 THEN 3 ELSE 4
             IN IF x >= 0 /\ y >= 0 THEN first
                ELSE IF x < 0 /\ y >= 0 THEN 8 - first
                ELSE IF x < 0 THEN 8 + first
                ELSE (16 - first) % 16
Seen(mille) == IF mille % 1000 = 0 THEN 2 * (mille \div 1000) ELSE 2 * (mille \div 1000) + 1
\* the zenith angle, from the square of the distance from the axis
Zen(s, z) == IF s = 0 THEN IF z >= 0 THEN 0 ELSE 8
             ELSE IF z > 0 THEN IF s < z * z THEN 1 ELSE IF s = z * z THEN 2 ELSE 3
             ELSE IF z = 0 THEN 4
             ELSE IF s > z * z THEN 5 ELSE IF s = z * z THEN 6 ELSE 7
AngleFails ==
  UNION {LET q == T.pts[k] p == q.p IN
    (IF q.r2 # p[1] * p[1] + p[2] * p[2] + p[3] * p[3] \/ q.s2 # p[1] * p[1] + p[2] * p[2] THEN {"radius"} ELSE {})
    \cup (IF (p[1] # 0 \/ p[2] # 0) /\ (Seen(q.theta) # Dir(p[1], p[2]) \/ q.polar # q.theta) THEN {"angle"} ELSE {})
    \cup (IF p # <<0, 0, 0>> /\ Seen(q.phi) # Zen(p[1] * p[1] + p[2] * p[2], p[3]) THEN {"zenith angle"} ELSE {})
    \cup (IF q.back # p \/ q.flat # <<p[1], p[2]>> THEN {"there and back"} ELSE {}) : k \in DOMAIN T.pts}

Fails == CASE T.kind = "walks" -> bad
           [] T.kind = "circles" -> UNION {CircleFails(T.circles[k]) : k \in DOMAIN T.circles}
           [] T.kind = "grid" -> GridFails
           [] T.kind = "planes" -> PlaneFails
           [] T.kind = "sunflower" -> SeedFails
           [] T.kind = "angles" -> AngleFails
Finish == /\ idx < 1000
          /\ IF T.kind = "walks" THEN idx = Len(T.walks) + 1 ELSE TRUE
          /\ idx' = 1000
          /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> Fails]))
          /\ UNCHANGED <<vars, tid, bad>>
TNext == Walk \/ NextWalk \/ Finish
TView == <<tid, idx, i, side, at>>
================================================================================
