----------------------------- MODULE RegionsTrace -----------------------------
(* Answers of the code about regions, judged by Regions. A trace holds            *)
(*   regs     one region, or several that are combined                           *)
(*   dims     2 or 3, the number of coordinates of an answer                      *)
(*   grid     the points of the regular grid                                     *)
(*   queries  [p, pad, ans]: points and whether the code finds them inside       *)
(*   samples  [xs, again, fresh]: drawn points, in 1/fine of a unit, whether the *)
(*            same seed gave the same points again, and no point was drawn twice  *)
(*            or with another seed                                                 *)
(*   gridagain  whether the grid was the same after all that                       *)
(*   fine     parts per unit of the samples                                      *)
(*   refused  whether combining the regions was refused (then nothing else)      *)
(* The state grows the grid of one region after the other.                       *)
EXTENDS Regions, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, idx, got
T == Traces[tid]
TInit == \E i \in DOMAIN Traces : /\ tid = i /\ idx = 1 /\ got = {}
                                  /\ InitWith(Traces[i].regs[1])
Grow == Widen /\ UNCHANGED <<tid, idx, got>>
NextRegion == /\ Full /\ idx <= Len(T.regs)
              /\ got' = got \cup Grid
              /\ idx' = idx + 1
              /\ reg' = IF idx < Len(T.regs) THEN T.regs[idx + 1] ELSE reg
              /\ n' = IF idx < Len(T.regs) THEN <<1, 1, 1>> ELSE n
              /\ UNCHANGED tid

\* overlapping regions are not combined, regions apart from each other are
Apart(g, h) == \E a \in Axes : 2 * Abs(g.c[a] - h.c[a]) > g.len[a] + h.len[a]
Pairs == {p \in (DOMAIN T.regs) \X (DOMAIN T.regs) : p[1] # p[2]}
\* boxes that share at least a quarter of one of them
Both(g, h, a) == LET lo == IF 2 * g.c[a] - g.len[a] > 2 * h.c[a] - h.len[a] THEN 2 * g.c[a] - g.len[a] ELSE 2 * h.c[a] - h.len[a]
                     hi == IF 2 * g.c[a] + g.len[a] < 2 * h.c[a] + h.len[a] THEN 2 * g.c[a] + g.len[a] ELSE 2 * h.c[a] + h.len[a]
                 IN IF Flat(g, a) THEN IF g.c[a] = h.c[a] THEN 1 ELSE 0 ELSE IF hi < lo THEN 0 ELSE (hi - lo) \div 2
Size(g, a) == IF Flat(g, a) THEN 1 ELSE g.len[a]
Heavy == \E p \in Pairs : LET g == T.regs[p[1]] h == T.regs[p[2]] IN
           /\ g.shape = "box" /\ h.shape = "box" /\ \A a \in Axes : Flat(g, a) = Flat(h, a)
           /\ 4 * Both(g, h, 1) * Both(g, h, 2) * Both(g, h, 3) >= Size(g, 1) * Size(g, 2) * Size(g, 3)
Clash == Heavy \/ \E p \in Pairs : \E x \in FullGrid(T.regs[p[1]]) : In(T.regs[p[2]], x)
AllApart == \A p \in Pairs : Apart(T.regs[p[1]], T.regs[p[2]])
RefusalFails == IF T.refused /\ AllApart THEN {"refused"}
                ELSE IF ~ T.refused /\ Clash THEN {"overlap accepted"} ELSE {}
\* --- samples -------------------------------------------------------------------
Fine(g) == [g EXCEPT !.c = [a \in Axes |-> g.c[a] * T.fine], !.len = [a \in Axes |-> g.len[a] * T.fine], !.r = g.r * T.fine]
\* inside, with a tolerance of one part for rounding
Near(g, p) == /\ \A a \in Axes : 2 * Abs(p[a] - g.c[a]) <= g.len[a] + 2
              /\ g.shape = "tube" => Sq(p[1] - g.c[1]) + Sq(p[2] - g.c[2]) <= Sq(g.r + 2)
              /\ g.shape = "ball" => Sq(p[1] - g.c[1]) + Sq(p[2] - g.c[2]) + Sq(p[3] - g.c[3]) <= Sq(g.r + 2)
Side(x) == IF x >= 0 THEN 1 ELSE 0
Third(g, p, a) == IF Flat(g, a) THEN 0 ELSE (3 * (2 * (p[a] - g.c[a]) + g.len[a] + 2)) \div (2 * g.len[a] + 4)
\* the cell of a point, and the share of the volume that each cell has, as <<num, den>>
Cell(g, p) ==
  LET v == [a \in Axes |-> p[a] - g.c[a]]
      s == Sq(v[1]) + Sq(v[2])
      t == s + Sq(v[3])
      q == 2 * Side(v[1]) + Side(v[2])
  IN IF g.shape = "box" THEN <<Third(g, p, 1), Third(g, p, 2), Third(g, p, 3)>>
     ELSE IF g.shape = "tube" THEN <<IF 4 * s <= Sq(g.r) THEN 0 ELSE IF 2 * s <= Sq(g.r) THEN 1
                                     ELSE IF s <= Sq(g.r) - Sq(g.r) \div 4 THEN 2 ELSE 3, q, Third(g, p, 3)>>
     ELSE <<IF 4 * t <= Sq(g.r) THEN 0 ELSE IF t <= Sq(g.r) \div 2 + Sq(g.r) \div 16 THEN 1 ELSE 2, q, Side(v[3])>>
Cells(g) ==
  LET t(a) == IF Flat(g, a) THEN {0} ELSE 0 .. 2
  IN IF g.shape = "box" THEN t(1) \X t(2) \X t(3)
     ELSE IF g.shape = "tube" THEN (0 .. 3) \X (0 .. 3) \X t(3)
     ELSE (0 .. 2) \X (0 .. 3) \X (0 .. 1)
Share(g, c) ==
  LET t(a) == IF Flat(g, a) THEN 1 ELSE 3
  IN IF g.shape = "box" THEN <<1, t(1) * t(2) * t(3)>>
     ELSE IF g.shape = "tube" THEN <<1, 16 * t(3)>>
     \* shells up to 1/2 and 3/4 of the radius, in eight octants
     ELSE <<IF c[1] = 0 THEN 8 ELSE IF c[1] = 1 THEN 19 ELSE 37, 512>>
\* within about six standard deviations of the expected number
Plausible(count, total, share) ==
  LET want == (total * share[1]) \div share[2]
      diff == Abs(count - want)
  IN Sq(diff) <= 40 * want + 60
\* and the share of the points that agree in one component of their cell
Slab(g, c, k) == IF g.shape = "box" \/ (g.shape = "tube" /\ k = 3) THEN <<1, IF Flat(g, k) THEN 1 ELSE 3>>
                 ELSE IF k = 2 \/ g.shape = "tube" THEN <<1, 4>>
                 ELSE IF k = 3 THEN <<1, 2>>
                 ELSE <<IF c[1] = 0 THEN 8 ELSE IF c[1] = 1 THEN 19 ELSE 37, 64>>
CellsOk(g, xs) ==
  LET at == [i \in DOMAIN xs |-> Cell(g, xs[i])] IN
  \A c \in Cells(g) : /\ Plausible(Cardinality({i \in DOMAIN xs : at[i] = c}), Len(xs), Share(g, c))
                      /\ \A k \in 1 .. 3 : Plausible(Cardinality({i \in DOMAIN xs : at[i][k] = c[k]}), Len(xs), Slab(g, c, k))

\* volume, up to the common factor of the kinds: a box of unit volume against a round one, pi as 355/113
Vol(g) == LET len(a) == IF Flat(g, a) THEN 1 ELSE g.len[a]
          IN IF g.shape = "box" THEN 339 * len(1) * len(2) * len(3)
             ELSE IF g.shape = "tube" THEN 1065 * Sq(g.r) * len(3)
             ELSE 1420 * g.r * Sq(g.r)
RECURSIVE VolSum(_)
VolSum(k) == IF k = 0 THEN 0 ELSE Vol(T.regs[k]) + VolSum(k - 1)
\* the share of region k, in thousandths
Mille(k) == ((Vol(T.regs[k]) * 10) \div ((VolSum(Len(T.regs)) \div 100) + 1))
SampleFails(sm) ==
  LET xs == sm.xs
      gs == [k \in DOMAIN T.regs |-> Fine(T.regs[k])]
      of(k) == SelectSeq(xs, LAMBDA p : Near(gs[k], p))
  IN (IF Len(xs) # sm.asked THEN {"number of samples"} ELSE {})
     \cup (IF \A i \in DOMAIN xs : \E k \in DOMAIN gs : Near(gs[k], xs[i]) THEN {} ELSE {"sample outside"})
     \cup (IF sm.again THEN {} ELSE {"same seed, other samples"})
     \cup (IF sm.fresh THEN {} ELSE {"a sample is no random one"})
     \cup (IF Len(xs) < 500 \/ ~ AllApart \/ \A k \in DOMAIN gs : Len(of(k)) < 250 \/ CellsOk(gs[k], of(k)) THEN {} ELSE {"samples not uniform"})
     \cup (IF Len(gs) = 1 \/ Len(xs) < 500 \/ ~ AllApart \/ \A k \in DOMAIN gs : Plausible(Len(of(k)), Len(xs), <<Mille(k), 1000>>)
           THEN {} ELSE {"samples not shared by volume"})

Member(q) == \E k \in DOMAIN T.regs : InPad(T.regs[k], q.p, q.pad)
ToSet(s) == {s[i] : i \in DOMAIN s}
Finish == /\ idx = Len(T.regs) + 1
          /\ idx' = idx + 1
          /\ LET seen == T.grid
             IN PrintT("@@" \o ToJson([tid |-> tid,
                  fails |-> RefusalFails \cup IF T.refused THEN {} ELSE
                            (IF ToSet(seen) # got \/ Len(seen) # Cardinality(got) THEN {"grid"} ELSE {})
                            \cup (IF \A i \in DOMAIN T.queries : T.queries[i].ans = Member(T.queries[i]) THEN {} ELSE {"membership"})
                            \cup (IF T.gridagain THEN {} ELSE {"another grid later"})
                            \cup UNION {SampleFails(T.samples[i]) : i \in DOMAIN T.samples}]))
          /\ UNCHANGED <<vars, tid, got>>
TNext == Grow \/ NextRegion \/ Finish
TView == <<tid, idx, n>>
================================================================================
