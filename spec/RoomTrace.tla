-------------------------------- MODULE RoomTrace --------------------------------
(* Impulse responses of a room. A trace has a kind:                                 *)
(*   free  no reflections (exact: in numbers that are never rounded, so that the      *)
(*         delay of a whole number of samples is one): positions src and mic, ext (samples before the response   *)
(*         begins), len of the response, and seen[i][j] = [first, last, peak, d2]:    *)
(*         the first and last sample that is not zero (0: none; counted from 1), the  *)
(*         largest one, and one over its square, which is the square of a distance    *)
(*   room  walls at a distance of wide, source and microphone at s and m; the verdict  *)
(*         has the arrivals within the length                                          *)
(*   cut   responses (whole numbers), the length to which they are cut, and what is   *)
(*         said to be lost of the pair that loses most: the part of its energy and the *)
(*         largest sample lost over the largest one, in thousandths of a decibel;      *)
(*         the verdict has the same as fractions                                       *)
(*   told  what is written down about the responses of a pair of arrays: said has the  *)
(*         smallest, middle, mean and largest reverberation time (microseconds) and    *)
(*         the two losses (ten thousandths of a decibel), the absorption (millionths)  *)
(*         and the order; each has time and losses of each response                    *)
EXTENDS Room, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, done
T == Traces[tid]
TInit == \E t \in DOMAIN Traces : /\ tid = t /\ done = FALSE
                                  /\ IF Traces[t].kind = "room" THEN InitWith(Traces[t].wide, Traces[t].s, Traces[t].m) ELSE InitWith(0, 1, 2)
Horizon == IF T.kind = "room" THEN T.horizon ELSE 0
Step == time < Horizon /\ Move /\ UNCHANGED <<tid, done>>

Sq(x) == x * x
D2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])
RECURSIVE RootFrom(_, _)
RootFrom(k, d) == IF Sq(k + 1) > d THEN k ELSE RootFrom(k + 1, d)
Root(d) == RootFrom(0, d)
\* a response that is cut off after len samples
PairFails(a, b, q) ==
  LET d == D2(a, b)
      f == Root(d)
      exact == f * f = d
      \* halfway between two samples, either may be the largest
      peaks == {T.ext + 1 + g : g \in {g \in {f, f + 1} : IF g = f THEN 100 * d < Sq(10 * f + 6) ELSE 100 * d > Sq(10 * f + 4)}}
      peak == T.ext + f + 1
      low == IF exact THEN peak ELSE f + 1
      high == IF exact THEN peak ELSE f + 2 + 2 * T.ext
  IN IF low > T.len THEN (IF q.first = 0 THEN {} ELSE {"something arrives that is cut off"})
     ELSE IF exact THEN
       IF T.exact THEN
         (IF q.first = peak /\ q.last = peak THEN {} ELSE {"time of arrival"})
         \cup (IF q.d2 = d THEN {} ELSE {"decay with distance"})
       ELSE (IF q.peak = peak THEN {} ELSE {"time of arrival"})
            \cup (IF d - 1 <= q.d2 /\ q.d2 <= 2 * d THEN {} ELSE {"decay with distance"})
     ELSE (IF q.first = 0 \/ (low <= q.first /\ q.last <= high) THEN {} ELSE {"time of arrival"})
          \cup (IF high <= T.len /\ q.peak \notin peaks THEN {"centre of an arrival"} ELSE {})
FreeFails == IF T.len # T.got_len THEN {"length"}
             ELSE UNION {PairFails(T.src[i], T.mic[j], T.seen[i][j]) : i \in DOMAIN T.src, j \in DOMAIN T.mic}
\* --- what is lost by cutting: for each response <<energy lost, energy>> and <<largest lost, largest>> ---
RECURSIVE Energy(_, _, _)
Energy(x, lo, hi) == IF lo > hi THEN 0 ELSE Sq(x[lo]) + Energy(x, lo + 1, hi)
Largest(x, lo, hi) == IF lo > hi THEN 0 ELSE CHOOSE v \in {Abs(x[k]) : k \in lo .. hi} : \A k \in lo .. hi : Abs(x[k]) <= v
EnergyLost(x) == <<Energy(x, T.len + 1, Len(x)), Energy(x, 1, Len(x))>>
SampleLost(x) == <<Largest(x, T.len + 1, Len(x)), Largest(x, 1, Len(x))>>
\* the largest of fractions
Worst(fr) == CHOOSE f \in fr : \A g \in fr : g[1] * f[2] <= f[1] * g[2]
Responses == {T.rir[k] : k \in DOMAIN T.rir}
Lost == IF T.kind = "cut" THEN <<Worst({EnergyLost(x) : x \in Responses}), Worst({SampleLost(x) : x \in Responses})>> ELSE <<>>
\* --- what is told about many responses -------------------------------------------------
Most(v) == CHOOSE x \in v : \A y \in v : y <= x
Least(v) == CHOOSE x \in v : \A y \in v : x <= y
Each(k) == [i \in DOMAIN T.each |-> T.each[i][k]]
Range(f) == {f[i] : i \in DOMAIN f}
\* the p-th in order
Nth(f, p) == CHOOSE v \in Range(f) : /\ Cardinality({i \in DOMAIN f : f[i] < v}) < p
                                     /\ p <= Cardinality({i \in DOMAIN f : f[i] <= v})
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Close(a, b) == Abs(a - b) <= 2
ToldFails ==
  LET rt == Each("time")
      n == Len(T.each)
      a == Nth(rt, (n + 1) \div 2)
      b == Nth(rt, n \div 2 + 1)
  IN (IF Close(T.said.min, Least(Range(rt))) THEN {} ELSE {"smallest reverberation time"})
     \cup (IF Close(T.said.max, Most(Range(rt))) THEN {} ELSE {"largest reverberation time"})
     \cup (IF Abs(2 * T.said.median - a - b) <= 4 THEN {} ELSE {"median of the reverberation times"})
     \cup (IF Close(T.said.mean, Sum(rt, n) \div n) THEN {} ELSE {"mean of the reverberation times"})
     \cup (IF Close(T.said.energy, Most(Range(Each("energy")))) THEN {} ELSE {"energy lost"})
     \cup (IF Close(T.said.largest, Most(Range(Each("largest")))) THEN {} ELSE {"largest sample lost"})
     \cup (IF T.order = 0 \/ Close(T.said.absorption, T.absorption) THEN {} ELSE {"absorption"})
     \cup (IF (T.order = 0) = (T.said.order = 0) /\ T.said.order >= T.order THEN {} ELSE {"order"})
Finish == /\ ~done /\ time = Horizon /\ done' = TRUE
          /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> (CASE T.kind = "free" -> FreeFails [] T.kind = "told" -> ToldFails [] OTHER -> {}), got |-> got, lost |-> Lost]))
          /\ UNCHANGED <<vars, tid>>
TNext == Step \/ Finish
TView == <<tid, time, done>>
================================================================================
