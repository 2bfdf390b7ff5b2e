---------------------------------- MODULE Room ----------------------------------
(* Sound in a room, with positions in units of what sound travels in one sample.    *)
(* Two wavefronts leave the source along one axis, in either direction, and move     *)
(* one unit per sample. A wall turns them around, and costs a bounce. Whenever one   *)
(* passes the microphone, something arrives.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES wide,   \* the distance of the walls, at 0 and wide; 0: there are no walls
          s, m,   \* positions of source and microphone, 0 < s, m < wide
          time,
          at,     \* positions of the two wavefronts
          to,     \* their directions
          hit,    \* their bounces
          got     \* what arrived: <<time, bounces, direction>>
vars == <<wide, s, m, time, at, to, hit, got>>

InitWith(w, a, b) == /\ wide = w /\ s = a /\ m = b /\ time = 0 /\ at = <<a, a>> /\ to = <<1, 0 - 1>> /\ hit = <<0, 0>> /\ got = {}
AtWall(k) == wide > 0 /\ ((at[k] = wide /\ to[k] = 1) \/ (at[k] = 0 /\ to[k] = 0 - 1))
Dir(k) == IF AtWall(k) THEN 0 - to[k] ELSE to[k]
Hits(k) == IF AtWall(k) THEN hit[k] + 1 ELSE hit[k]
Move == LET p == [k \in 1 .. 2 |-> at[k] + Dir(k)]
            h == [k \in 1 .. 2 |-> Hits(k)]
        IN /\ to' = [k \in 1 .. 2 |-> Dir(k)]
           /\ hit' = h
           /\ at' = p
           /\ time' = time + 1
           /\ got' = got \cup {<<time + 1, h[k], Dir(k)>> : k \in {j \in 1 .. 2 : p[j] = m}}
           /\ UNCHANGED <<wide, s, m>>

Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* --- what arrives: the same as from mirror images of the source ---------------------
Images(p) == IF wide = 0 THEN {<<p, 0>>}
             ELSE UNION {{<<2 * k * wide + p, Abs(2 * k)>>, <<2 * k * wide - p, Abs(2 * k - 1)>>} : k \in {j - time - 1 : j \in 0 .. 2 * time + 2}}
Way(i, p) == IF i < p THEN 1 ELSE 0 - 1
Heard(img, p) == {<<Abs(i[1] - p), i[2], Way(i[1], p)>> : i \in {j \in img : Abs(j[1] - p) <= time}}
Mirror == s # m => got = Heard(Images(s), m)
Inside == wide > 0 => \A k \in 1 .. 2 : 0 <= at[k] /\ at[k] <= wide
\* a microphone hears from the source what it would send to it
Back(g) == <<g[1], g[2], IF g[2] % 2 = 0 THEN 0 - g[3] ELSE g[3]>>
Reciprocal == s # m => {Back(g) : g \in got} = Heard(Images(m), s)
\* at most one arrival per wavefront and passage, and never faster than sound
Slow == \A g \in got : g[1] >= Abs(s - m)
================================================================================
