------------------------------ MODULE Regions_MC ------------------------------
(* All small regions; each finished grid is emitted to be asked of the code. *)
EXTENDS Regions
CONSTANTS MaxLen,      \* largest extent, in pairs of units
          MaxGap       \* largest spacing, in pairs of units
Even(m) == {2 * i : i \in 1 .. m}
Centres == {<<0, 0, 0>>, <<6, 2, 4>>}
Boxes == {[shape |-> "box", c |-> c, len |-> <<x, y, z>>, r |-> 0, d |-> <<g, h, g>>, rule |-> "fit"] :
            c \in Centres, x \in Even(MaxLen), y \in Even(MaxLen), z \in {0} \cup Even(MaxLen), g \in Even(MaxGap), h \in Even(MaxGap)}
Tubes == {[shape |-> "tube", c |-> c, len |-> <<2 * r, 2 * r, z>>, r |-> r, d |-> <<g, h, g>>, rule |-> "cover"] :
            c \in Centres, r \in Even(MaxLen), z \in {0} \cup Even(MaxLen), g \in Even(MaxGap), h \in Even(MaxGap)}
Balls == {[shape |-> "ball", c |-> c, len |-> <<2 * r, 2 * r, 2 * r>>, r |-> r, d |-> <<g, h, g>>, rule |-> "fit"] :
            c \in Centres, r \in Even(MaxLen), g \in Even(MaxGap), h \in Even(MaxGap)}
Valid(g) == g.rule = "fit" => \A a \in Axes : Flat(g, a) \/ g.d[a] <= g.len[a]
MCInit == \E g \in Boxes \cup Tubes \cup Balls : Valid(g) /\ InitWith(g)
MCNext == Widen
Emit == Full => PrintT("@@" \o ToJson([reg |-> reg, grid |-> Grid]))
================================================================================
