-------------------------------- MODULE Picture --------------------------------
(* The picture of a quantity that is known at points of a rectangular grid. The   *)
(* points come in any order. The picture is drawn from the top line of pixels      *)
(* down, and each line from left to right.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES pts,    \* the points <<x, y>> in the order in which they are given
          left,   \* the points (their numbers) that are not drawn yet
          pic     \* the lines of pixels: numbers of points
vars == <<pts, left, pic>>

Ys(s) == {pts[k][2] : k \in s}
Xs(s) == {pts[k][1] : k \in s}
Top(s) == CHOOSE y \in Ys(s) : \A z \in Ys(s) : z <= y
First(s) == CHOOSE k \in s : \A j \in s : pts[k][1] <= pts[j][1]

InitWith(p) == pts = p /\ left = DOMAIN p /\ pic = << << >> >>
InLine == Len(pic[Len(pic)]) > 0
LineY == pts[pic[Len(pic)][1]][2]
\* the points that belong to the line of pixels that is drawn
Here == {k \in left : pts[k][2] = IF InLine THEN LineY ELSE Top(left)}
Draw == /\ left # {} /\ Here # {}
        /\ LET k == First(Here) IN /\ pic' = [pic EXCEPT ![Len(pic)] = Append(@, k)]
                                   /\ left' = left \ {k}
        /\ UNCHANGED pts
Down == /\ left # {} /\ Here = {}
        /\ pic' = Append(pic, << >>)
        /\ UNCHANGED <<pts, left>>
Next == Draw \/ Down
Drawn == left = {}

Rows == Len(pic)
Cols == Len(pic[1])
\* --- what the picture has to be ---------------------------------------------------
Rectangular == Drawn => \A r \in 1 .. Rows : Len(pic[r]) = Cols
Once == Drawn => /\ Rows * Cols = Len(pts)
                 /\ {pic[r][c] : r \in 1 .. Rows, c \in 1 .. Cols} = DOMAIN pts
Upright == \A r, q \in 1 .. Rows : \A c \in DOMAIN pic[r], d \in DOMAIN pic[q] :
             /\ (r < q <=> pts[pic[r][c]][2] > pts[pic[q][d]][2])
             /\ (c < d <=> pts[pic[r][c]][1] < pts[pic[q][d]][1])
================================================================================
