------------------------------ MODULE PictureTrace ------------------------------
(* Pictures that the code arranged, judged by Picture. A trace has                  *)
(*   pts, sig      points and the values at each of them (any number of values)     *)
(*   num           number of lines and columns that were reported                   *)
(*   pos, img      the arranged points and values                                   *)
(*   plots         what a plot shows: which of the values (which, 0 for none), the  *)
(*                 pixels, the extent on paper (x and y), lowest and highest colour  *)
(*   size          width and height of everything that was to be shown, with others, *)
(*                 the points that were to be shown in addition                      *)
EXTENDS Picture, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, done
T == Traces[tid]
TInit == \E t \in DOMAIN Traces : tid = t /\ done = FALSE /\ InitWith(Traces[t].pts)
Step == Next /\ UNCHANGED <<tid, done>>

Lo(s) == CHOOSE v \in s : \A u \in s : v <= u
Hi(s) == CHOOSE v \in s : \A u \in s : u <= v
All == DOMAIN pts
Shape(p) == Len(p) = Rows /\ \A r \in 1 .. Rows : Len(p[r]) = Cols
PosFails == IF ~Shape(T.pos) THEN {"shape of the positions"}
            ELSE IF \A r \in 1 .. Rows, c \in 1 .. Cols : T.pos[r][c] = T.full[pic[Rows + 1 - r][c]] THEN {} ELSE {"order of the positions"}
ImgFails == IF ~Shape(T.img) THEN {"shape of the values"}
            ELSE IF \A r \in 1 .. Rows, c \in 1 .. Cols : T.img[r][c] = T.sig[pic[r][c]] THEN {} ELSE {"order of the values"}
PlotFails == UNION {LET p == T.plots[k] IN
    (IF ~Shape(p.pixels) THEN {"shape of a plot"}
     ELSE IF \A r \in 1 .. Rows, c \in 1 .. Cols : p.pixels[r][c] = T.sig[pic[r][c]][p.which] THEN {} ELSE {"pixels of a plot"})
    \cup (IF p.extent = <<Lo(Xs(All)), Hi(Xs(All)), Lo(Ys(All)), Hi(Ys(All))>> THEN {} ELSE {"extent of a plot"})
    \cup (LET vs == {T.sig[j][p.which] : j \in All}
          IN IF p.clim = (IF Len(T.clim) = 0 THEN <<Lo(vs), Hi(vs)>> ELSE T.clim) THEN {} ELSE {"colours of a plot"})
    \cup (IF p.titled /\ p.marked THEN {} ELSE {"title or arrays of a plot"}) : k \in DOMAIN T.plots}
SizeFails == LET oth == {T.others[k] : k \in DOMAIN T.others}
                 xs == Xs(All) \cup {o[1] : o \in oth}
                 ys == Ys(All) \cup {o[2] : o \in oth}
             IN IF T.size = <<Hi(xs) - Lo(xs), Hi(ys) - Lo(ys)>> THEN {} ELSE {"size"}
Finish == /\ ~done /\ Drawn /\ done' = TRUE
          /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> (IF T.num = <<Rows, Cols>> THEN {} ELSE {"number of pixels"})
                \cup PosFails \cup ImgFails \cup PlotFails \cup SizeFails]))
          /\ UNCHANGED <<vars, tid>>
TNext == Step \/ Finish
TView == <<tid, done, left, Len(pic)>>
================================================================================
