----------------------------- MODULE FiguresTrace ------------------------------
(* Figures as they were written, judged by what the machine of AspSim recorded. A   *)
(* figure of diagnostic q is [k, named, file, axes], an axis                         *)
(*   [titled, xlabel, lines, images, legend], a line [label, x, y, seen].            *)
(* In addition to the diagnostics of DerivedTrace there are instants:                *)
(*   irs   two sets of three responses of two values                                 *)
(*   mat   a matrix                                                                  *)
(* A trace of kind "arrays" has the figure of a set-up: marks, shapes and the room.  *)
EXTENDS DerivedTrace
K == Traces[tid].kind
Label(d, c) == IF Len(d.suffix) = 0 THEN d.name ELSE d.name \o "_" \o d.suffix[c]
Rng(s) == {s[j] : j \in DOMAIN s}
\* equal up to the order
Times(s, x) == Cardinality({j \in DOMAIN s : s[j] = x})
Bag(s, r) == Len(s) = Len(r) /\ \A x \in Rng(s) \cup Rng(r) : Times(s, x) = Times(r, x)
Plain(lines) == [j \in DOMAIN lines |-> [label |-> lines[j].label, x |-> lines[j].x, y |-> lines[j].y]]
Legible(a) == /\ \A j \in DOMAIN a.lines : a.lines[j].seen
              /\ Rng(a.legend) = {a.lines[j].label : j \in DOMAIN a.lines}
              /\ Len(a.legend) = Cardinality(Rng(a.legend))

\* --- lines over time ---------------------------------------------------------------
TimeLines(d, k) ==
  LET kept == SelectSeq(Want(d), LAMBDA r : r[1] < k)
      rows == Pre(d, [c \in 1 .. d.nch |-> [j \in DOMAIN kept |-> kept[j][2][c]]])
  IN [c \in 1 .. d.nch |-> [label |-> Label(d, c), x |-> [j \in DOMAIN kept |-> kept[j][1]], y |-> rows[c]]]
TimeFails(d, f) ==
  IF Len(f.axes) # 1 THEN {"axes"}
  ELSE LET a == f.axes[1] IN
       (IF Bag(Plain(a.lines), TimeLines(d, f.k)) THEN {} ELSE {"lines"})
       \cup (IF a.titled /\ a.xlabel = "Samples" THEN {} ELSE {"title"})
       \cup (IF Legible(a) THEN {} ELSE {"legend"})
\* --- the values of a signal without their times, or a spectrum ------------------------
SpectrumFails(d, f) ==
  IF Len(f.axes) # 1 THEN {"axes"}
  ELSE LET a == f.axes[1]
           want == [c \in 1 .. d.nch |-> LET y == TimeLines(d, f.k)[c].y IN [label |-> d.name, x |-> [j \in DOMAIN y |-> j - 1], y |-> y]]
       IN (IF d.kind = "spec" \/ Bag(Plain(a.lines), want) THEN {} ELSE {"lines"})
          \cup (IF Rng(a.legend) = {d.name} /\ Len(a.legend) = 1 THEN {} ELSE {"legend"})
\* --- instants ----------------------------------------------------------------------
Counted(f) == (f.k + 1) \div cfg.b
IrFails(d, f) ==
  LET c == Counted(f) v == Val(c)
      want == IF d.fn = "irs" THEN [i \in 1 .. 3 |-> [s \in 1 .. 2 |-> [label |-> d.name, x |-> <<0, 1>>, y |-> <<v + s, c + i>>]]]
              ELSE LET y == Fn(d, c) IN << << [label |-> d.name, x |-> [j \in DOMAIN y |-> j - 1], y |-> y] >> >>
  IN IF Len(f.axes) # Len(want) THEN {"axes"}
     ELSE (IF \A i \in DOMAIN want : Bag(Plain(f.axes[i].lines), want[i]) THEN {} ELSE {"lines"})
          \cup (IF \A i \in DOMAIN want : Legible(f.axes[i]) THEN {} ELSE {"legend"})
MatFails(d, f) ==
  LET c == Counted(f) v == Val(c)
      shown == SelectSeq(f.axes, LAMBDA a : Len(a.images) > 0 /\ a.titled)
  IN IF Len(shown) = 1 /\ shown[1].images = << << <<v, c, 0>>, <<1, 2, v>> >> >> THEN {} ELSE {"image"}
\* --- sound fields: channel c is at d.at[c] ---------------------------------------------
FieldFails(d, f) ==
  LET vals == Want(d)[1][2]
      xs == SetToSortSeq({d.at[c][1] : c \in DOMAIN d.at}, <)
      ys == SetToSortSeq({d.at[c][2] : c \in DOMAIN d.at}, >)
      pix == [r \in DOMAIN ys |-> [q \in DOMAIN xs |-> vals[CHOOSE c \in DOMAIN d.at : d.at[c] = <<xs[q], ys[r]>>]]]
      shown == SelectSeq(f.axes, LAMBDA a : Len(a.images) > 0)
      lo(s) == s[1] hi(s) == s[Len(s)]
      sorted == SetToSortSeq(Rng(vals), <)
  IN (IF Len(shown) = 1 /\ shown[1].images = <<pix>> THEN {} ELSE {"image"})
     \cup (IF Len(shown) = 1 /\ Len(sorted) > 1 /\ shown[1].ranges # << <<lo(sorted), hi(sorted)>> >> THEN {"colours"} ELSE {})
     \cup (IF Len(shown) = 1 /\ shown[1].extents # << <<lo(xs), hi(xs), hi(ys), lo(ys)>> >> THEN {"extent"} ELSE {})
     \cup (IF Len(shown) = 1 /\ ~ shown[1].titled THEN {"title"} ELSE {})
     \cup (IF Len(shown) = 1 /\ Bag(Plain(shown[1].lines), d.marks) /\ Rng(shown[1].legend) = {d.marks[j].label : j \in DOMAIN d.marks} THEN {} ELSE {"arrays"})

Fails(d, f) ==
  (IF f.named THEN {} ELSE {"name of the file"})
  \cup (CASE d.plot = "time" -> TimeFails(d, f)
          [] d.plot = "spectrum" -> SpectrumFails(d, f)
          [] d.plot = "ir" -> IrFails(d, f)
          [] d.plot = "matshow" -> MatFails(d, f)
          [] d.plot = "field" -> FieldFails(d, f))
Mode == Traces[tid].mode       \* how figures are output
SimFails ==
  UNION {LET d == cfg.derived[q] f == O.figs[q] IN
     (IF (IF Mode \in {"pdf", "svg"} THEN Bag([z \in DOMAIN f |-> f[z].k], SetToSortSeq(DueFiles(d), <)) ELSE f = << >>) THEN {} ELSE {<<"figures of " \o d.plot, q>>})
     \cup {<<w \o " of " \o d.plot, q>> : w \in UNION {Fails(d, f[z]) : z \in DOMAIN f}}
   : q \in DOMAIN cfg.derived}
  \cup (IF O.extra # << >> THEN {<<"unexpected files", 0>>} ELSE {})
  \cup (LET n == 1 + Total([q \in DOMAIN cfg.derived |-> Cardinality(DueFiles(cfg.derived[q]))])
        IN IF O.shown = (IF Mode = "show" THEN n ELSE 0) THEN {} ELSE {<<"figures shown", 0>>})
\* --- the figure of the arrays -----------------------------------------------------------
ArrayFails ==
  LET T == Traces[tid] f == O.fig IN
  IF f = << >> THEN IF Mode \in {"pdf", "svg"} /\ T.folder THEN {"figure"} ELSE {}
  ELSE IF ~ T.folder \/ Mode \notin {"pdf", "svg"} THEN {"figure without a folder"}
  ELSE LET g == f[1] IN
    (IF Len(f) = 1 /\ g.named THEN {} ELSE {"name of the file"})
    \cup (IF Bag(g.marks, T.marks) THEN {} ELSE {"positions"})
    \cup (IF Bag(g.shapes, T.shapes) THEN {} ELSE {"regions"})
    \cup (IF g.rooms = (IF \E p \in Rng(T.types) : p = "ism" THEN <<T.room>> ELSE << >>) THEN {} ELSE {"room"})
    \cup (IF Rng(g.legend) = {T.marks[j].label : j \in DOMAIN T.marks} \cup {T.shapes[j].label : j \in DOMAIN T.shapes} THEN {} ELSE {"legend"})
FFinish == /\ (Done \/ K = "arrays") /\ ~ fin /\ fin' = TRUE
           /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> IF K = "arrays" THEN {<<w, 0>> : w \in ArrayFails} ELSE SimFails,
                                     spectra |-> IF K = "arrays" THEN << >> ELSE Spectra]))
           /\ UNCHANGED <<simvars, tid>>
FNext == (K # "arrays" /\ TStep) \/ FFinish
===============================================================================
