------------------------------ MODULE WalkTrace -------------------------------
(***************************************************************************)
(* Positions asked of real trajectories, in any order, judged by Walk.     *)
(* A trace has parts (walks, circles or tables) and asks: [t (ticks), n    *)
(* (rows that came back), rows].  A row is, for a walk, the coordinates    *)
(* times scale; for a circle [turn (in 1/A, -1 at radius 0), radius (in    *)
(* 1/R), the height above the plane]; for a table the entry, or -1.        *)
(***************************************************************************)
EXTENDS Walk, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, k, fails
T == Traces[tid]
Ok(p, t, r) ==
    CASE p.kind = "walk" ->
           LET pl == At(p.w, t) IN Len(r) = p.dim /\ \A x \in 1..p.dim : r[x] = Coord(p.w, pl, x, p.scale)
      [] p.kind = "circle" -> r[2] = Radius(p.c, t) /\ r[3] = 0 /\ (r[1] = Turn(p.c, t) \/ Radius(p.c, t) = 0)
      [] p.kind = "table" -> r[1] = t
Judge(a) == IF a.n # Len(T.parts) THEN {"number of positions"}
            ELSE {T.parts[x].kind : x \in {y \in DOMAIN T.parts : ~ Ok(T.parts[y], a.t * T.parts[y].B, a.rows[y])}}
Nothing == [mode |-> "time", len |-> <<1>>, P |-> 1, pts |-> <<>>]
TInit == tid \in DOMAIN Traces /\ k = 0 /\ fails = {} /\ InitWith(Nothing)
TNext == /\ UNCHANGED <<vars, tid>>
         /\ IF k < Len(T.asks)
            THEN k' = k + 1 /\ fails' = fails \cup {<<f, T.asks[k + 1].t>> : f \in Judge(T.asks[k + 1])}
            ELSE k = Len(T.asks) /\ k' = k + 1 /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> fails])) /\ UNCHANGED fails
===============================================================================
