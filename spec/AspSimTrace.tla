----------------------------- MODULE AspSimTrace ------------------------------
(***************************************************************************)
(* Checks recorded runs of the real simulator against AspSim.  Each trace  *)
(* is one initial state; the ideal machine is run on the configuration of  *)
(* the trace, and each observation is compared when the machine gets to    *)
(* it.  Nothing stops at the first difference: the clauses that fail are   *)
(* collected in fails, and written out when the trace is finished.         *)
(*                                                                         *)
(* Observations of a trace o:                                              *)
(*   o.calls[k]   [num, fut, win]: one call of the processor.              *)
(*                win[g][ch] are the last o.w samples of signal o.sigs[g]  *)
(*   o.rec[d]     sequence of <<n, values>> recorded by signal diagnostic d*)
(*   o.files[d]   sequence of [k, v] exported by it                        *)
(*   o.snaps[d]   sequence of [ti, v] recorded by state diagnostic d       *)
(*   o.states[k]  value of the recorded state after call k                 *)
(***************************************************************************)
EXTENDS AspSim, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, fails, oh
tvars == <<simvars, tid, fails, oh>>

O == Traces[tid].obs

TInit == \E i \in DOMAIN Traces :
    /\ tid = i
    /\ StartIn(Traces[i].cfg)
    /\ fails = {}
    /\ oh = [g \in DOMAIN Traces[i].obs.sigs |-> <<>>]   \* observed samples, <<>> before call 1

Kind(sg) == CASE sg[1] = "m" -> "mic" [] sg[1] = "c" -> "contribution" [] sg[1] = "a" -> "own"
              [] sg[1] = "s" -> (IF cfg.src[sg[2]].free THEN "source" ELSE "control")

\* ideal samples of signal sg, channel ch, at the positions lo..hi
IdealSub(sg, ch, lo, hi) == SubSeq(SigHist(cfg, hs, hm, hc, ha, sg)[ch], lo, hi)

\* calls that nothing asks for
ExtraCalls == IF Len(O.calls) > calls THEN {<<"extra call", Len(O.calls)>>} ELSE {}

CallChecks(k) ==
    IF k > Len(O.calls)
    THEN IF (k - 1) * cfg.b < cfg.tot THEN {<<"missing call", k>>} ELSE {}
    ELSE
    LET o == O.calls[k]
        now == cfg.B + t                     \* position of the newest sample
        w == O.w
    IN (IF o.num # cfg.b THEN {<<"block size", k>>} ELSE {})
       \cup (IF o.fut THEN {<<"future", k>>} ELSE {})
       \cup UNION {
         LET sg == O.sigs[g]
             win == o.win[g]
         IN UNION {
              LET newest == SubSeq(win[ch], w - cfg.b + 1, w)
                  older == SubSeq(win[ch], 1, w - cfg.b)
              IN (IF k = 1
                  THEN IF win[ch] # IdealSub(sg, ch, now - w + 1, now) THEN {<<Kind(sg), k>>} ELSE {}
                  ELSE (IF newest # IdealSub(sg, ch, now - cfg.b + 1, now) THEN {<<Kind(sg), k>>} ELSE {})
                       \cup (IF older # SubSeq(oh[g][ch], Len(oh[g][ch]) - (w - cfg.b) + 1, Len(oh[g][ch]))
                             THEN {<<"history", k>>} ELSE {}))
              : ch \in DOMAIN win}
         : g \in DOMAIN O.sigs}

Observe(k) ==
    IF k > Len(O.calls) THEN oh
    ELSE [g \in DOMAIN oh |-> [ch \in DOMAIN O.calls[k].win[g] |->
            IF k = 1 THEN O.calls[k].win[g][ch]
            ELSE oh[g][ch] \o SubSeq(O.calls[k].win[g][ch], O.w - cfg.b + 1, O.w)]]

TStep ==
    /\ LET call == IsCall(cfg, t) IN
       /\ fails' = fails \cup (IF call THEN CallChecks(calls + 1) ELSE {})
       /\ oh' = IF call THEN Observe(calls + 1) ELSE oh
    /\ Step
    /\ UNCHANGED tid

\* --- recorded signals ------------------------------------------------------
Merge(S) == SetToSortSeq(S, <)
Expected(ivs, hi) == Merge({n \in 0..(hi - 1) : Covered(ivs, n)})
GIdx(sg) == CHOOSE g \in DOMAIN O.sigs : O.sigs[g] = sg
\* the sample n of signal sg that the processor saw, or the ideal one
SeenAt(sg, ch, n) ==
    IF cfg.b > 0 /\ (\E g \in DOMAIN O.sigs : O.sigs[g] = sg)
    THEN LET x == oh[GIdx(sg)][ch] z == O.w - cfg.b + n + 1 IN IF z \in DOMAIN x THEN x[z] ELSE 1000000007   \* it was never shown

    ELSE SigHist(cfg, hs, hm, hc, ha, sg)[ch][n + cfg.B]

RecChecks ==
    UNION { LET d == cfg.sigdiag[q] r == O.rec[q] IN
            (IF [z \in DOMAIN r |-> r[z][1]] # Expected(d.ivs, cfg.tot) THEN {<<"recorded indices", q>>} ELSE {})
            \cup (IF \A z \in DOMAIN r : r[z][1] >= 0 /\ r[z][1] < cfg.tot /\
                        r[z][2] = [c \in DOMAIN d.chans |-> SeenAt(d.sig, d.chans[c], r[z][1])]
                  THEN {} ELSE {<<IF cfg.b > 0 THEN "recorded values" ELSE "unobserved values", q>>})
          : q \in DOMAIN cfg.sigdiag }

\* exports of one function that must be there at the end
\* (keeping only the last export concerns the arrays of numbers, not what else is written)
Exported(d, fn) == LET due == IF O.export THEN DueExports(d) ELSE {} IN
               IF d.keep /\ fn = "npz" /\ due # {} THEN {Max(due)} ELSE due
Has(d, fn) == \E z \in DOMAIN d.funcs : d.funcs[z] = fn
Small(x) == IF x > 100000000 THEN 0 ELSE x      \* what is no number at all
Kept(r, k) == SelectSeq(r, LAMBDA x : x[1] < k)
ExportChecks ==
    UNION { LET d == cfg.sigdiag[q] f == O.files[q] r == O.rec[q] x == O.others[q] IN
            (IF {f[z].k : z \in DOMAIN f} # (IF Has(d, "npz") THEN Exported(d, "npz") ELSE {})
                \/ (\E fn \in {"text", "wav", "plot"} :
                      {x[z].k : z \in {z \in DOMAIN x : x[z].fn = fn}} # (IF Has(d, fn) THEN Exported(d, fn) ELSE {}))
             THEN {<<IF d.keep THEN "kept files" ELSE "exported files", q>>} ELSE {})
            \cup (IF \A z \in DOMAIN f :
                       LET kept == Kept(r, f[z].k) IN
                       f[z].v = [c \in DOMAIN d.chans |-> [y \in DOMAIN kept |-> d.mul * Small(kept[y][2][c])]]
                  THEN {} ELSE {<<IF d.keep THEN "kept values" ELSE "exported values", q>>})
            \cup (IF \A z \in DOMAIN x :
                       LET kept == Kept(r, x[z].k)
                           n == Len(kept) * Len(d.chans)
                           sum == d.mul * Total([y \in DOMAIN kept |-> Total([c \in DOMAIN d.chans |-> Small(kept[y][2][c])])]) IN
                       CASE x[z].fn = "text" -> x[z].den = n /\ x[z].num = sum
                         [] x[z].fn = "wav" -> x[z].num = Len(kept) /\ x[z].ch = Len(d.chans)
                         [] OTHER -> TRUE
                  THEN {} ELSE {<<"exported values", q>>})
          : q \in DOMAIN cfg.sigdiag }
    \cup (IF O.extra # <<>> THEN {<<"unexpected files", 0>>} ELSE {})
    \* what can be read from the folder during the run: an export never gets lost
    \cup UNION { IF k > 1 /\ (\E q \in DOMAIN O.ls[k] :
                       LET old == ToSet(O.ls[k - 1][q]) new == ToSet(O.ls[k][q]) IN
                       IF cfg.sigdiag[q].keep
                       THEN Cardinality(new) > 1 \/ (old # {} /\ (new = {} \/ Max(new) < Max(old)))
                       ELSE ~ (old \subseteq new))
                  THEN {<<"export lost", k>>} ELSE {}
                : k \in DOMAIN O.ls }

\* a snapshot with index i shows the state after all blocks that end at or before sample i
StateAfter(k) == IF k = 0 THEN O.state0 ELSE IF k \in DOMAIN O.states THEN O.states[k] ELSE 1000000007
SnapChecks ==
    UNION { LET s == O.snaps[q] IN
            (IF Len(s) # Len(snap[q]) \/ \E z \in DOMAIN s : z <= Len(snap[q]) /\ s[z].ti # snap[q][z].i - 1
             THEN {<<"snapshot indices", q>>} ELSE {})
            \cup (IF \A z \in DOMAIN s : z <= Len(snap[q]) => s[z].v = StateAfter(snap[q][z].v)
                  THEN {} ELSE {<<"snapshot values", q>>})
          : q \in DOMAIN cfg.stdiag }
    \cup UNION { LET d == cfg.stdiag[q] f == O.stfiles[q] s == O.snaps[q]
                     last == IF s = <<>> THEN 0 ELSE s[Len(s)].ti + 1 IN
            (IF {f[z].k : z \in DOMAIN f} # (IF O.export THEN {d.exps[z] : z \in {z \in DOMAIN d.exps : d.exps[z] <= last}} ELSE {})
             THEN {<<"exported snapshots", q>>} ELSE {})
            \cup (IF \A z \in DOMAIN f : f[z].v = [y \in DOMAIN SelectSeq(s, LAMBDA x : x.ti < f[z].k) |->
                                                     SelectSeq(s, LAMBDA x : x.ti < f[z].k)[y].v]
                  THEN {} ELSE {<<"exported snapshot values", q>>})
          : q \in DOMAIN cfg.stdiag }

\* instant diagnostics: one file for each index, with the state at that index
InstChecks ==
    UNION { LET d == cfg.instdiag[q] f == O.instfiles[q] IN
            (IF {f[z].k : z \in DOMAIN f} # (IF O.export THEN ToSet(d.idxs) ELSE {}) THEN {<<"instant files", q>>} ELSE {})
            \cup (IF \A z \in DOMAIN f : f[z].v = StateAfter((f[z].k + 1) \div cfg.b)
                  THEN {} ELSE {<<"instant values", q>>})
            \cup (IF d.idxs = <<>> THEN {} ELSE IF O.instlast[q] = StateAfter((Max(ToSet(d.idxs)) + 1) \div cfg.b) THEN {} ELSE {<<"last instant value", q>>})
          : q \in DOMAIN cfg.instdiag }

\* the diagnostics are found by name and listed in the order in which they were added
Listed == [k \in 1 .. (Len(cfg.sigdiag) + Len(cfg.stdiag) + Len(cfg.instdiag)) |-> k]
LoggerChecks == IF O.logger = <<Listed, Listed, Listed, <<>> >> THEN {} ELSE {<<"listed diagnostics", 0>>}

TFinish ==
    /\ Done
    /\ ~ (\E f \in fails : f[1] = "finished")
    /\ LET all == fails \cup ExtraCalls \cup RecChecks \cup ExportChecks \cup SnapChecks \cup InstChecks \cup LoggerChecks IN
       /\ fails' = all \cup {<<"finished", 0>>}
       /\ PrintT("@@" \o ToJson([tid |-> tid, steps |-> t, fails |-> all]))
    /\ UNCHANGED <<simvars, tid, oh>>

TNext == TStep \/ TFinish
==============================================================================
