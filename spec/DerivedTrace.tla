----------------------------- MODULE DerivedTrace -----------------------------
(* Diagnostics that are derived from signals and states, judged by AspSim. The     *)
(* machine runs on the configuration of the trace; at the end, what each           *)
(* diagnostic has to contain is computed from the histories of the machine.        *)
(* cfg.derived is a sequence of records with a kind:                               *)
(*   power   mean of squares over channels, for the samples of ivs                 *)
(*   ratio   quotient of two powers, each a sum over the last len recorded samples *)
(*   field   sum of squares over the samples lo .. hi - 1, for each channel        *)
(*   sum     sum over the samples lo .. hi - 1 and channels (of squares, if sq)     *)
(*   spec    the samples lo .. hi - 1 themselves; the verdict has them              *)
(*   signal  the signal                                                             *)
(*   state   a function fn of the state at idxs; rows: of several values            *)
(*   inst    the same, at once, only in files                                       *)
(* Numbers in observations are multiplied with what they were divided by.           *)
(* The state of the processor after call k is its value v and k.                    *)
(* Exports go through what pre says: "none", "smooth" over the last arg samples      *)
(* (times arg), "clip" to -arg .. arg, "same" for what has an inverse.               *)
EXTENDS AspSim, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, fin
O == Traces[tid].obs
TInit == \E i \in DOMAIN Traces : tid = i /\ StartIn(Traces[i].cfg) /\ fin = FALSE
TStep == Step /\ UNCHANGED <<tid, fin>>

Sq(x) == x * x
At(sg, ch, n) == SigHist(cfg, hs, hm, hc, ha, sg)[ch][n + cfg.B]
Sum(q) == FoldLeft(LAMBDA a, x : a + x, 0, q)
Power(sg, chs, n) == Sum([k \in DOMAIN chs |-> Sq(At(sg, chs[k], n))])
Span(lo, hi) == [k \in 1 .. hi - lo |-> lo + k - 1]
Due(d) == LET S == {n \in 0 .. cfg.tot - 1 : Covered(d.ivs, n)} IN SetToSortSeq(S, <)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Ratio(d, due, i) ==
  LET from == IF i > d.len THEN i - d.len + 1 ELSE 1
      num == Sum([k \in 1 .. i - from + 1 |-> Power(d.sig, d.chans, due[from + k - 1])])
      den == Sum([k \in 1 .. i - from + 1 |-> Power(d.over, d.overchans, due[from + k - 1])])
      g == Gcd(num, den)
  IN IF den = 0 THEN <<0, 0>> ELSE <<num \div g, den \div g>>

\* --- states ------------------------------------------------------------------
Val(c) == IF c = 0 THEN O.state0 ELSE O.states[c]
Lt(a, b) == a < b
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* eigenvalues of [[v, c], [c, v]] next to -3
Eigs(c) == LET v == Val(c) IN SortSeq(<<v - c, v + c, 0 - 3>>, Lt)
Fn(d, c) ==
  LET v == Val(c)
      pick == LET e == Eigs(c) IN [j \in 1 .. d.hi - d.lo + 1 |-> e[d.lo + j]]
  IN CASE d.fn = "power2" -> <<Sq(v) + Sq(c)>>          \* of (v, c), times 2
       [] d.fn = "sum" -> <<v + c>>
       [] d.fn = "diff" -> <<2 * v - c>>
       [] d.fn = "vec" -> <<v, c>>
       [] d.fn = "minus" -> <<v - c, v - 2 * c>>
       [] d.fn = "eig" -> IF d.abs THEN [j \in DOMAIN pick |-> Abs(pick[j])] ELSE pick

\* --- what each diagnostic contains at the end: sequence of <<n, values>> -----------
StateRows(d) == [k \in DOMAIN d.idxs |-> <<d.idxs[k] - 1, Fn(d, (d.idxs[k] + 1) \div cfg.b)>>]
Want(d) ==
  CASE d.kind = "power" -> LET due == Due(d) IN [k \in DOMAIN due |-> <<due[k], <<Power(d.sig, d.chans, due[k])>> >>]
    [] d.kind = "signal" -> LET due == Due(d) IN [k \in DOMAIN due |-> <<due[k], [c \in DOMAIN d.chans |-> At(d.sig, d.chans[c], due[k])]>>]
    [] d.kind = "ratio" -> LET due == Due(d) IN [k \in DOMAIN due |-> <<due[k], Ratio(d, due, k)>>]
    [] d.kind = "field" -> <<  <<d.hi - 1, [c \in DOMAIN d.chans |-> LET s == Span(d.lo, d.hi) IN Sum([k \in DOMAIN s |-> Sq(At(d.sig, d.chans[c], s[k]))])]>> >>
    [] d.kind = "sum" -> << <<d.hi - 1, <<LET s == Span(d.lo, d.hi) IN
                              Sum([k \in DOMAIN s |-> IF d.sq THEN Power(d.sig, d.chans, s[k]) ELSE Sum([c \in DOMAIN d.chans |-> At(d.sig, d.chans[c], s[k])])])>> >> >>
    [] d.kind = "state" -> StateRows(d)
    [] OTHER -> << >>
\* a quotient without a denominator can be anything
Matches(d, got) ==
  LET w == Want(d) IN
  IF d.kind # "ratio" THEN got = w
  ELSE LET sure == SelectSeq(w, LAMBDA x : x[2] # <<0, 0>>)
           open == {w[k][1] : k \in {k \in DOMAIN w : w[k][2] = <<0, 0>>}}
       IN SelectSeq(got, LAMBDA x : x[1] \notin open) = sure

\* --- exports: what was there before index k, preprocessed ----------------------------
Small(x) == IF x > 100000000 THEN 0 ELSE x      \* what is no number at all
Pre(d, rows) == \* rows: per channel, the values
  CASE d.pre = "smooth" -> [c \in DOMAIN rows |-> [i \in DOMAIN rows[c] |->
                              LET from == IF i > d.arg THEN i - d.arg + 1 ELSE 1 IN Sum([k \in 1 .. i - from + 1 |-> Small(rows[c][from + k - 1])])]]
    [] d.pre = "clip" -> [c \in DOMAIN rows |-> [i \in DOMAIN rows[c] |-> IF rows[c][i] > d.arg THEN d.arg ELSE IF rows[c][i] < 0 - d.arg THEN 0 - d.arg ELSE rows[c][i]]]
    [] OTHER -> rows
Exported(d, got, k) ==
  LET kept == SelectSeq(got, LAMBDA x : x[1] < k)
  IN Pre(d, [c \in 1 .. d.nch |-> [j \in DOMAIN kept |-> kept[j][2][c]]])
\* the last sample that has been saved, exclusive
Until(d) == IF d.kind \in {"state", "inst"} THEN IF d.idxs = << >> THEN 0 ELSE d.idxs[Len(d.idxs)] ELSE SavedUntil(d.ivs)
DueFiles(d) == {d.exps[z] : z \in {z \in DOMAIN d.exps : d.exps[z] <= Until(d)}}

Checks ==
  UNION {LET d == cfg.derived[q] f == O.files[q] IN
    (IF d.kind \in {"inst", "spec"} \/ Matches(d, O.got[q]) THEN {} ELSE {<<"values of " \o d.kind, q>>})
    \cup (IF {f[z].k : z \in DOMAIN f} = DueFiles(d) /\ Len(f) = Cardinality(DueFiles(d)) THEN {} ELSE {<<"files of " \o d.kind, q>>})
    \cup (IF d.kind \in {"spec"} THEN {}
          ELSE IF d.kind = "ratio" THEN
             (IF \A z \in DOMAIN f : LET w == SelectSeq(O.got[q], LAMBDA x : x[1] < f[z].k) IN f[z].v = <<[j \in DOMAIN w |-> w[j][2]]>>
              THEN {} ELSE {<<"exported ratio", q>>})
          ELSE IF d.kind = "inst" THEN
             (IF \A z \in DOMAIN f : f[z].v = <<Fn(d, (f[z].k + 1) \div cfg.b)>> THEN {} ELSE {<<"exported instant", q>>})
          ELSE IF \A z \in DOMAIN f : f[z].v = Exported(d, O.got[q], f[z].k) THEN {} ELSE {<<"exported " \o d.kind, q>>})
    : q \in DOMAIN cfg.derived}
  \cup (IF O.extra # << >> THEN {<<"unexpected files", 0>>} ELSE {})

Spectra == [q \in DOMAIN cfg.derived |-> LET d == cfg.derived[q] s == Span(d.lo, d.hi) IN
              IF d.kind # "spec" THEN << >> ELSE [c \in DOMAIN d.chans |-> [k \in DOMAIN s |-> At(d.sig, d.chans[c], s[k])]]]
TFinish == /\ Done /\ ~ fin /\ fin' = TRUE
           /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> Checks, spectra |-> Spectra]))
           /\ UNCHANGED <<simvars, tid>>
TNext == TStep \/ TFinish
TView == <<tid, t, fin>>
===============================================================================
