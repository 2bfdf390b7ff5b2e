----------------------------- MODULE SourcesTrace -----------------------------
(***************************************************************************)
(* What the sources play, sample by sample.  One trace is one source and   *)
(* its answers to several requests.  All numbers are integers; real values *)
(* are in units of 1/scale and compared with a tolerance.                  *)
(*                                                                         *)
(*   sequence  the audio, over and over                                    *)
(*   once      the audio, once; a request for more than is left is refused *)
(*             and takes nothing                                           *)
(*   pulse     the amplitude at samples congruent to the delay             *)
(*   counter   the numbers from the start on                               *)
(*   mls       the output of the register, 1 for 1 and -1 for 0            *)
(*   gold      the negated product of two such sequences, the second       *)
(*             delayed by the channel number, times the amplitude          *)
(*   code      Gold sequences whose registers are not given: signs of one    *)
(*             period and more, and delays at which channels are compared    *)
(*   sine      x[k+1] = c x[k] - x[k-1] with c = 2 cos(w), and             *)
(*             x[k]^2 + x[k+1]^2 - c x[k] x[k+1] = power (4 - c^2) / 2     *)
(*   multi     repeats after a common period; over it the power is right   *)
(*   file      the first channels of a sound file; after a change of the   *)
(*             samplerate by up/down there are ceil(len up / down) samples,  *)
(*             and a constant stays the constant away from the ends          *)
(*   noise     measured statistics against the ones asked for              *)
(***************************************************************************)
EXTENDS Register, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, step, pos, all, fails, reg
vars == <<tid, step, pos, all, fails, reg, rvars>>
\* all: the answers so far, one sequence of samples per channel
\* reg: states of the two registers

T == Traces[tid]
Abs(x) == IF x < 0 THEN - x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
ToSet(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSq(_, _)
SumSq(s, k) == IF k = 0 THEN 0 ELSE s[k] * s[k] + SumSq(s, k - 1)

\* --- sequences of the registers, computed once per trace --------------------
RECURSIVE Run(_, _, _, _)
Run(b, t, k, out) == IF k = 0 THEN out ELSE Run(Next(b, t), t, k - 1, Append(out, 2 * b[1] - 1))
Registers ==
    CASE T.kind = "mls" -> << Run(T.state, ToSet(T.taps), T.total, <<>>) >>
      [] T.kind = "gold" -> << Run(Ones(T.order), Preferred[T.order][1], Pow2(T.order) - 1, <<>>),
                               Run(Ones(T.order), Preferred[T.order][2], Pow2(T.order) - 1, <<>>) >>
      [] OTHER -> <<>>

\* --- sample k (from 0) of channel c, where it is determined alone ----------------
Sample(c, k) ==
    CASE T.kind \in {"sequence", "once"} -> T.audio[c][(k % Len(T.audio[c])) + 1] * T.amp
      [] T.kind = "pulse" -> IF (k - T.delay[c]) % T.period[c] = 0 THEN T.amps[c] ELSE 0
      [] T.kind = "counter" -> (T.start + k) * T.scale
      [] T.kind = "mls" -> reg[1][k + 1] * T.scale
      [] T.kind = "gold" -> LET L == Pow2(T.order) - 1 IN
                            - reg[1][(k % L) + 1] * reg[2][((k - (c - 1)) % L) + 1] * T.amps[c]
Alone == T.kind \in {"sequence", "once", "pulse", "counter", "mls", "gold"}

Channels == 1..T.channels
Refused(m) == T.kind = "once" /\ pos + m > Len(T.audio[1])
Judge(o) ==
    IF Refused(o.n) THEN (IF o.refused THEN {} ELSE {<<"not refused", step>>})
    ELSE IF o.refused THEN {<<"refused", step>>}
    ELSE IF Len(o.out) # T.channels \/ \E c \in Channels : Len(o.out[c]) # o.n THEN {<<"shape", step>>}
    ELSE IF Alone THEN UNION {{<<"sample", step>> : j \in {x \in 1..o.n : ~ Near(o.out[c][x], Sample(c, pos + x - 1), T.tol)}} : c \in Channels}
    ELSE {}

\* --- what the whole stream has to satisfy ----------------------------------------
Whole ==
    CASE T.kind = "sine" ->
            UNION {LET x == all[c] IN
              (IF \A k \in 2..(Len(x) - 1) : Near(x[k + 1], T.c * x[k] - x[k - 1], 4) THEN {} ELSE {<<"frequency", c>>}) \cup
              (IF \A k \in 1..(Len(x) - 1) : Near(x[k] * x[k] + x[k + 1] * x[k + 1] - T.c * x[k] * x[k + 1], T.energy[c], T.etol)
               THEN {} ELSE {<<"power", c>>}) : c \in Channels}
      [] T.kind = "multi" ->
            LET x == all[1] IN
            (IF \A k \in 1..(Len(x) - T.period) : Near(x[k], x[k + T.period], 4) THEN {} ELSE {<<"frequency", 1>>}) \cup
            (IF Near(SumSq(x, T.period), T.energy, T.etol) THEN {} ELSE {<<"power", 1>>})
      [] T.kind = "file" ->
            LET want == [c \in 1..(IF T.first > 0 THEN T.first ELSE Len(T.audio)) |-> T.audio[c]] IN
            IF Len(T.loaded) # Len(want) THEN {<<"channels", Len(T.loaded)>>}
            ELSE UNION {
              IF Len(T.loaded[c]) # (Len(want[c]) * T.up + T.down - 1) \div T.down THEN {<<"length", c>>}
              ELSE IF T.up = T.down
                   THEN {<<"sample", c>> : k \in {x \in DOMAIN want[c] : ~ Near(T.loaded[c][x], want[c][x], T.tol)}}
                   ELSE {<<"sample", c>> : k \in {x \in (T.edge + 1)..(Len(T.loaded[c]) - T.edge) :
                                                  ~ Near(T.loaded[c][x], want[c][1], T.tol)}} : c \in DOMAIN want}
      [] T.kind = "code" ->
            LET L == Period(T.order) IN
            UNION {
              (IF \A k \in (L + 1) .. Len(all[c]) : all[c][k] = all[c][k - L] THEN {} ELSE {<<"period", c>>}) \cup
              (IF \A k \in DOMAIN all[c] : Abs(all[c][k]) = T.amps[c] THEN {} ELSE {<<"power", c>>}) : c \in Channels} \cup
            (IF \A d \in ToSet(T.delays) : Agree([k \in 1 .. L |-> all[d[1]][k] > 0], [k \in 1 .. L |-> all[d[2]][k] > 0], d[3], L) \in Values(T.order)
             THEN {} ELSE {<<"channels cannot be told apart", 1>>})
      [] T.kind = "noise" ->
            {<<m.what, m.channel>> : m \in {y \in ToSet(T.measured) : ~ (y.low <= y.value /\ y.value <= y.high)}}
      [] OTHER -> {}

TInit == /\ tid \in DOMAIN Traces /\ step = 1 /\ pos = 0 /\ fails = {} /\ reg = Registers
         /\ all = [c \in Channels |-> <<>>]
         /\ bits = <<>> /\ taps = {} /\ start = <<>> /\ n = 0
TNext ==
    IF step <= Len(T.steps)
    THEN LET o == T.steps[step] IN
         /\ fails' = fails \cup Judge(o)
         /\ pos' = IF Refused(o.n) THEN pos ELSE pos + o.n
         /\ all' = IF Alone \/ Refused(o.n) \/ Len(o.out) # T.channels THEN all ELSE [c \in Channels |-> all[c] \o o.out[c]]
         /\ step' = step + 1 /\ UNCHANGED <<tid, reg, rvars>>
    ELSE /\ step = Len(T.steps) + 1
         /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> fails \cup Whole]))
         /\ step' = step + 1 /\ UNCHANGED <<tid, pos, all, fails, reg, rvars>>
TView == <<tid, step>>
===============================================================================
