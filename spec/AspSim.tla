-------------------------------- MODULE AspSim --------------------------------
(***************************************************************************)
(* The core of aspsim in ideal (global) time: arrays, propagation,         *)
(* processor schedule, logging and export.  There are no buffers here: the *)
(* complete history of each signal is kept.  AspSimBuf describes how the   *)
(* implementation realises it with a finite buffer and chunk; AspSimTrace  *)
(* checks recorded runs of the real code against it.                       *)
(*                                                                         *)
(* A configuration cfg is a record                                         *)
(*   B, C, tot      sim_buffer, sim_chunk_size, tot_samples                *)
(*   b              block size of the processor, 0 without a processor     *)
(*   s0             start_sources_before_0                                 *)
(*   src            sequence of [free : BOOLEAN, n : channels,             *)
(*                               data : n sequences of samples]            *)
(*   mic            sequence of [n : channels]                             *)
(*   rir            rir[s][m][i][j] : sequence of taps                     *)
(*   aux            channels of the signals the processor itself created   *)
(*   given, out     if given, out[k][s][i] is the block that call k wrote   *)
(*   sigdiag        sequence of [kind, sig, chans, ivs, exps]              *)
(*   stdiag         sequence of [idxs, exps]  state snapshots              *)
(* Signals are integers: the harness runs the real code on dyadic numbers  *)
(* for which all sums and products are exact.                              *)
(*                                                                         *)
(* Sample n of a signal is entry n + B of its history, so the history also *)
(* contains the B - 1 samples before time 0.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions

VARIABLES cfg,     \* the configuration of this run
          t,       \* the loop index: samples up to and including t exist
          hs,      \* hs[s][i] : history of channel i of source s
          hm,      \* hm[m][j] : history of channel j of microphone m
          hc,      \* hc[s][m][j] : contribution of source s to mic m, channel j
          ha,      \* ha[c] : history of the processor's own signals
          calls,   \* number of calls of the processor
          snap     \* snap[d] : sequence of [i, v] state snapshots
simvars == <<cfg, t, hs, hm, hc, ha, calls, snap>>

SumSeq(f, lo, hi) == FoldLeft(LAMBDA acc, k : acc + f[k], 0, [k \in 1..(hi - lo + 1) |-> lo + k - 1])
Total(q) == FoldLeft(LAMBDA acc, v : acc + v, 0, q)

NS(c) == Len(c.src)
NM(c) == Len(c.mic)
\* samples that a free source has produced when time 0 is reached
Lead(c) == IF c.s0 THEN c.B ELSE 1
MaxBlock(c) == IF c.b > 0 THEN c.b ELSE IF c.B \div 4 > 1 THEN c.B \div 4 ELSE 1
\* loop indices 0 .. LastT
LastT(c) == c.tot + MaxBlock(c) - 1

\* --- sources -------------------------------------------------------------
\* value of free source channel at history position p (sample p - B)
FreeAt(c, s, i, p) ==
    LET q == p - (c.B - Lead(c)) IN IF q >= 1 THEN c.src[s].data[i][q] ELSE 0

\* --- propagation: exact convolution, sources are silent before they start --
Tap(c, s, m, i, j, k) == c.rir[s][m][i][j][k]
Conv(h, x, p) ==  \* sum over taps k of h[k] x[p - k + 1]
    FoldLeft(LAMBDA acc, k : IF p - k + 1 >= 1 THEN acc + h[k] * x[p - k + 1] ELSE acc,
             0, [k \in 1..Len(h) |-> k])
Contribution(c, xs, s, m, j, p) ==
    FoldLeft(LAMBDA acc, i : acc + Conv(c.rir[s][m][i][j], xs[s][i], p),
             0, [i \in 1..c.src[s].n |-> i])
MicAt(cc, m, j, p) == FoldLeft(LAMBDA acc, s : acc + cc[s][m][j][p], 0,
                               [s \in 1..Len(cc) |-> s])

\* --- the reference processor used in models and in the harness -------------
\* call k writes, for offset o in 1..b after the newest sample, a value that
\* depends on the microphone sample one block earlier.
MicSum(c, mm, p) == FoldLeft(LAMBDA acc, m : acc + Total([j \in 1..c.mic[m].n |-> mm[m][j][p]]),
                             0, [m \in 1..NM(c) |-> m])
ProcOut(c, mm, k, ch, p) == ((MicSum(c, mm, p) + k + ch) % 7) - 3
AuxOut(k, ch, o) == ((7 * k + 3 * ch + o) % 11) - 5

IsCall(c, tt) == c.b > 0 /\ tt % c.b = c.b - 1

\* ---------------------------------------------------------------------------
PrepHist(c) == \* history up to sample 0
    LET xs == [s \in 1..NS(c) |-> [i \in 1..c.src[s].n |->
                 [p \in 1..c.B |-> IF c.src[s].free THEN FreeAt(c, s, i, p) ELSE 0]]]
        cc == [s \in 1..NS(c) |-> [m \in 1..NM(c) |-> [j \in 1..c.mic[m].n |->
                 [p \in 1..c.B |-> Contribution(c, xs, s, m, j, p)]]]]
    IN [xs |-> xs, cc |-> cc,
        mm |-> [m \in 1..NM(c) |-> [j \in 1..c.mic[m].n |-> [p \in 1..c.B |-> MicAt(cc, m, j, p)]]]]

StartIn(c) ==
    /\ cfg = c
    /\ t = 0
    /\ LET h == PrepHist(c) IN hs = h.xs /\ hc = h.cc /\ hm = h.mm
    /\ ha = [ch \in 1..c.aux |-> [p \in 1..c.B |-> 0]]
    /\ calls = 0
    /\ snap = [d \in 1..Len(c.stdiag) |-> <<>>]

\* Controllable sources may have been written up to b samples ahead.
\* Histories of controllable sources and own signals are therefore extended
\* in the call of the processor, those of free sources one sample at a time.
CallEffect(c, tt, k, xs, mm, aa) ==
    [xs |-> [s \in 1..NS(c) |-> IF c.src[s].free THEN xs[s]
               ELSE [i \in 1..c.src[s].n |->
                       SubSeq(xs[s][i], 1, c.B + tt) \o
                       [o \in 1..c.b |-> IF c.given THEN (IF k <= Len(c.out) THEN c.out[k][s][i][o] ELSE 0)
                                         ELSE ProcOut(c, mm, k, i, c.B + tt - c.b + o)]]],
     aa |-> [ch \in 1..c.aux |-> SubSeq(aa[ch], 1, c.B + tt) \o [o \in 1..c.b |-> AuxOut(k, ch, o)]]]

Extend(x, p) == IF Len(x) >= p THEN x ELSE Append(x, 0)

Step ==
    LET c == cfg
        call == IsCall(c, t)
        k == calls + 1
        e == IF call THEN CallEffect(c, t, k, hs, hm, ha) ELSE [xs |-> hs, aa |-> ha]
        p == c.B + t + 1                      \* position of sample t + 1
        xs == [s \in 1..NS(c) |-> [i \in 1..c.src[s].n |->
                 IF c.src[s].free THEN Append(e.xs[s][i], FreeAt(c, s, i, p))
                 ELSE Extend(e.xs[s][i], p)]]
        cc == [s \in 1..NS(c) |-> [m \in 1..NM(c) |-> [j \in 1..c.mic[m].n |->
                 Append(hc[s][m][j], Contribution(c, xs, s, m, j, p))]]]
    IN /\ t <= LastT(c)
       /\ hs' = xs
       /\ hc' = cc
       /\ hm' = [m \in 1..NM(c) |-> [j \in 1..c.mic[m].n |-> Append(hm[m][j], MicAt(cc, m, j, p))]]
       /\ ha' = [ch \in 1..c.aux |-> Extend(e.aa[ch], p)]
       /\ calls' = IF call THEN k ELSE calls
       \* state snapshots are taken after the processing of loop index t
       /\ snap' = [d \in 1..Len(c.stdiag) |->
                     IF \E q \in DOMAIN c.stdiag[d].idxs : c.stdiag[d].idxs[q] = t
                     THEN Append(snap[d], [i |-> t, v |-> IF call THEN k ELSE calls])
                     ELSE snap[d]]
       /\ t' = t + 1
       /\ UNCHANGED cfg

Done == t = LastT(cfg) + 1

\* --- what a diagnostic must contain ---------------------------------------
Covered(ivs, n) == \E q \in DOMAIN ivs : ivs[q][1] <= n /\ n < ivs[q][2]
SavedUntil(ivs) == IF ivs = <<>> THEN 0 ELSE ivs[Len(ivs)][2]
\* exports that must have happened at the end of the run
DueExports(d) == {d.exps[q] : q \in {q \in DOMAIN d.exps : d.exps[q] <= SavedUntil(d.ivs)}}

SigHist(c, xs, mm, cc, aa, sg) == \* sg = <<"s", s>>, <<"m", m>>, <<"c", s, m>>, <<"a">>
    CASE sg[1] = "s" -> xs[sg[2]]
      [] sg[1] = "m" -> mm[sg[2]]
      [] sg[1] = "c" -> cc[sg[2]][sg[3]]
      [] sg[1] = "a" -> aa
==============================================================================
