------------------------------ MODULE AspSimBuf ------------------------------
(***************************************************************************)
(* How the simulator realises AspSim with finite storage: every signal     *)
(* lives in an array of sim_buffer + sim_chunk_size samples, addressed by  *)
(* a local index idx.  When the next block may not fit, the last           *)
(* sim_buffer samples are moved to the front and idx is moved back by      *)
(* sim_chunk_size.  FIR filters keep their own input history.  The logger  *)
(* translates global intervals into local ones, and saves what it can      *)
(* before each rollover.                                                   *)
(*                                                                         *)
(* The module runs in lockstep with the ideal machine of AspSim; the       *)
(* invariants say that the two agree.                                      *)
(***************************************************************************)
EXTENDS AspSim, TLC, Json

VARIABLES pc, u, idx, bs, bm, bc, ba, fs, dg, err, ncall, bsnap
bufvars == <<pc, u, idx, bs, bm, bc, ba, fs, dg, err, ncall, bsnap>>
vars == <<simvars, bufvars>>

Cells(c) == 0..(c.B + c.C - 1)
Blank(c) == [l \in Cells(c) |-> 0]
MaxTaps(c) == Max({0} \cup {Len(c.rir[s][m][i][j]) : s \in 1..NS(c), m \in 1..NM(c),
                            i \in 1..Max({c.src[s1].n : s1 \in 1..NS(c)}),
                            j \in 1..Max({c.mic[m1].n : m1 \in 1..NM(c)})})

InitDiag(d) == [q |-> 1, start |-> d.ivs[1][1], end |-> d.ivs[1][2], until |-> 0,
                rec |-> <<>>,     \* pairs <<n, value>>
                e |-> 1, out |-> <<>>]  \* out : [k, content]

BufInit(c) ==
    /\ StartIn(c)
    /\ pc = "call" /\ u = 0 /\ idx = c.B /\ err = "" /\ ncall = 0
    \* Propagator.prepare: the lead samples are generated and filtered
    /\ bs = [s \in 1..NS(c) |-> [i \in 1..c.src[s].n |->
              [l \in Cells(c) |-> IF l < c.B /\ c.src[s].free THEN FreeAt(c, s, i, l + 1) ELSE 0]]]
    /\ fs = [s \in 1..NS(c) |-> [i \in 1..c.src[s].n |->
              [q \in 1..Lead(c) |-> IF c.src[s].free THEN FreeAt(c, s, i, c.B - Lead(c) + q) ELSE 0]]]
    /\ bc = [s \in 1..NS(c) |-> [m \in 1..NM(c) |-> [j \in 1..c.mic[m].n |->
              [l \in Cells(c) |-> IF l < c.B /\ l >= c.B - Lead(c)
                 THEN FoldLeft(LAMBDA acc, i : acc + Conv(c.rir[s][m][i][j], fs[s][i], l - (c.B - Lead(c)) + 1),
                               0, [i \in 1..c.src[s].n |-> i])
                 ELSE 0]]]]
    /\ bm = [m \in 1..NM(c) |-> [j \in 1..c.mic[m].n |->
              [l \in Cells(c) |-> FoldLeft(LAMBDA acc, s : acc + bc[s][m][j][l], 0, [s \in 1..NS(c) |-> s])]]]
    /\ ba = [ch \in 1..c.aux |-> Blank(c)]
    /\ dg = [d \in 1..Len(c.sigdiag) |-> InitDiag(c.sigdiag[d])]
    /\ bsnap = [d \in 1..Len(c.stdiag) |-> [q |-> 1, got |-> <<>>]]

Put(x, lo, n, F(_)) == [l \in DOMAIN x |-> IF l >= lo /\ l < lo + n THEN F(l - lo + 1) ELSE x[l]]
BufMicSum(c, l) == FoldLeft(LAMBDA acc, m : acc + Total([j \in 1..c.mic[m].n |-> bm[m][j][l]]),
                            0, [m \in 1..NM(c) |-> m])

Call ==
    /\ pc = "call" /\ err = ""
    /\ pc' = "prop"
    /\ IF IsCall(cfg, u)
       THEN IF idx + cfg.b > cfg.B + cfg.C \/ idx - cfg.b < 0
            THEN err' = "block does not fit" /\ UNCHANGED <<bs, ba, ncall>>
            ELSE /\ bs' = [s \in 1..NS(cfg) |-> IF cfg.src[s].free THEN bs[s]
                           ELSE [i \in 1..cfg.src[s].n |->
                                 Put(bs[s][i], idx, cfg.b,
                                     LAMBDA o : ((BufMicSum(cfg, idx - cfg.b + o - 1) + ncall + 1 + i) % 7) - 3)]]
                 /\ ba' = [ch \in 1..cfg.aux |-> Put(ba[ch], idx, cfg.b, LAMBDA o : AuxOut(ncall + 1, ch, o))]
                 /\ ncall' = ncall + 1
                 /\ UNCHANGED err
       ELSE UNCHANGED <<bs, ba, ncall, err>>
    /\ UNCHANGED <<simvars, u, idx, bm, bc, fs, dg, bsnap>>

Propagate ==
    /\ pc = "prop" /\ err = ""
    /\ Step
    /\ LET c == cfg
           p == c.B + u + 1
           new(s, i) == IF c.src[s].free THEN FreeAt(c, s, i, p) ELSE bs[s][i][idx]
           fs1 == [s \in 1..NS(c) |-> [i \in 1..c.src[s].n |->
                     LET x == Append(fs[s][i], new(s, i))   \* keep only what the filter needs
                     IN IF Len(x) > MaxTaps(c) THEN SubSeq(x, Len(x) - MaxTaps(c) + 1, Len(x)) ELSE x]]
           con(s, m, j) == FoldLeft(LAMBDA acc, i : acc + Conv(c.rir[s][m][i][j], fs1[s][i], Len(fs1[s][i])),
                                    0, [i \in 1..c.src[s].n |-> i])
       IN IF idx >= c.B + c.C
          THEN err' = "sample does not fit" /\ UNCHANGED <<bs, bm, bc, fs>>
          ELSE /\ fs' = fs1
               /\ bs' = [s \in 1..NS(c) |-> IF c.src[s].free
                           THEN [i \in 1..c.src[s].n |-> [bs[s][i] EXCEPT ![idx] = new(s, i)]] ELSE bs[s]]
               /\ bc' = [s \in 1..NS(c) |-> [m \in 1..NM(c) |-> [j \in 1..c.mic[m].n |->
                           [bc[s][m][j] EXCEPT ![idx] = con(s, m, j)]]]]
               /\ bm' = [m \in 1..NM(c) |-> [j \in 1..c.mic[m].n |->
                           [bm[m][j] EXCEPT ![idx] = @ + FoldLeft(LAMBDA acc, s : acc + con(s, m, j), 0,
                                                                  [s \in 1..NS(c) |-> s])]]]
               /\ UNCHANGED err
    /\ pc' = "save"
    /\ UNCHANGED <<u, idx, ba, dg, ncall, bsnap>>

LastBlock == idx + MaxBlock(cfg) >= cfg.C + cfg.B

Inf == 1000000
BufSig(sg, ch, l) == CASE sg[1] = "s" -> bs[sg[2]][ch][l]
                       [] sg[1] = "m" -> bm[sg[2]][ch][l]
                       [] sg[1] = "c" -> bc[sg[2]][sg[3]][ch][l]
                       [] sg[1] = "a" -> ba[ch][l]
\* Logger.save_data for one diagnostic
SaveOne(d, x) ==
    LET upto(g, llo, lhi) == \* save global [x.start, g) from local [llo, lhi)
          [x EXCEPT !.rec = @ \o [o \in 1..(lhi - llo) |->
                       <<x.start + o - 1, [q \in DOMAIN d.chans |-> IF llo + o - 1 < 0 THEN 999999
                                                ELSE BufSig(d.sig, d.chans[q], llo + o - 1)]>>],
                    !.until = g,
                    !.start = IF g = x.end THEN (IF x.q < Len(d.ivs) THEN d.ivs[x.q + 1][1] ELSE Inf) ELSE g,
                    !.end = IF g = x.end THEN (IF x.q < Len(d.ivs) THEN d.ivs[x.q + 1][2] ELSE Inf) ELSE x.end,
                    !.q = IF g = x.end THEN x.q + 1 ELSE x.q]
    IN IF u >= x.end THEN LET hi == idx - (u - x.end) - 1 IN upto(x.end, hi - (x.end - x.start), hi)
       ELSE IF LastBlock /\ u > x.start THEN upto(u, idx - (u - x.start) - 1, idx - 1)
       ELSE x

Save ==
    /\ pc = "save" /\ err = ""
    /\ pc' = "adv"
    /\ dg' = [d \in DOMAIN dg |-> SaveOne(cfg.sigdiag[d], dg[d])]
    /\ bsnap' = [d \in DOMAIN bsnap |->
          LET x == bsnap[d] ix == cfg.stdiag[d].idxs IN
          IF x.q <= Len(ix) /\ (u >= ix[x.q] \/ (LastBlock /\ u > ix[x.q] - 1))
          THEN [q |-> x.q + 1, got |-> Append(x.got, [i |-> ix[x.q], v |-> ncall])] ELSE x]
    /\ IF LastBlock
       THEN LET roll(x) == [l \in Cells(cfg) |-> IF l < cfg.B THEN x[l + cfg.C] ELSE 0] IN
            /\ bs' = [s \in DOMAIN bs |-> [i \in DOMAIN bs[s] |-> roll(bs[s][i])]]
            /\ bm' = [m \in DOMAIN bm |-> [j \in DOMAIN bm[m] |-> roll(bm[m][j])]]
            /\ bc' = [s \in DOMAIN bc |-> [m \in DOMAIN bc[s] |-> [j \in DOMAIN bc[s][m] |-> roll(bc[s][m][j])]]]
            /\ ba' = [ch \in DOMAIN ba |-> roll(ba[ch])]
            /\ idx' = idx - cfg.C
       ELSE UNCHANGED <<bs, bm, bc, ba, idx>>
    /\ UNCHANGED <<simvars, u, fs, err, ncall>>

RECURSIVE DispatchOne(_, _)
DispatchOne(d, x) ==
    IF x.e <= Len(d.exps) /\ d.exps[x.e] <= x.until
    THEN DispatchOne(d, [x EXCEPT !.e = @ + 1,
            !.out = Append(@, [k |-> d.exps[x.e], v |-> SelectSeq(x.rec, LAMBDA r : r[1] < d.exps[x.e])])])
    ELSE x

Advance ==
    /\ pc = "adv" /\ err = ""
    /\ dg' = [d \in DOMAIN dg |-> DispatchOne(cfg.sigdiag[d], dg[d])]
    /\ idx' = idx + 1
    /\ u' = u + 1
    /\ pc' = IF u + 1 <= LastT(cfg) THEN "call" ELSE "done"
    /\ UNCHANGED <<simvars, bs, bm, bc, ba, fs, err, ncall, bsnap>>

BufNext == Call \/ Propagate \/ Save \/ Advance

\* --- the finite storage shows the ideal history ----------------------------
Rolled == u + cfg.B - idx
AgreeAt(x, h, l) == l + 1 + Rolled > Len(h) \/ x[l] = h[l + 1 + Rolled]
View ==
    pc = "call" => \A l \in 0..(idx + cfg.b - 1) : l \in Cells(cfg) =>
        /\ \A s \in DOMAIN bs : \A i \in DOMAIN bs[s] : AgreeAt(bs[s][i], hs[s][i], l)
        /\ \A m \in DOMAIN bm : \A j \in DOMAIN bm[m] : AgreeAt(bm[m][j], hm[m][j], l)
        /\ \A s \in DOMAIN bc : \A m \in DOMAIN bc[s] : \A j \in DOMAIN bc[s][m] :
              AgreeAt(bc[s][m][j], hc[s][m][j], l)
        /\ \A ch \in DOMAIN ba : AgreeAt(ba[ch], ha[ch], l)
Causal == pc = "call" => \A l \in Cells(cfg) : l >= idx =>
        /\ \A m \in DOMAIN bm : \A j \in DOMAIN bm[m] : bm[m][j][l] = 0
        /\ \A s \in DOMAIN bs : cfg.src[s].free => \A i \in DOMAIN bs[s] : bs[s][i][l] = 0
NoErr == err = ""
Depth == (pc = "call" /\ IsCall(cfg, u)) => idx >= cfg.B - cfg.b + 1
Sync == (pc \in {"call", "prop"} => t = u) /\ (pc \in {"save", "adv"} => t = u + 1)
CallsAgree == pc \in {"call", "save"} => ncall = calls

\* recorded samples are the ideal ones, and cover exactly the intervals at the end
RecTrue == \A d \in DOMAIN dg : \A r \in ToSet(dg[d].rec) :
    LET df == cfg.sigdiag[d] h == SigHist(cfg, hs, hm, hc, ha, df.sig) IN
    /\ Covered(df.ivs, r[1])
    /\ r[2] = [q \in DOMAIN df.chans |-> h[df.chans[q]][r[1] + cfg.B]]
RecDone == pc = "done" => \A d \in DOMAIN dg :
    LET df == cfg.sigdiag[d] IN
    /\ [q \in DOMAIN dg[d].rec |-> dg[d].rec[q][1]] =
         SetToSortSeq({n \in 0..(cfg.tot - 1) : Covered(df.ivs, n)}, <)
    /\ {dg[d].out[q].k : q \in DOMAIN dg[d].out} = DueExports(df)
ExportTrue == \A d \in DOMAIN dg : \A q \in DOMAIN dg[d].out :
    LET o == dg[d].out[q] IN
    /\ q > 1 => dg[d].out[q - 1].k < o.k
    /\ [z \in DOMAIN o.v |-> o.v[z][1]] =
         SetToSortSeq({n \in 0..(o.k - 1) : Covered(cfg.sigdiag[d].ivs, n)}, <)
SnapDone == pc = "done" => \A d \in DOMAIN bsnap : bsnap[d].got = snap[d]
==============================================================================
