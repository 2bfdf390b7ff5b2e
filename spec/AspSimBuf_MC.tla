----------------------------- MODULE AspSimBuf_MC -----------------------------
(* Exhaustive small configurations for AspSimBuf. *)
EXTENDS AspSimBuf
CONSTANTS MaxB, ExtraBuf, ExtraChunk, Tots, Slack

Data == <<3, -1, 2, 5, -4, 1, 0, 7, -2, 6, 1, 4, -3, 2, 2, -5, 8, 1, -1, 3, 2, -6, 4, 1, 5, -2, 3, 0, 1, 9>>
Ivs(tot) == {<< <<0, tot>> >>} \cup {<< <<1, 2>>, <<2, tot>> >> : x \in {y \in {1} : tot > 2}}
            \cup {<< <<0, 1>>, <<tot - 1, tot>> >> : x \in {y \in {1} : tot > 2}}
Exps(tot) == {<<tot>>, [q \in 1..(tot \div 2) |-> 2 * q]}
Idxs(tot) == {[q \in 1..(tot \div f) |-> f * q] : f \in {1, 2, 3}}

Configs ==
  UNION { { [B |-> bb, C |-> cc, tot |-> tt, b |-> b, s0 |-> s0, aux |-> IF b = 0 THEN 0 ELSE 1, given |-> FALSE,
      src |-> << [free |-> TRUE, n |-> 1, data |-> <<Data>>],
                 [free |-> FALSE, n |-> 1, data |-> <<>>] >>,
      mic |-> << [n |-> 1] >>,
      rir |-> << << << << <<2, 0, -1>> >> >> >>, << << << <<0, 1>> >> >> >> >>,
      sigdiag |-> << [kind |-> "sig", sig |-> <<"m", 1>>, chans |-> <<1>>, ivs |-> iv, exps |-> ex] >>,
      stdiag |-> IF b = 0 THEN <<>> ELSE << [idxs |-> ix] >>]
      : bb \in (IF b = 0 THEN (2 - Slack)..(ExtraBuf + 2) ELSE (2 * b - Slack)..(2 * b + ExtraBuf)),
        cc \in (IF b = 0 THEN {c \in 1..(ExtraChunk + 2) : TRUE} ELSE b..(b + ExtraChunk)),
        s0 \in BOOLEAN, iv \in Ivs(tt), ex \in Exps(tt), ix \in Idxs(tt)}
    : b \in 0..MaxB, tt \in Tots}

MCInit == \E c \in {x \in Configs : x.b = 0 => x.C >= MaxBlock(x)} : BufInit(c)
\* a finished behaviour is written out for replay into the real code
Finished == pc = "done" /\ UNCHANGED vars
MCNext == BufNext \/ Finished
Emit == (pc = "done") => PrintT("@@" \o ToJson([cfg |-> cfg, calls |-> ncall,
            rec |-> dg[1].rec, out |-> [q \in DOMAIN dg[1].out |-> <<dg[1].out[q].k, Len(dg[1].out[q].v)>>],
            snap |-> IF Len(cfg.stdiag) = 0 THEN <<>> ELSE bsnap[1].got]))
==============================================================================
