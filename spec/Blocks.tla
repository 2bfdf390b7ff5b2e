-------------------------------- MODULE Blocks ---------------------------------
(***************************************************************************)
(* Cutting a run of samples into pieces at block boundaries.               *)
(*                                                                         *)
(* The machine takes the largest piece that stays inside the current       *)
(* block.  Kinds:                                                          *)
(*   "ring"   num samples from position start of a ring of size blk        *)
(*   "buffer" num samples from position start of a buffer of buf + blk     *)
(*            samples whose last blk samples are used again and again      *)
(*   "until"  blocks of blk samples ending at num, none before start       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES q,     \* [kind, num, start, blk, buf]
          at,    \* samples cut off so far (for "until": the current index)
          left,  \* samples left in the current block
          out    \* lengths of the pieces (for "until": the <<start, end>> pairs)
vars == <<q, at, left, out>>

Min(a, b) == IF a < b THEN a ELSE b
First(s, e, b) == e - b * ((e - s) \div b)      \* first index of blocks that end at e

InitWith(x) ==
    /\ q = x /\ out = <<>>
    /\ at = IF x.kind = "until" THEN First(x.start, x.num, x.blk) ELSE 0
    /\ left = IF x.kind = "ring" THEN x.blk - x.start
              ELSE IF x.kind = "buffer" THEN x.buf + x.blk - x.start ELSE x.blk

Cut ==
    /\ at < q.num
    /\ LET len == Min(left, q.num - at) IN
       /\ at' = at + len
       /\ left' = IF left = len THEN q.blk ELSE left - len
       /\ out' = Append(out, IF q.kind = "until" THEN <<at, at + len>> ELSE len)
    /\ UNCHANGED q

\* --- what it means -------------------------------------------------------
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
IsBoundary(p) ==   \* p samples after the start a block ends
    CASE q.kind = "ring" -> (q.start + p) % q.blk = 0
      [] q.kind = "buffer" -> q.start + p >= q.buf + q.blk /\ (q.start + p - q.buf) % q.blk = 0
Complete == at = q.num
Whole ==   \* the pieces are not empty, add up, end at each boundary and nowhere else
    Complete => IF q.kind = "until"
        THEN /\ First(q.start, q.num, q.blk) >= q.start /\ First(q.start, q.num, q.blk) < q.start + q.blk
             /\ \A k \in DOMAIN out : out[k][2] - out[k][1] = q.blk
             /\ \A k \in 2..Len(out) : out[k][1] = out[k - 1][2]
             /\ out # <<>> => out[1][1] = First(q.start, q.num, q.blk) /\ out[Len(out)][2] = q.num
        ELSE /\ \A k \in DOMAIN out : out[k] > 0
             /\ Sum(out, Len(out)) = q.num
             /\ {Sum(out, k) : k \in 1..Len(out)} = {p \in 1..q.num : p = q.num \/ IsBoundary(p)}

\* --- all small requests -----------------------------------------------------
CONSTANTS MaxNum, MaxBlk, MaxBuf
MCInit ==
    \E b \in 1..MaxBlk, m \in 0..MaxNum, u \in 0..MaxBuf :
      \E x \in {[kind |-> "ring", num |-> m, start |-> s, blk |-> b, buf |-> 0] : s \in 0..(b - 1)}
          \cup {[kind |-> "buffer", num |-> m, start |-> s, blk |-> b, buf |-> u] : s \in 0..(u + b - 1)}
          \cup {[kind |-> "until", num |-> m, start |-> s, blk |-> b, buf |-> 0] : s \in 0..m} :
        InitWith(x)
MCNext == Cut
Result == [q |-> q, out |-> out, first |-> First(q.start, q.num, q.blk)]
Emit == Complete => PrintT("@@" \o ToJson(Result))
================================================================================
