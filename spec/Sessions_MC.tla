----------------------------- MODULE Sessions_MC ------------------------------
(* All short histories over a few setups, with crashes.                      *)
EXTENDS Sessions, Json
VARIABLE hist
P == <<"s", "m">>
Setup(v) ==    \* 1 and 2 match; 3 differs in the room, 4 in a position, 5 in the length of responses
    [sr |-> 1, c |-> 1, dims |-> 3, reverb |-> "random", size |-> IF v = 3 THEN 2 ELSE 1, center |-> 1, rt60 |-> 1,
     irlen |-> IF v = 5 THEN 2 ELSE 1, rand |-> 0, xdelay |-> 1, hp |-> 1,
     arrays |-> {[name |-> "s", kind |-> "free", n |-> 1, pos |-> 1, dir |-> 0],
                 [name |-> "m", kind |-> "mic", n |-> 1, pos |-> IF v = 4 THEN 2 ELSE 1, dir |-> 0]},
     types |-> (P :> "random"), mod |-> (P :> 0)]
CONSTANTS Variants, MaxOps
Toks == {(P :> x) : x \in 1..(fresh + 1)}
Ops == {[op |-> "create", v |-> v] : v \in Variants} \cup {[op |-> "plain", v |-> v] : v \in Variants}
       \cup {[op |-> "crash", v |-> v, arr |-> a, cfg |-> c] : v \in Variants, a \in {"none", "torn", "ok"}, c \in {"none", "torn"}}
MCInit == Init0 /\ hist = <<>>
MCNext ==
    /\ Len(hist) < MaxOps
    /\ \E o \in Ops : \E toks \in Toks, new \in {0, 1} :
        /\ CASE o.op = "create" -> Create(Setup(o.v), toks, new)
             [] o.op = "plain" -> Plain(Setup(o.v), toks, new)
             [] o.op = "crash" -> (o.arr # "ok" => o.cfg = "none") /\ IsFresh(Setup(o.v), toks)
                                  /\ Crash(Setup(o.v), toks, new, o.arr, o.cfg)
        /\ hist' = Append(hist, [o |-> o, tok |-> toks[P], new |-> new])
\* two readable sessions never match each other; so what a setup gets is determined
Single == \A k, l \in DOMAIN sess : k # l /\ Readable(sess[k]) /\ Readable(sess[l]) =>
            ~ Match(sess[k].setup, sess[l].setup)
MatchIsEquivalence == \A v, w \in Variants :
    LET e(x, y) == Match(Setup(x), Setup(y)) IN
    e(v, v) /\ (e(v, w) <=> e(w, v)) /\ \A u \in Variants : e(v, w) /\ e(w, u) => e(v, u)
\* what a create after a create of a matching setup gets is what that got (no torn configurations in between)
Stable == \A i, j \in DOMAIN hist :
    (i < j /\ hist[i].o.op = "create" /\ hist[j].o.op = "create"
     /\ Match(Setup(hist[i].o.v), Setup(hist[j].o.v)) /\ ~ \E q \in 1..j : hist[q].o.op = "crash")
    => hist[j].tok = hist[i].tok /\ hist[j].new = 0
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson(hist))
===============================================================================
