------------------------------- MODULE Sessions -------------------------------
(***************************************************************************)
(* A folder of saved sessions.  Creating a simulator with saving on looks  *)
(* for a readable session that matches the setup, and then uses exactly    *)
(* the responses stored there; otherwise it generates new responses and    *)
(* saves one new session.  A crash while saving leaves a session of which  *)
(* some files are missing or torn; it must never be in the way later.      *)
(*                                                                         *)
(* A setup is a record                                                     *)
(*   sr c dims reverb size center rt60 irlen rand xdelay hp    settings    *)
(*   arrays   set of [name, kind, n, pos, dir]                             *)
(*   types    function from pairs <<source, mic>> to propagation types     *)
(*   mod      function from pairs to the response the user gave (0: none)  *)
(* The values of settings, positions and responses are numbers that stand  *)
(* for them.  Settings of the run itself are not part of it, nor is what   *)
(* the sources play.                                                       *)
(*                                                                         *)
(* Generated responses of type "random" are told apart by tokens.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES sess,   \* sequence of [setup, arr, cfg, toks]; arr, cfg in {"ok", "torn", "none"}
          fresh   \* tokens up to this one have been handed out
vars == <<sess, fresh>>

Types(s) == {s.types[p] : p \in DOMAIN s.types}
SameAudio(s, q) ==
    /\ s.sr = q.sr /\ s.c = q.c /\ s.dims = q.dims /\ s.reverb = q.reverb
    /\ (Types(s) \cap {"direct", "random", "ism"} # {} => s.hp = q.hp)
    /\ (Types(s) \cap {"random", "ism"} # {} => s.irlen = q.irlen)
    /\ ("ism" \in Types(s) => s.size = q.size /\ s.center = q.center /\ s.rt60 = q.rt60
                              /\ s.rand = q.rand /\ s.xdelay = q.xdelay)
SameArrays(s, q) == s.arrays = q.arrays
SamePaths(s, q) == DOMAIN s.types = DOMAIN q.types /\ \A p \in DOMAIN s.types :
    s.types[p] = q.types[p] /\ (s.types[p] = "modified" => s.mod[p] = q.mod[p])
Match(s, q) == SameAudio(s, q) /\ SameArrays(s, q) /\ SamePaths(s, q)

Readable(x) == x.arr = "ok" /\ x.cfg = "ok"
\* with a torn configuration all that matters may still be there
Perhaps(x) == x.arr = "ok" /\ x.cfg = "torn"
Matching(s) == {k \in DOMAIN sess : Readable(sess[k]) /\ Match(s, sess[k].setup)}
MaybeMatching(s) == {k \in DOMAIN sess : Perhaps(sess[k]) /\ Match(s, sess[k].setup)}
RandomPairs(s) == {p \in DOMAIN s.types : s.types[p] = "random"}
\* responses generated for a setup: new tokens for the random pairs
IsFresh(s, toks) == /\ DOMAIN toks = RandomPairs(s)
                    /\ \A p \in DOMAIN toks : toks[p] > fresh
                    /\ \A p, q \in DOMAIN toks : p # q => toks[p] # toks[q]
Highest(toks) == IF toks = <<>> THEN fresh ELSE
                 LET S == {fresh} \cup {toks[p] : p \in DOMAIN toks} IN CHOOSE x \in S : \A y \in S : x >= y

\* toks: the tokens of the responses that the simulator got, new: sessions that were added
Load(s, toks, new) == \E k \in Matching(s) \cup MaybeMatching(s) : toks = sess[k].toks /\ new = 0 /\ UNCHANGED vars
Generate(s, toks, new) ==
    /\ Matching(s) = {} /\ IsFresh(s, toks) /\ new = 1
    /\ sess' = Append(sess, [setup |-> s, arr |-> "ok", cfg |-> "ok", toks |-> toks])
    /\ fresh' = Highest(toks)
Create(s, toks, new) == Load(s, toks, new) \/ Generate(s, toks, new)
\* without saving the folder is neither read nor written
Plain(s, toks, new) == IsFresh(s, toks) /\ new = 0 /\ fresh' = Highest(toks) /\ UNCHANGED sess
\* a crash while saving; with a matching session nothing is saved
Crash(s, toks, new, arr, cfg) ==
    \/ Matching(s) \cup MaybeMatching(s) # {} /\ new = 0 /\ UNCHANGED vars
    \/ /\ Matching(s) = {}
       /\ IF new = 0 THEN UNCHANGED vars
          ELSE /\ new = 1
               /\ sess' = Append(sess, [setup |-> s, arr |-> arr, cfg |-> cfg, toks |-> toks])
               /\ fresh' = Highest(toks)
\* a saved session, loaded by its path: everything as it was stored
ByPath(k, setup, toks) == Readable(sess[k]) /\ setup = sess[k].setup /\ toks = sess[k].toks /\ UNCHANGED vars

Init0 == sess = <<>> /\ fresh = 0
===============================================================================
