----------------------------- MODULE SessionsTrace ----------------------------
(***************************************************************************)
(* Recorded histories of a session folder, judged by Sessions.  An event   *)
(* has the setup, toks as <<source, mic, token>>, new (sessions added),    *)
(* after a crash what is left (arr, cfg), for "bypath" the session k, and  *)
(* flags: anything else that was not as it should be.  How an array moves  *)
(* is no part of the setup: a session only holds the first responses.       *)
(***************************************************************************)
EXTENDS Sessions, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i, fails
Range(q) == {q[k] : k \in DOMAIN q}
SetupOf(j) ==
    LET pairs == {<<r[1], r[2]>> : r \in Range(j.pairs)}
        row(p) == CHOOSE r \in Range(j.pairs) : r[1] = p[1] /\ r[2] = p[2] IN
    [sr |-> j.sr, c |-> j.c, dims |-> j.dims, reverb |-> j.reverb, size |-> j.size, center |-> j.center, rt60 |-> j.rt60,
     irlen |-> j.irlen, rand |-> j.rand, xdelay |-> j.xdelay, hp |-> j.hp, arrays |-> Range(j.arrays),
     types |-> [p \in pairs |-> row(p)[3]], mod |-> [p \in pairs |-> row(p)[4]]]
ToksOf(j) == LET pairs == {<<r[1], r[2]>> : r \in Range(j)} IN
    [p \in pairs |-> (CHOOSE r \in Range(j) : r[1] = p[1] /\ r[2] = p[2])[3]]
Act(e) == LET s == SetupOf(e.setup) toks == ToksOf(e.toks) IN
    CASE e.op = "create" -> Create(s, toks, e.new)
      [] e.op = "plain" -> Plain(s, toks, e.new)
      [] e.op = "crash" -> Crash(s, toks, e.new, e.arr, e.cfg)
      [] e.op = "bypath" -> ByPath(e.k, s, toks)
TInit == tid \in DOMAIN Traces /\ Init0 /\ i = 0 /\ fails = {}
TNext ==
    LET T == Traces[tid] IN
    IF i < Len(T)
    THEN LET e == T[i + 1] IN
         /\ i' = i + 1 /\ UNCHANGED tid
         /\ LET flags == {<<f, i + 1>> : f \in Range(e.flags)} IN
            IF ENABLED Act(e) THEN Act(e) /\ fails' = fails \cup flags
            ELSE \* go on from what is there
                 /\ fails' = fails \cup flags \cup {<<e.op, i + 1>>}
                 /\ LET toks == ToksOf(e.toks) IN
                    /\ fresh' = IF Highest(toks) > fresh THEN Highest(toks) ELSE fresh
                    /\ sess' = IF e.new = 0 THEN sess ELSE
                        Append(sess, [setup |-> SetupOf(e.setup), toks |-> toks, arr |-> IF e.op = "crash" THEN e.arr ELSE "ok",
                                      cfg |-> IF e.op = "crash" THEN e.cfg ELSE "ok"])
    ELSE /\ i = Len(T) /\ i' = i + 1
         /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> fails]))
         /\ UNCHANGED <<vars, tid, fails>>
TView == <<tid, i, fails>>
===============================================================================
