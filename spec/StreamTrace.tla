------------------------------ MODULE StreamTrace ------------------------------
(* Recorded requests to real sources, judged by Stream.  A trace is          *)
(*   streams  gain -> channel -> the whole stream, as tokens of values       *)
(*            (without the first base samples, which are passed)             *)
(*   steps    [op, n, out]: out is the answer per channel, as tokens         *)
EXTENDS Stream
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, k, fails
T == Traces[tid]
StreamFor(g, c) == T.streams[ToString(g)][c]
Channels == Len(T.streams["1"])
TInit == tid \in DOMAIN Traces /\ Init0 /\ k = 1 /\ fails = {}
Judge(o) ==
    (IF Len(o.out) # Channels THEN {<<"channels", k>>} ELSE {}) \cup
    {<<"samples", k>> : c \in {x \in 1..Channels : x <= Len(o.out) /\ Len(o.out[x]) # o.n}} \cup
    {<<"stream", k>> : c \in {x \in 1..Channels : x <= Len(o.out) /\ Len(o.out[x]) = o.n /\
        \E j \in 1..o.n : o.out[x][j] # StreamFor(gain, x)[pos + j - T.base]}}
TNext ==
    IF k <= Len(T.steps)
    THEN LET o == T.steps[k] IN
         /\ IF o.op = "get" THEN Get(o.n) /\ fails' = fails \cup Judge(o)
            ELSE IF o.op = "pass" THEN Pass(o.n) /\ UNCHANGED fails
                            ELSE SetPower(o.n) /\ UNCHANGED fails
         /\ k' = k + 1 /\ UNCHANGED tid
    ELSE /\ k = Len(T.steps) + 1
         /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> fails]))
         /\ k' = k + 1 /\ UNCHANGED <<vars, tid, fails>>
TView == <<tid, k>>
================================================================================
