-------------------------------- MODULE Events --------------------------------
(***************************************************************************)
(* An event counter: after sample n, the events due at n are those with    *)
(* n = offset modulo frequency, in the order in which they were defined.   *)
(* Events can be added at any time, and count from the next sample on.     *)
(*                                                                         *)
(* The machine counts down for each event; the invariant is the closed     *)
(* form.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

VARIABLES ini,    \* the definitions at the start
          ev,     \* sequence of [name, f, o, wait]: samples until it is next due
          n, due, hist
vars == <<ini, ev, n, due, hist>>

\* samples from sample m to the next one at which (f, o) is due, at least 1
WaitFrom(m, f, o) == LET w == (o - m) % f IN IF w = 0 THEN f ELSE w

InitWith(defs) ==
    /\ ev = [i \in DOMAIN defs |-> [name |-> defs[i][1], f |-> defs[i][2], o |-> defs[i][3],
                                    wait |-> WaitFrom(0, defs[i][2], defs[i][3])]]
    /\ n = 0 /\ due = <<>> /\ ini = defs
    /\ hist = << >>

Add(d) ==   \* defining a name again replaces its definition, at its place
    /\ LET e == [name |-> d[1], f |-> d[2], o |-> d[3], wait |-> WaitFrom(n, d[2], d[3])] IN
       ev' = IF \E i \in DOMAIN ev : ev[i].name = d[1]
             THEN [i \in DOMAIN ev |-> IF ev[i].name = d[1] THEN e ELSE ev[i]] ELSE Append(ev, e)
    /\ UNCHANGED <<ini, n, due>>
    /\ hist' = Append(hist, [op |-> "add", d |-> d, due |-> due])

Names(s) == [i \in DOMAIN s |-> s[i].name]
Progress ==
    /\ n' = n + 1
    /\ due' = Names(SelectSeq(ev, LAMBDA e : e.wait = 1))
    /\ ev' = [i \in DOMAIN ev |-> [ev[i] EXCEPT !.wait = IF @ = 1 THEN ev[i].f ELSE @ - 1]]
    /\ UNCHANGED ini
    /\ hist' = Append(hist, [op |-> "progress", d |-> <<>>, due |-> due'])

\* --- closed form ------------------------------------------------------------
Congruent == \A i \in DOMAIN ev : ev[i].wait = WaitFrom(n, ev[i].f, ev[i].o)
NotEarly == hist # <<>> /\ hist[Len(hist)].op = "progress" =>
            due = Names(SelectSeq(ev, LAMBDA e : (n - e.o) % e.f = 0))

\* --- all small definitions ----------------------------------------------------
CONSTANTS Freqs, Offs, Steps
Defs == {<<nm, f, o>> : nm \in {"a"}, f \in Freqs, o \in Offs}
Defs2 == {<<"b", f, o>> : f \in Freqs, o \in Offs}
MCInit == \/ InitWith(<<>>)
          \/ \E d \in Defs : InitWith(<<d>>)
          \/ \E d \in Defs, e \in Defs2 : InitWith(<<d, e>>)
Adds == {i \in DOMAIN hist : hist[i].op = "add"}
MCNext == n < Steps /\ (Progress \/ (Adds = {} /\ n > 0 /\ \E d \in {<<"c", 2, 1>>, <<"a", 3, 0>>} : Add(d)))
Emit == n = Steps => PrintT("@@" \o ToJson([ini |-> ini, hist |-> hist]))
==============================================================================
