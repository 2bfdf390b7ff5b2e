--------------------------------- MODULE Setup --------------------------------
(***************************************************************************)
(* A setup: arrays of sources and microphones, what the user has said      *)
(* about the paths between them, and the simulators made from it.          *)
(*                                                                         *)
(* An array is [name, kind, groups]; groups are the numbers of objects in  *)
(* the groups it was made with, grouping how they are grouped now.         *)
(* A pair is <<source, mic>>.  given[p] > 0: the user gave response number *)
(* given[p]; types[p]: the user named a type of propagation.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES arrays, grouping, types, given, reverb, made
vars == <<arrays, grouping, types, given, reverb, made>>

RECURSIVE SumTo(_, _)
SumTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumTo(q, k - 1)
Num(a) == SumTo(a.groups, Len(a.groups))
IsSource(a) == a.kind \in {"free", "ctrl"}
IsMic(a) == a.kind \in {"mic", "region", "regions"}
Names == {arrays[k].name : k \in DOMAIN arrays}
The(n) == arrays[CHOOSE k \in DOMAIN arrays : arrays[k].name = n]
IsSrcName(n) == n \in Names /\ IsSource(The(n))
IsMicName(n) == n \in Names /\ IsMic(The(n))
Pairs == {p \in Names \X Names : IsSrcName(p[1]) /\ IsMicName(p[2])}
Filter(q, Test(_)) == SelectSeq(q, Test)
NamesOf(q) == [k \in DOMAIN q |-> q[k].name]
Sources == NamesOf(Filter(arrays, IsSource))
Mics == NamesOf(Filter(arrays, IsMic))
FreeSources == LET f(a) == a.kind = "free" IN NamesOf(Filter(arrays, f))
\* all pairs, sources first
Combos == [k \in 1..(Len(Sources) * Len(Mics)) |->
             <<Sources[((k - 1) \div Len(Mics)) + 1], Mics[((k - 1) % Len(Mics)) + 1]>>]
\* an array made of several groups has them one after the other
Ranges(g) == [k \in DOMAIN g |-> [x \in 1..g[k] |-> SumTo(g, k - 1) + x - 1]]

Known == {"none", "direct", "random", "ism"}
\* the way to propagate: nothing for no objects, then what was given, then what was named, then the default
Resolve(p) ==
    IF Num(The(p[1])) = 0 \/ Num(The(p[2])) = 0 THEN "none"
    ELSE IF p \in DOMAIN given THEN "given"
    ELSE IF p \in DOMAIN types THEN types[p] ELSE reverb
Bad(p) == \/ Resolve(p) \notin Known \cup {"given"}
          \/ Resolve(p) = "direct" /\ Num(The(p[1])) # Num(The(p[2]))

(* operations, each with whether it is refused; what is refused changes nothing *)
AddRefused(name, kind, groups, chans) == name \in Names \/ (kind = "free" /\ chans # SumTo(groups, Len(groups)))
Add(name, kind, groups, chans, grouped) ==
    IF AddRefused(name, kind, groups, chans) THEN UNCHANGED vars
    ELSE /\ arrays' = Append(arrays, [name |-> name, kind |-> kind, groups |-> groups])
         /\ grouping' = (name :> (IF grouped THEN Ranges(groups) ELSE <<>>)) @@ grouping
         /\ UNCHANGED <<types, given, reverb, made>>
TypeRefused(s, m) == ~ (IsSrcName(s) /\ IsMicName(m))
Type(s, m, t) == IF TypeRefused(s, m) THEN UNCHANGED vars
                 ELSE types' = (<<s, m>> :> t) @@ types /\ UNCHANGED <<arrays, grouping, given, reverb, made>>
GiveRefused(s, m, shape) ==
    \/ ~ (IsSrcName(s) /\ IsMicName(m))
    \/ Len(shape) # 3
    \/ shape[1] # Num(The(s)) \/ shape[2] # Num(The(m))
Give(s, m, id, shape) == IF GiveRefused(s, m, shape) THEN UNCHANGED vars
                         ELSE given' = (<<s, m>> :> id) @@ given /\ UNCHANGED <<arrays, grouping, types, reverb, made>>
SourceRefused(n, chans) == IF n \in Names THEN The(n).kind # "free" \/ chans # Num(The(n)) ELSE TRUE
Source(n, chans) == UNCHANGED vars
Default(t) == reverb' = t /\ UNCHANGED <<arrays, grouping, types, given, made>>
Group(n, g) == grouping' = [grouping EXCEPT ![n] = g] /\ UNCHANGED <<arrays, types, given, reverb, made>>
CreateRefused == arrays = <<>> \/ \E p \in Pairs : Bad(p)
Create == IF CreateRefused THEN UNCHANGED vars
          ELSE /\ made' = Append(made, [p \in Pairs |-> Resolve(p)])
               /\ UNCHANGED <<arrays, grouping, types, given, reverb>>

InitWith(t) == arrays = <<>> /\ grouping = <<>> /\ types = <<>> /\ given = <<>> /\ reverb = t /\ made = <<>>

(* what this is for *)
UniqueNames == \A j, k \in DOMAIN arrays : j # k => arrays[j].name # arrays[k].name
EveryArrayHasAPlace == Len(Sources) + Len(Mics) = Len(arrays) /\ {Combos[k] : k \in DOMAIN Combos} = Pairs
GroupsPartition == \A k \in DOMAIN arrays :
    LET g == Ranges(arrays[k].groups) IN
    /\ \A x \in 0..(Num(arrays[k]) - 1) : Cardinality({<<a, b>> \in (DOMAIN g) \X (1..Num(arrays[k])) : b \in DOMAIN g[a] /\ g[a][b] = x}) = 1
    /\ SumTo([a \in DOMAIN g |-> Len(g[a])], Len(g)) = Num(arrays[k])
GivenIsUsed == \A p \in DOMAIN given : p \in Pairs /\ (Resolve(p) = "given" \/ Resolve(p) = "none")
MadeIsComplete == \A k \in DOMAIN made : \A p \in DOMAIN made[k] : made[k][p] \in Known \cup {"given"}
\* what is said of one pair does not change another; what was made stays as it is
OnlyThePair == [][\A p \in Pairs : Resolve(p)' # Resolve(p) =>
                     \/ reverb' # reverb /\ p \notin DOMAIN given /\ p \notin DOMAIN types
                     \/ \E q \in {p} : given' # given /\ q \in DOMAIN given'
                     \/ types' # types /\ p \in DOMAIN types' /\ p \notin DOMAIN given]_vars
MadeStays == [][\A k \in DOMAIN made : k \in DOMAIN made' /\ made'[k] = made[k]]_vars
===============================================================================
