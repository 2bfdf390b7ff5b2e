------------------------------ MODULE SetupTrace ------------------------------
(***************************************************************************)
(* Recorded histories of real setups, judged by Setup.  After "create" the *)
(* driver gives the lists of names, the groups of every array, and for     *)
(* each pair fits: the ways to propagate that could have produced the      *)
(* response ("given" followed by its number), and flags.                   *)
(***************************************************************************)
EXTENDS Setup, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, k, fails
T == Traces[tid]
Range(q) == {q[x] : x \in DOMAIN q}
Label(p) == LET r == Resolve(p) IN IF r = "given" THEN "given" \o ToString(given[p]) ELSE r
Refused(e) == CASE e.op = "add" -> AddRefused(e.name, e.kind, e.groups, e.chans)
                [] e.op = "type" -> TypeRefused(e.s, e.m)
                [] e.op = "give" -> GiveRefused(e.s, e.m, e.shape)
                [] e.op = "source" -> SourceRefused(e.name, e.chans)
                [] e.op = "create" -> CreateRefused
                [] OTHER -> FALSE
Act(e) == CASE e.op = "add" -> Add(e.name, e.kind, e.groups, e.chans, e.grouped)
            [] e.op = "type" -> Type(e.s, e.m, e.t)
            [] e.op = "give" -> Give(e.s, e.m, e.id, e.shape)
            [] e.op = "source" -> Source(e.name, e.chans)
            [] e.op = "default" -> Default(e.t)
            [] e.op = "group" -> Group(e.name, e.groups)
            [] e.op = "create" -> Create
            [] e.op = "other" -> UNCHANGED vars
Lists(e) == IF e.sources = Sources /\ e.mics = Mics /\ e.free = FreeSources /\ e.combos = Combos
               /\ e.all = NamesOf(arrays) THEN {} ELSE {<<"lists", k + 1>>}
Groups(e) == IF /\ DOMAIN e.num = DOMAIN arrays
                /\ \A x \in DOMAIN arrays : e.num[x] = Num(arrays[x]) /\ e.groups[x] = grouping[arrays[x].name]
             THEN {} ELSE {<<"groups", k + 1>>}
PathsOf(e) == {<<"response " \o Resolve(p), k + 1>> : p \in {q \in Pairs :
                 ~ \E r \in Range(e.pairs) : r.s = q[1] /\ r.m = q[2] /\ Label(q) \in Range(r.fits)}}
              \cup (IF Len(e.pairs) = Cardinality(Pairs) THEN {} ELSE {<<"pairs", k + 1>>})
Judge(e) ==
    LET ref == {<<"accepted", k + 1>> : x \in IF Refused(e) /\ ~ e.refused THEN {1} ELSE {}}
               \cup {<<"refused", k + 1>> : x \in IF ~ Refused(e) /\ e.refused THEN {1} ELSE {}} IN
    ref \cup {<<f, k + 1>> : f \in Range(e.flags)}
    \cup (IF e.op = "create" /\ ~ Refused(e) /\ ~ e.refused THEN Lists(e) \cup Groups(e) \cup PathsOf(e) ELSE {})
TInit == tid \in DOMAIN Traces /\ k = 0 /\ fails = {} /\ InitWith(T.reverb)
TNext == IF k < Len(T.ops)
         THEN /\ fails' = fails \cup Judge(T.ops[k + 1]) /\ Act(T.ops[k + 1]) /\ k' = k + 1 /\ UNCHANGED tid
         ELSE /\ k = Len(T.ops) /\ k' = k + 1
              /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> fails])) /\ UNCHANGED <<vars, tid, fails>>
TView == <<tid, k, fails>>
===============================================================================
