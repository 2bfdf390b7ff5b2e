------------------------------- MODULE FilesTrace -------------------------------
(* Histories of the folder of figures as they happened, judged by Files; and answers   *)
(* about numbered files and names of processors.                                       *)
EXTENDS Files, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, at, bad
tvars == <<dirs, cfg, arrays, types, last, tid, at, bad>>
T == Traces[tid]
E == T.events[at]
Rng(s) == {s[k] : k \in DOMAIN s}
TInit == \E t \in DOMAIN Traces : /\ tid = t /\ at = 1 /\ bad = {}
                                  /\ dirs = << >> /\ cfg = Traces[t].cfg /\ arrays = << >> /\ types = << >> /\ last = [op |-> "none"]
Do == CASE E.op = "make" -> Make(E.i)
        [] E.op = "drop" -> Drop(E.i)
        [] E.op = "ask" -> Ask
        [] E.op = "many" -> IF Len(E.got) = E.n /\ (\A a, b \in DOMAIN E.got : a # b => E.got[a] # E.got[b])
                               /\ Rng(E.got) \cap (Used \cup {-1}) = {} THEN Many(E.got)
                            ELSE last' = [op |-> "wrong"] /\ UNCHANGED <<dirs, cfg, arrays, types>>
        [] E.op = "change" -> Change(E.key, E.v)
        [] E.op = "create" -> Create
        [] E.op = "run" -> Run(E.i, E.procs)
        [] E.op = "load" -> Load(E.i)
        [] E.op = "restore" -> Restore(E.cfg)
        [] E.op = "describe" -> Describe(E.name, E.d)
        [] E.op = "pair" -> Pair(E.key, E.v)
\* what is in the folders now, in the form of the specification
Seen == E.dirs
Same == /\ {Seen[k].i : k \in DOMAIN Seen} = DOMAIN dirs' /\ Len(Seen) = Cardinality(DOMAIN dirs')
        /\ \A k \in DOMAIN Seen : LET d == dirs'[Seen[k].i] IN
             /\ Seen[k].kind = d.kind
             /\ d.kind # "user" => Seen[k].cfg = d.cfg
             /\ d.kind = "sim" => Seen[k].arrays = d.arrays /\ Seen[k].paths = d.paths /\ Seen[k].procs = d.procs
Why == IF {Seen[k].i : k \in DOMAIN Seen} # DOMAIN dirs' THEN "folders"
       ELSE IF \E k \in DOMAIN Seen : Seen[k].kind # dirs'[Seen[k].i].kind THEN "kind of folder"
       ELSE IF \E k \in DOMAIN Seen : Seen[k].kind # "user" /\ Seen[k].cfg # dirs'[Seen[k].i].cfg THEN "config.yaml"
       ELSE IF \E k \in DOMAIN Seen : Seen[k].kind = "sim" /\ Seen[k].arrays # dirs'[Seen[k].i].arrays THEN "description of the arrays"
       ELSE IF \E k \in DOMAIN Seen : Seen[k].kind = "sim" /\ Seen[k].paths # dirs'[Seen[k].i].paths THEN "description of the paths"
       ELSE "description of the processor"
Fails == (IF Same THEN {} ELSE {Why})
         \cup (IF last'.op = "wrong" THEN {"several names"} ELSE {})
         \cup (IF E.op \in {"ask", "create"} /\ E.got # last'.got THEN {"name of the folder"} ELSE {})
         \cup (IF E.now # cfg' THEN {"parameters of the setup"} ELSE {})
         \cup (IF E.op = "create" /\ E.sim # cfg' THEN {"parameters of the simulator"} ELSE {})
Step == /\ T.kind = "folder" /\ at <= Len(T.events)
        /\ UNCHANGED tid
        /\ IF ENABLED Do
           THEN /\ Do
                /\ bad' = bad \cup {[what |-> f, at |-> at, op |-> E.op] : f \in Fails}
                /\ at' = at + 1
           ELSE \* what happened cannot happen here
                /\ bad' = bad \cup {[what |-> "impossible", at |-> at, op |-> E.op]}
                /\ at' = Len(T.events) + 1
                /\ UNCHANGED <<dirs, cfg, arrays, types, last>>

\* --- numbered files: name -> number, and what was found -------------------------------
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
NumberFails(q) ==
  LET S == Rng(q.have) IN
  (IF q.highest # (IF S = {} THEN -1 ELSE Max(S)) THEN {"highest number"} ELSE {})
  \cup (IF \E x \in S : x > q.cur
        THEN (IF ~ q.refused THEN {"future files accepted"} ELSE {})
        ELSE (IF q.refused \/ Rng(q.earlier) # {x \in S : x < q.cur} \/ Len(q.earlier) # Cardinality(Rng(q.earlier)) THEN {"earlier files"} ELSE {}))
  \cup (IF Rng(q.lenient) # {x \in S : x < q.cur} THEN {"earlier files"} ELSE {})
\* --- numbers at the end of names ------------------------------------------------------
Digits == 0 .. 9
RECURSIVE Value(_, _)
Value(ds, acc) == IF ds = << >> THEN acc ELSE Value(Tail(ds), 10 * acc + Head(ds))
IndexFails(q) == IF q.got # (IF q.digits = << >> THEN -1 ELSE Value(q.digits, 0)) THEN {"number in a name"} ELSE {}
\* --- names of processors: the first keeps its name, later ones get another -------------
NameFails(q) ==
  (IF Cardinality(Rng(q.got)) # Len(q.got) \/ Len(q.got) # Len(q.names) THEN {"names of processors are not unique"} ELSE {})
  \cup (IF \A k \in DOMAIN q.names : (\A j \in 1 .. k - 1 : q.got[j] # q.names[k]) => q.got[k] = q.names[k] THEN {} ELSE {"name of a processor changed"})

\* --- plots that have a folder each: only the last of a name keeps it, of others the picture stays ---
LatestFails(q) ==
  LET all == Rng(q.order)
      kept == {p \in all : \A r \in all : r[1] = p[1] => r[2] <= p[2]}
  IN IF Rng(q.nested) = kept /\ Rng(q.flat) = all \ kept /\ q.odd = 0 THEN {} ELSE {"earlier plots"}
\* --- remarks about a session: what is added later wins ------------------------------------
Keys(s) == {s[k][1] : k \in DOMAIN s}
LastOf(q, key) == LET d == CHOOSE j \in DOMAIN q.given : key \in Keys(q.given[j]) /\ \A i \in (j + 1) .. Len(q.given) : key \notin Keys(q.given[i])
                  IN (CHOOSE e \in Rng(q.given[d]) : e[1] = key)
MetaFails(q) ==
  LET ks == UNION {Keys(q.given[j]) : j \in DOMAIN q.given}
  IN IF Rng(q.got) = {LastOf(q, k) : k \in ks} /\ Len(q.got) = Cardinality(ks) THEN {} ELSE {"remarks"}

Asked == /\ T.kind # "folder" /\ at = 1 /\ at' = 2
         /\ bad' = {[what |-> f, at |-> 1, op |-> T.kind] : f \in
              UNION {IF T.kind = "numbers" THEN NumberFails(T.qs[k]) ELSE IF T.kind = "index" THEN IndexFails(T.qs[k])
                     ELSE IF T.kind = "latest" THEN LatestFails(T.qs[k]) ELSE IF T.kind = "meta" THEN MetaFails(T.qs[k])
                     ELSE NameFails(T.qs[k]) : k \in DOMAIN T.qs}}
         /\ UNCHANGED <<dirs, cfg, arrays, types, last, tid>>
Finish == /\ at = (IF T.kind = "folder" THEN Len(T.events) + 1 ELSE 2)
          /\ at' = 1000000
          /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> bad]))
          /\ UNCHANGED <<dirs, cfg, arrays, types, last, tid, bad>>
TNext == Step \/ Asked \/ Finish
TView == <<tid, at>>
================================================================================
