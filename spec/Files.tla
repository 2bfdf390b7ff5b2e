--------------------------------- MODULE Files ---------------------------------
(* The folder that holds the figures of simulations. A folder inside it is named     *)
(* by a stamp and a number; of one stamp, only the numbers matter. What a setup does: *)
(*   Make, Drop   the user makes or removes a numbered folder or file                 *)
(*   Ask          a fresh name is asked for (and nothing is made)                     *)
(*   Many         several fresh names are asked for                                   *)
(*   Change       a parameter of the setup is changed                                 *)
(*   Create       a simulator is made, which makes its folder with everything that     *)
(*                describes the simulation                                           *)
(*   Run          a simulator is run, which adds what describes its processor          *)
(*   Load         a new setup is made from the configuration in a folder               *)
(*   Add, Source, Group   arrays are added to the setup and changed                    *)
(*   Restore      another setup is restored from a session with parameters c           *)
(*   Pair         the type of the path between two arrays is chosen                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES dirs,    \* number -> what is in the folder
          cfg,     \* the parameters of the setup
          arrays,  \* name -> description of an array
          types,   \* "source->microphone" -> type of the path, where one was chosen
          last     \* what the last operation answered
vars == <<dirs, cfg, arrays, types, last>>

Foreign == [kind |-> "user"]
Used == DOMAIN dirs
RECURSIVE FreeFrom(_)
FreeFrom(i) == IF i \in Used THEN FreeFrom(i + 1) ELSE i
Free == FreeFrom(0)
Writes == cfg["plot_output"] # "none"
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* the pairs of a source and a microphone, and the type that a path gets
Pairs(ar) == {<<s, m>> \in (DOMAIN ar) \X (DOMAIN ar) : ar[s].source /\ ~ ar[m].source}
Name(p) == p[1] \o "->" \o p[2]
PathTypes(ar, ty, c) == [k \in {Name(p) : p \in Pairs(ar)} |-> IF k \in DOMAIN ty THEN ty[k] ELSE c["reverb"]]
Content == [kind |-> "sim", cfg |-> cfg, arrays |-> arrays, paths |-> PathTypes(arrays, types, cfg), procs |-> <<>>]

Make(i) == /\ i \notin Used /\ dirs' = With(dirs, i, Foreign) /\ last' = [op |-> "make"] /\ UNCHANGED <<cfg, arrays, types>>
Drop(i) == /\ i \in Used /\ dirs' = Without(dirs, i) /\ last' = [op |-> "drop"] /\ UNCHANGED <<cfg, arrays, types>>
Ask == /\ last' = [op |-> "ask", got |-> Free] /\ UNCHANGED <<dirs, cfg, arrays, types>>
\* any n names that are all unused
Many(names) == /\ \A a, b \in DOMAIN names : a # b => names[a] # names[b]
               /\ \A a \in DOMAIN names : names[a] \notin Used
               /\ last' = [op |-> "many"] /\ UNCHANGED <<dirs, cfg, arrays, types>>
Change(k, v) == /\ cfg' = With(cfg, k, v) /\ last' = [op |-> "change"] /\ UNCHANGED <<dirs, arrays, types>>
Create == /\ dirs' = IF Writes THEN With(dirs, Free, Content) ELSE dirs
          /\ last' = [op |-> "create", got |-> IF Writes THEN Free ELSE -1]
          /\ UNCHANGED <<cfg, arrays, types>>
Run(i, procs) == /\ dirs' = IF i \in Used THEN With(dirs, i, [dirs[i] EXCEPT !.procs = procs]) ELSE dirs
                 /\ last' = [op |-> "run"] /\ UNCHANGED <<cfg, arrays, types>>
Load(i) == /\ i \in Used /\ dirs[i].kind = "sim" /\ cfg' = dirs[i].cfg /\ last' = [op |-> "load"]
           /\ UNCHANGED <<dirs, arrays, types>>
Restore(c) == /\ dirs' = IF Writes THEN With(dirs, Free, [kind |-> "copy", cfg |-> c]) ELSE dirs
              /\ last' = [op |-> "restore"] /\ UNCHANGED <<cfg, arrays, types>>
Describe(name, d) == /\ arrays' = With(arrays, name, d) /\ last' = [op |-> "describe"] /\ UNCHANGED <<dirs, cfg, types>>
Pair(k, t) == /\ types' = With(types, k, t) /\ last' = [op |-> "pair"] /\ UNCHANGED <<dirs, cfg, arrays>>

\* --- what has to hold -----------------------------------------------------------------
\* a name that is handed out is free, and no smaller number is
Fresh == last.op = "ask" => last.got \notin Used /\ \A j \in 0 .. last.got - 1 : j \in Used
\* simulations only write when they are asked to
Silent == (last.op = "create" /\ ~ Writes) => last.got = -1
\* a folder once made stays as it is, but for the user and the run of its own simulation
Kept == [][\A i \in Used : \/ i \notin DOMAIN dirs' /\ last'.op = "drop"
                           \/ i \in DOMAIN dirs' /\ (dirs'[i] = dirs[i] \/ last'.op = "run")]_vars
\* every description of a simulation can be loaded, and gives the parameters it was made with
Describes == \A i \in Used : dirs[i].kind = "sim" => DOMAIN dirs[i].cfg = DOMAIN cfg
================================================================================
