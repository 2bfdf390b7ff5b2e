------------------------------ MODULE CopiesTrace -----------------------------
(***************************************************************************)
(* Recorded histories, judged by Copies.  refs are vectors; after a run,   *)
(* fits are those (by number) whose run on its own, in a new process,      *)
(* gives the very same signals.                                            *)
(***************************************************************************)
EXTENDS Copies, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, k, fails
T == Traces[tid]
TInit == tid \in DOMAIN Traces /\ k = 0 /\ fails = {} /\ setups = T.setups /\ sims = <<>> /\ born = <<>>
Act(e) == CASE e.op = "set" -> Set(e.i, e.slot, e.v)
            [] e.op = "create" -> Create(e.i)
            [] e.op = "poke" -> Poke(e.k, e.slot, e.v)
            [] e.op = "run" -> Run(e.k)
Judge(e) == IF e.op = "run" /\ ~ \E x \in DOMAIN e.fits : T.refs[e.fits[x]] = sims[e.k].vec THEN {<<"run", k + 1>>} ELSE {}
TNext == IF k < Len(T.ops)
         THEN fails' = fails \cup Judge(T.ops[k + 1]) /\ Act(T.ops[k + 1]) /\ k' = k + 1 /\ UNCHANGED tid
         ELSE /\ k = Len(T.ops) /\ k' = k + 1
              /\ PrintT("@@" \o ToJson([tid |-> tid, fails |-> fails])) /\ UNCHANGED <<vars, tid, fails>>
TView == <<tid, k, fails>>
===============================================================================
