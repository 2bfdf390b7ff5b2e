-------------------------------- MODULE Files_MC --------------------------------
EXTENDS Files
CONSTANTS MaxIdx, MaxOps
VARIABLE hist
mcvars == <<dirs, cfg, arrays, types, last, hist>>
MCInit == /\ dirs = << >> /\ cfg = [plot_output |-> "pdf", reverb |-> "none", tot_samples |-> "20"]
          /\ arrays = [s |-> [source |-> TRUE], m |-> [source |-> FALSE]] /\ types = << >> /\ last = [op |-> "none"] /\ hist = << >>
H(e) == hist' = Append(hist, e)
MCNext == /\ Len(hist) < MaxOps
          /\ \/ \E i \in 0 .. MaxIdx : Make(i) /\ H([op |-> "make", i |-> i])
             \/ \E i \in 0 .. MaxIdx : Drop(i) /\ H([op |-> "drop", i |-> i])
             \/ Ask /\ H([op |-> "ask"])
             \/ \E v \in {"20", "21"} : cfg["tot_samples"] # v /\ Change("tot_samples", v) /\ H([op |-> "change", key |-> "tot_samples", v |-> v])
             \/ \E v \in {"none", "pdf"} : cfg["plot_output"] # v /\ Change("plot_output", v) /\ H([op |-> "change", key |-> "plot_output", v |-> v])
             \/ Create /\ H([op |-> "create"])
             \/ \E i \in 0 .. MaxIdx : Load(i) /\ H([op |-> "load", i |-> i])
Spec == MCInit /\ [][MCNext]_mcvars
View == <<dirs, cfg, last>>
\* one history for each state and last operation
Emit == hist # << >> => PrintT("@@" \o ToJson([hist |-> hist, used |-> Used, got |-> IF last.op \in {"ask", "create"} THEN last.got ELSE -2]))
================================================================================
