------------------------------- MODULE Setup_MC -------------------------------
EXTENDS Setup, Json
CONSTANTS MaxOps, Sizes
VARIABLE hist
N == {"a", "b", "c"}
Ty == {"none", "direct", "ism", "bogus"}
Do(op, A) == A /\ hist' = Append(hist, op)
MCInit == InitWith("random") /\ hist = <<>>
MCNext ==
    /\ Len(hist) < MaxOps
    /\ \/ \E n \in N, k \in {"free", "ctrl", "mic"}, g \in Sizes, c \in {1, 2} :
            (k # "free" => c = 1) /\ Do([op |-> "add", name |-> n, kind |-> k, groups |-> <<g>>, chans |-> c, refused |-> AddRefused(n, k, <<g>>, c)], Add(n, k, <<g>>, c, TRUE))
       \/ \E s \in {"a", "b"}, m \in {"b", "c"}, t \in Ty : Do([op |-> "type", s |-> s, m |-> m, t |-> t, refused |-> TypeRefused(s, m)], Type(s, m, t))
       \/ \E s \in {"a", "b"}, m \in {"b", "c"}, d \in Sizes : Do([op |-> "give", s |-> s, m |-> m, id |-> 1, shape |-> <<d, 1, 2>>, refused |-> GiveRefused(s, m, <<d, 1, 2>>)], Give(s, m, 1, <<d, 1, 2>>))
       \/ \E t \in {"direct", "ism"} : Do([op |-> "default", t |-> t, refused |-> FALSE], Default(t))
       \/ Do([op |-> "create", refused |-> CreateRefused], Create)
View == <<arrays, grouping, types, given, reverb, made, Len(hist)>>
Emit == (Len(hist) = MaxOps /\ hist[MaxOps].op = "create" /\ Len(Mics) > 0 /\ Len(Sources) > 0) => PrintT("@@" \o ToJson([ops |-> hist, made |-> Len(made)]))
Spec == MCInit /\ [][MCNext]_<<vars, hist>>
===============================================================================
