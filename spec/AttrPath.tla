------------------------------- MODULE AttrPath --------------------------------
(***************************************************************************)
(* Naming a value inside a processor.  An object is a tree: node 1 is the  *)
(* processor, an edge leads to a child by attribute, by dictionary key or  *)
(* by list index.  A walk from the root spells the expression that names   *)
(* the node it has reached:                                                *)
(*     attr   .name  (without the dot at the start)                        *)
(*     key    ['name']                                                     *)
(*     index  [number]                                                     *)
(* The walk of an expression is unique (Unique), so the expression means   *)
(* exactly the node.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trees == JsonDeserialize(IOEnv.TRACE_FILE)     \* sequences of [p, c, kind, name]
CONSTANT MaxLen
VARIABLES tid, at, expr, len
vars == <<tid, at, expr, len>>

Spell(e, first) == CASE e.kind = "attr" -> (IF first THEN "" ELSE ".") \o e.name
                     [] e.kind = "key" -> "['" \o e.name \o "']"
                     [] e.kind = "index" -> "[" \o e.name \o "]"
Edges(n) == {k \in DOMAIN Trees[tid] : Trees[tid][k].p = n}

Init == tid \in DOMAIN Trees /\ at = 1 /\ expr = "" /\ len = 0
Step == /\ len < MaxLen
        /\ \E k \in Edges(at) :
              LET e == Trees[tid][k] IN
              at' = e.c /\ expr' = expr \o Spell(e, len = 0) /\ len' = len + 1
        /\ UNCHANGED tid
\* siblings are told apart by their spelling
Unique == \A k, l \in Edges(at) : k # l => Spell(Trees[tid][k], FALSE) # Spell(Trees[tid][l], FALSE)
RootHasAttributesOnly == \A k \in Edges(1) : Trees[tid][k].kind = "attr"
Emit == len > 0 => PrintT("@@" \o ToJson([tid |-> tid, at |-> at, expr |-> expr]))
================================================================================
