----------------------------- MODULE Conditions -----------------------------
(* Content conditions of the LMDB backend.                                 *)
(*                                                                         *)
(* JSON data is represented by tagged records:                             *)
(*   [t |-> "null"], [t |-> "boolean", v |-> STRING],                      *)
(*   [t |-> "number", v |-> STRING], [t |-> "string", v |-> STRING],       *)
(*   [t |-> "array", v |-> Seq], [t |-> "object", v |-> Seq of <<key, v>>] *)
(* Numbers are represented by canonical strings (equal numbers have equal  *)
(* representations).  A payload is [t |-> "none"], [t |-> "binary", ..] or *)
(* [t |-> "json", v |-> data].  A data path is a sequence of               *)
(* [k |-> "key", v |-> STRING] and [k |-> "idx", v |-> Int].               *)
EXTENDS Naturals, Integers, Sequences, EventTypes

Null == [t |-> "null"]

\* equality of JSON data (only values with the same tag are comparable)
RECURSIVE JsonEq(_, _)
JsonEq(a, b) ==
    /\ a.t = b.t
    /\ CASE a.t = "null" -> TRUE
         [] a.t \in {"boolean", "number", "string"} -> a.v = b.v
         [] a.t = "array" ->
                /\ Len(a.v) = Len(b.v)
                /\ \A i \in DOMAIN a.v : JsonEq(a.v[i], b.v[i])
         [] a.t = "object" ->
                /\ Len(a.v) = Len(b.v)
                /\ \A i \in DOMAIN a.v :
                     \E j \in DOMAIN b.v : /\ a.v[i][1] = b.v[j][1]
                                           /\ JsonEq(a.v[i][2], b.v[j][2])

\* element referenced by path, null if it does not exist
RECURSIVE Get(_, _, _)
Get(data, path, i) ==
    IF i > Len(path) THEN data
    ELSE IF path[i].k = "key"
    THEN IF data.t = "object" /\
            \E j \in DOMAIN data.v : data.v[j][1] = path[i].v
         THEN LET j == CHOOSE k \in DOMAIN data.v :
                           data.v[k][1] = path[i].v
              IN Get(data.v[j][2], path, i + 1)
         ELSE Null
    ELSE IF data.t # "array" THEN Null
    ELSE LET x == path[i].v
             n == Len(data.v)
         IN CASE x >= 0 /\ x < n  -> Get(data.v[x + 1], path, i + 1)
              [] x < 0 /\ -x <= n -> Get(data.v[n + x + 1], path, i + 1)
              [] OTHER -> Null

RECURSIVE Holds(_, _)
Holds(c, payload) ==
    CASE c.type = "all" ->
            \A i \in DOMAIN c.conditions : Holds(c.conditions[i], payload)
      [] c.type = "any" ->
            \E i \in DOMAIN c.conditions : Holds(c.conditions[i], payload)
      [] c.type = "json" ->
            /\ payload.t = "json"
            /\ LET data == Get(payload.v, c.path, 1)
               IN /\ c.data_type = "" \/ data.t = c.data_type
                  /\ ~c.has_value \/ JsonEq(data, c.data_value)

\* conds is a sequence of [subs, cond]
CondMatches(conds, e) ==
    \A i \in DOMAIN conds :
        SubMatches(conds[i].subs, e.type) => Holds(conds[i].cond, e.payload)
=============================================================================
