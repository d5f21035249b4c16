-------------------------- MODULE MCSubscriptions --------------------------
(* Exactness of the set operations: all pairs of subscriptions consisting  *)
(* of small query types against all small event types.                     *)
EXTENDS Subscriptions, TLC

CONSTANTS MaxLen, MaxQueries

Segments == {"a", "b", "?"}

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

Queries == SeqsUpTo(Segments, MaxLen) \union
           {q \o <<"*">> : q \in SeqsUpTo(Segments, MaxLen - 1)}

\* one subtype which doesn't occur in queries, one level more than queries
Types == SeqsUpTo({"a", "b", "z"}, MaxLen + 1)

Subs == {S \in SUBSET Queries : Cardinality(S) <= MaxQueries}

SubsK(k) == IF k = 0 THEN {{}}
            ELSE IF k = 1 THEN {{q} : q \in Queries}
            ELSE {{p[1], p[2]} : p \in Queries \X Queries}

VARIABLES A, B, C

vars == <<A, B, C>>

Init == /\ A \in UNION {SubsK(k) : k \in 0..MaxQueries}
        /\ B \in UNION {SubsK(k) : k \in 0..1}
        /\ C = {}

\* collection history of two values
Next == \/ /\ C' \in {CollectionAdd(C, A, "x"), CollectionAdd(C, B, "y"),
                      CollectionAdd(C, B, "x"), CollectionRemove(C, "x")}
           /\ UNCHANGED <<A, B>>

Spec == Init /\ [][Next]_vars

UnionExact == \A t \in Types : SetMatches(Union(A, B), t) <=>
                 (SetMatches(A, t) \/ SetMatches(B, t))

IntersectionExact == \A t \in Types :
    SetMatches(Intersection(A, B), t) <=> (SetMatches(A, t) /\ SetMatches(B, t))

DisjointExact ==
    Disjoint(A, B) <=> ~\E t \in Types : SetMatches(A, t) /\ SetMatches(B, t)

DisjointIffEmpty == Disjoint(A, B) <=> Intersection(A, B) = {}

CollectionExact ==
    \A t \in SeqsUpTo({"a", "z"}, 2) :
        LET has(v) == \E x \in C : x[2] = v /\ Matches(x[1], t)
        IN CollectionGet(C, t) = {v \in {"x", "y"} : has(v)}
=============================================================================
