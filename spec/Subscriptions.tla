--------------------------- MODULE Subscriptions ---------------------------
(* Set operations on subscriptions and event type collections.             *)
(*                                                                         *)
(* A subscription is represented by a set of query types (without          *)
(* duplicates); every operation has a result with a given set of matched   *)
(* event types, so its spelling is irrelevant.                             *)
EXTENDS Naturals, Sequences, FiniteSets, EventTypes

RangeOf(s) == {s[i] : i \in DOMAIN s}

SetMatches(S, t) == \E q \in S : Matches(q, t)

\* query type matching exactly the event types matched by both
Meet(q1, q2) ==
    LET n1 == PrefixLen(q1)
        n2 == PrefixLen(q2)
        n  == IF n1 < n2 THEN n2 ELSE n1
        at(q, m, i) == IF i <= m THEN q[i] ELSE "?"
        one(i) == LET a == at(q1, n1, i)
                      b == at(q2, n2, i)
                  IN IF a = "?" THEN b ELSE a
    IN [i \in 1..n |-> one(i)] \o
       (IF IsStar(q1) /\ IsStar(q2) THEN <<"*">> ELSE <<>>)

Union(A, B) == A \union B

Intersection(A, B) ==
    {Meet(p[1], p[2]) : p \in {x \in A \X B : Overlap(x[1], x[2])}}

Disjoint(A, B) == \A a \in A, b \in B : ~Overlap(a, b)

------------------------------------------------------------------------------
\* Collections: a set of <<query type, value>>

CollectionAdd(C, S, v) == C \union {<<q, v>> : q \in S}

CollectionRemove(C, v) == {x \in C : x[2] # v}

CollectionGet(C, t) == {x[2] : x \in {y \in C : Matches(y[1], t)}}
=============================================================================
