----------------------------- MODULE EventTypes -----------------------------
(* Event types, query types and subscriptions.                             *)
(*                                                                         *)
(* An event type is a sequence of strings.  A query type is a sequence     *)
(* where "?" stands for one arbitrary subtype and "*", as the last element, *)
(* for zero or more.  A subscription is a sequence of query types.         *)
EXTENDS Naturals, Sequences

IsStar(q) == Len(q) > 0 /\ q[Len(q)] = "*"

\* number of subtypes which are matched one by one
PrefixLen(q) == IF IsStar(q) THEN Len(q) - 1 ELSE Len(q)

Matches(q, t) ==
    /\ IF IsStar(q) THEN Len(t) >= PrefixLen(q) ELSE Len(t) = PrefixLen(q)
    /\ \A i \in 1..PrefixLen(q) : q[i] = "?" \/ q[i] = t[i]

SubMatches(subs, t) == \E i \in DOMAIN subs : Matches(subs[i], t)

\* exists an event type matched by both query types
Overlap(q1, q2) ==
    LET n1 == PrefixLen(q1)
        n2 == PrefixLen(q2)
        n  == IF n1 < n2 THEN n1 ELSE n2
    IN /\ \A i \in 1..n : q1[i] = "?" \/ q2[i] = "?" \/ q1[i] = q2[i]
       /\ \/ n1 = n2
          \/ n1 < n2 /\ IsStar(q1)
          \/ n2 < n1 /\ IsStar(q2)

SubDisjoint(s1, s2) ==
    \A i \in DOMAIN s1 : \A j \in DOMAIN s2 : ~Overlap(s1[i], s2[j])
=============================================================================
