----------------------------- MODULE Histories -----------------------------
(* Histories of events, which consist of sessions.                         *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

(* An event is [o, s, i, k]: origin, session, instance and its content.    *)

Elements(s) == {s[i] : i \in DOMAIN s}

All(h) == UNION {Elements(h[o]) : o \in DOMAIN h}

\* the last event is the last one of its session in longer history
WholeSessions(s, longer) ==
    IF s = <<>> \/ Len(s) >= Len(longer)
        THEN TRUE
        ELSE longer[Len(s) + 1].s # s[Len(s)].s

\* copy of a history is a part of it
IsCopy(s, original) == IsPrefix(s, original) /\ WholeSessions(s, original)

\* events of a session which can follow history s of server o
IsNextSession(o, s, new) ==
    /\ new # <<>>
    /\ \A i \in DOMAIN new : /\ new[i].o = o
                             /\ new[i].i = i
                             /\ new[i].s = new[1].s
    /\ new[1].s > IF s = <<>> THEN 0 ELSE s[Len(s)].s

\* what a server which crashed can start with
IsRecovered(s, before) == IsCopy(s, before)

=============================================================================
