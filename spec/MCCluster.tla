----------------------------- MODULE MCCluster -----------------------------
(* Servers with limited number of sessions, crashes and stops, after which *)
(* the installation recovers.                                              *)
EXTENDS Cluster, TLC

CONSTANTS MaxCreates, MaxDowns, MaxBlesses, MaxSession

VARIABLES creates, downs, blesses

vars == <<clusterVars, creates, downs, blesses>>

Init ==
    /\ ClusterInit
    /\ creates = 0
    /\ downs = 0
    /\ blesses = 0

NextSession(n) ==
    LET s == hist[n][n] IN IF s = <<>> THEN 1 ELSE s[Len(s)].s + 1

New(n, count) ==
    [i \in 1..count |-> [o |-> n, s |-> NextSession(n), i |-> i,
                         k |-> creates + 1]]

MCCreate(n) ==
    /\ creates < MaxCreates
    /\ \E count \in 1..MaxSession : Create(n, New(n, count))
    /\ creates' = creates + 1
    /\ UNCHANGED <<downs, blesses>>

MCDown(n) ==
    /\ downs < MaxDowns
    /\ Crash(n) \/ Stop(n)
    /\ downs' = downs + 1
    /\ UNCHANGED <<creates, blesses>>

\* the monitor changes its mind only so many times, except when nobody is
\* blessed
MCBless(n) ==
    /\ \/ blessed = "none" /\ UNCHANGED blesses
       \/ blesses < MaxBlesses /\ blesses' = blesses + 1
    /\ Bless(n)
    /\ UNCHANGED <<creates, downs>>

Rest(A) == A /\ UNCHANGED <<creates, downs, blesses>>

BlessAny == \E n \in Nodes : blessed = "none" /\ MCBless(n)

Next ==
    \/ \E n \in Nodes :
        \/ MCCreate(n)
        \/ MCDown(n)
        \/ MCBless(n)
        \/ Rest(Activate(n))
        \/ Rest(Deactivate(n))
        \/ Rest(Flush(n))
        \/ Rest(Announce(n))
        \/ Rest(Start(n))
    \/ \E n, o \in Nodes : Rest(Copy(n, o))

Fairness ==
    /\ WF_vars(BlessAny)
    /\ \A n \in Nodes :
        /\ WF_vars(Rest(Activate(n)))
        /\ WF_vars(Rest(Deactivate(n)))
        /\ WF_vars(Rest(Flush(n)))
        /\ WF_vars(Rest(Start(n)))
    /\ \A n, o \in Nodes : WF_vars(Rest(Copy(n, o)))

Spec == Init /\ [][Next]_vars /\ Fairness

Recovers == <>[](Complete /\ SingleActive)
=============================================================================
