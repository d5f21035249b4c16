-------------------------- MODULE MCAdminerServer --------------------------
(* Exhaustive check of the event server's adminer.                         *)
EXTENDS AdminerServer, FiniteSets

CONSTANTS MaxReqs

VARIABLES asked,    \* number of requests
          hist      \* configurations which were accepted, in order

vars == <<svars, asked, hist>>

Init == SInit(1) /\ asked = 0 /\ hist = {1}

Next ==
    \/ /\ asked < MaxReqs
       /\ asked' = asked + 1
       /\ \E kind \in {"get", "set"}, ok \in BOOLEAN :
            DoAsk(asked', kind, 10 + asked', ok)
       /\ UNCHANGED hist
    \/ \E r \in DOMAIN reqs :
        /\ DoServe(r)
        /\ hist' = hist \union {conf'}
        /\ UNCHANGED asked
    \/ \E r \in DOMAIN reqs :
        /\ reqs[r].st = "served"
        /\ DoForget(r)
        /\ UNCHANGED <<asked, hist>>

Spec == Init /\ [][Next]_vars

\* reported configuration is the initial or an accepted one
Accepted == \A r \in DOMAIN reqs :
    reqs[r].st = "served" /\ reqs[r].kind = "get" => reqs[r].res \in hist

\* what is reported is applied
Applied == applied # 0 => applied = conf

\* rejected configuration changes nothing
Rejected == \A r \in DOMAIN reqs :
    reqs[r].kind = "set" /\ ~reqs[r].ok => conf # reqs[r].v
=============================================================================
