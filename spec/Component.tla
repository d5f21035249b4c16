----------------------------- MODULE Component -----------------------------
(* A component: what monitor server has told it, event servers as they     *)
(* are, its connection and its runner.                                     *)
EXTENDS Integers

CONSTANT Servers        \* event servers, 0 stands for none

VARIABLES
    phase,      \* "run", "closing", "end"
    ready,      \* component is ready
    seen,       \* [on, a] - component is blessed, active event server
    up,         \* set of available event servers
    conns,      \* r -> number of connections
    runners     \* set of runners which exist, including those being created

cvars == <<phase, ready, seen, up, conns, runners>>

CInit ==
    /\ phase = "run"
    /\ ready = FALSE
    /\ seen = [on |-> FALSE, a |-> 0]
    /\ up = {}
    /\ conns = [r \in Servers |-> 0]
    /\ runners = {}

DoPhase(x) == phase' = x /\ UNCHANGED <<ready, seen, up, conns, runners>>

DoReady(on) == ready' = on /\ UNCHANGED <<phase, seen, up, conns, runners>>

DoSeen(on, a) ==
    /\ seen' = [on |-> on, a |-> a]
    /\ UNCHANGED <<phase, ready, up, conns, runners>>

DoUp(r, on) ==
    /\ up' = IF on THEN up \union {r} ELSE up \ {r}
    /\ UNCHANGED <<phase, ready, seen, conns, runners>>

DoConn(r, n) ==
    /\ conns' = [conns EXCEPT ![r] = @ + n]
    /\ UNCHANGED <<phase, ready, seen, up, runners>>

DoCreate(k) ==
    /\ runners' = runners \union {k}
    /\ UNCHANGED <<phase, ready, seen, up, conns>>

DoClosed(k) ==
    /\ runners' = runners \ {k}
    /\ UNCHANGED <<phase, ready, seen, up, conns>>

\* runner has to exist for this event server, 0 for none
Target == IF phase = "run" /\ ready /\ seen.on /\ seen.a \in up
          THEN seen.a ELSE 0
=============================================================================
