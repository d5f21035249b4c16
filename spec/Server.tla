------------------------------- MODULE Server -------------------------------
(* A whole event server: what the monitor server has decided, remote       *)
(* servers as they are, connections to them, and the engine.               *)
EXTENDS Integers

CONSTANT Remotes

VARIABLES
    phase,      \* "init", "run", "stop", "end"
    blessed,    \* monitor server blesses the server
    present,    \* set of remote components which monitor server announces
    up,         \* set of remote servers which are available
    rstat,      \* r -> status of remote server
    links,      \* r -> number of connections to remote server
    eng         \* number of engines which have been created

svars == <<phase, blessed, present, up, rstat, links, eng>>

SInit ==
    /\ phase = "init"
    /\ blessed = FALSE
    /\ present = {} /\ up = {}
    /\ rstat = [r \in Remotes |-> "STANDBY"]
    /\ links = [r \in Remotes |-> 0]
    /\ eng = 0

DoPhase(x) ==
    /\ phase' = x
    /\ UNCHANGED <<blessed, present, up, rstat, links, eng>>

DoBless(on) ==
    /\ blessed' = on
    /\ UNCHANGED <<phase, present, up, rstat, links, eng>>

DoPresent(r, on) ==
    /\ present' = IF on THEN present \union {r} ELSE present \ {r}
    /\ UNCHANGED <<phase, blessed, up, rstat, links, eng>>

DoUp(r, on, s) ==
    /\ up' = IF on THEN up \union {r} ELSE up \ {r}
    /\ rstat' = [rstat EXCEPT ![r] = s]
    /\ UNCHANGED <<phase, blessed, present, links, eng>>

DoLink(r, n) ==
    /\ links' = [links EXCEPT ![r] = @ + n]
    /\ UNCHANGED <<phase, blessed, present, up, rstat, eng>>

DoCreate ==
    /\ eng' = eng + 1
    /\ UNCHANGED <<phase, blessed, present, up, rstat, links>>

\* remote server which is known to be active
Active(r) == links[r] > 0 /\ rstat[r] # "STANDBY"

\* connections which have to exist after a while
Followed == present \intersect up
=============================================================================
